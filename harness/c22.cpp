// C22: a model built on the CVODE adapter keeps its clock, state and events in step with
// the simulator. One or two models with known solutions, driven by inputs at any time and
// by each other; every call the adapter makes to them is judged.
#include <cvode/cvode.h>
#include <nvector/nvector_serial.h>
#include <sunlinsol/sunlinsol_dense.h>
#include <sunmatrix/sunmatrix_dense.h>
#include <cassert>
#include <cmath>
#include <iomanip>
#include "adevs/adevs.h"
#include "adevs/solvers/cvode.h"
#include "pbt.h"
using pbt::Ctx;
using pbt::Src;
double adevs::double_fcmp::epsilon = 1e-9;
typedef adevs::PinValue<int> Pv;
typedef std::list<Pv> PVs;
typedef std::vector<double> Vec;

static long clones = 0, destroyed = 0;
static N_Vector (*serial_clone)(N_Vector);
static void (*serial_destroy)(N_Vector);
static N_Vector counted_clone(N_Vector v) {
    clones++;
    return serial_clone(v);
}
static void counted_destroy(N_Vector v) {
    destroyed++;
    serial_destroy(v);
}
struct Context {
    SUNContext c;
    Context() { SUNContext_Create(nullptr, &c); }
} context;

struct Log {
    char kind;  // 'r' reinit, 'u' integrate until, 'n' integrate, 'i' 'e' 'c' transitions, 'o' output
    double t = 0;
    Vec y;
    int in = 0;
    bool event = false;
    bool at_once = false;
};
static char const* name(char k) {
    switch (k) {
        case 'r': return "cvode_reinit";
        case 'u': return "cvode_integrate_until";
        case 'n': return "cvode_integrate";
        case 'i': return "cvode_delta_int";
        case 'e': return "cvode_delta_ext";
        case 'c': return "cvode_delta_conf";
        default: return "cvode_output_func";
    }
}
// variable 0 is a clock; the others move at constant rates, or the second is accelerated
struct Model : adevs::CVODE<int> {
    Src &s;
    Ctx* ctx = nullptr;
    int id, n;
    bool lazy;    // sets event only to true
    bool swaps;   // the state is not always in the same vector
    bool real;    // integrated by CVode
    Vec rate;
    double g = 0, level = 1e300, hmax, x0;
    N_Vector y, other;
    double tm = 0;  // the time of y
    std::vector<Log> log;
    bool initial = true;
    int events_of = 0;
    std::vector<double> step;  // usual steps
    adevs::pin_t out;
    long integrations = 0;
    // CVode
    void* mem = nullptr;
    SUNMatrix A = nullptr;
    SUNLinearSolver LS = nullptr;
    N_Vector abstol = nullptr;

    Model(Src &s, int id) : s(s), id(id) {
        real = s.chance(1, 5);
        n = real ? 3 : (int)s.size(1, 4, 60);
        lazy = s.chance(1, 4);
        swaps = !real && s.chance(1, 3);
        y = N_VNew_Serial(n, context.c);
        other = N_VNew_Serial(n, context.c);
        serial_clone = N_VClone_Serial;
        serial_destroy = N_VDestroy_Serial;
        y->ops->nvclone = other->ops->nvclone = counted_clone;  // a clone has the same operations
        y->ops->nvdestroy = other->ops->nvdestroy = counted_destroy;
        x0 = s.of<double>({0, 5});
        NV_Ith_S(y, 0) = x0;
        for (int i = 1; i < n; i++) NV_Ith_S(y, i) = s.real(-2, 2);
        rate.push_back(1);
        for (int i = 1; i < n; i++) rate.push_back(s.of<double>({1, -1, 0.5, 0, 3}));
        hmax = s.of<double>({0.5, 0.1, 1, 3});
        if (real) {
            g = s.of<double>({0, -2, 1});
            new_level();
            mem = CVodeCreate(CV_ADAMS, context.c);
            abstol = N_VNew_Serial(n, context.c);
            N_VConst(1e-9, abstol);
            CVodeInit(mem, f, 0.0, y);
            CVodeSVtolerances(mem, 1e-9, abstol);
            CVodeRootInit(mem, 1, root);
            A = SUNDenseMatrix(n, n, context.c);
            LS = SUNLinSol_Dense(y, A, context.c);
            CVodeSetLinearSolver(mem, LS, A);
            CVodeSetUserData(mem, this);
        }
    }
    ~Model() {
        if (mem) {
            CVodeFree(&mem);
            SUNLinSolFree(LS);
            SUNMatDestroy(A);
            N_VDestroy(abstol);
        }
        N_VDestroy(y);
        N_VDestroy(other);
    }
    static int f(double, N_Vector y, N_Vector dy, void* self) {
        Model &m = *(Model*)self;
        NV_Ith_S(dy, 0) = 1;
        NV_Ith_S(dy, 1) = NV_Ith_S(y, 2);
        NV_Ith_S(dy, 2) = m.g;
        return 0;
    }
    static int root(double, N_Vector y, double* r, void* self) {
        r[0] = NV_Ith_S(y, 1) - ((Model*)self)->level;
        return 0;
    }
    void new_level() { level = s.coin() ? 1e6 : NV_Ith_S(y, 1) + s.of<double>({0.3, -0.3, 1, -1}); }
    Vec state() const { return Vec(NV_DATA_S(y), NV_DATA_S(y) + n); }
    void flow(Vec const &a, double t, Vec &b) const {
        b = a;
        if (real) {
            b[0] += t;
            b[1] += a[2] * t + g * t * t / 2;
            b[2] += g * t;
        } else
            for (int i = 0; i < n; i++) b[i] += rate[i] * t;
    }
    void set(Vec const &v) {
        if (swaps && s.coin()) std::swap(y, other);
        for (int i = 0; i < n; i++) NV_Ith_S(y, i) = v[i];
    }
    Log &add(char k) {
        if (log.size() > 1000) {
            fprintf(stderr, "Assertion: the model is called without end\n");
            abort();
        }
        log.push_back(Log());
        log.back().kind = k;
        log.back().y = state();
        return log.back();
    }
    void jump() {
        if (!s.chance(1, 3)) return;
        Vec v = state();
        for (int i = 1; i < n; i++)
            if (s.coin()) v[i] = s.real(-2, 2);
        if (!real && n > 1) rate[1] = s.of<double>({1, -1, 2, 0});
        if (real && s.coin()) g = -g;
        set(v);
    }
    // to continue from what the handler leaves
    void restart() {
        if (!real) return;
        if (std::fabs(NV_Ith_S(y, 1) - level) < 1e-3) level = 1e6;
        CVodeReInit(mem, tm, y);
    }
    void advance(double dt) {
        if (real) {
            if (dt < 1e-6) {  // too short for CVode
                Vec v;
                flow(state(), dt, v);
                set(v);
                tm += dt;
                restart();
                return;
            }
            double reached;
            int r = CVode(mem, tm + dt, y, &reached, CV_NORMAL);
            CHECK(r == CV_SUCCESS || r == CV_ROOT_RETURN, "CVode fails: " << r);
            tm = reached;
            return;
        }
        Vec v;
        flow(state(), dt, v);
        set(v);
        tm += dt;
    }
    void cvode_integrate(double &tf, bool &event) override {
        integrations++;
        double before = tm;
        Vec begin = state();
        bool ev;
        if (!real) {
            double dt = s.weighted({6, 2, 1, 1}) == 0 ? hmax : s.of<double>({0.25, 1e-3, 0, 2});
            ev = s.chance(2, 5) || dt == 0;
            if (s.chance(1, 12)) {  // nothing more by itself
                tf = adevs_inf<double>();
                ev = false;
            } else {
                advance(dt);
                tf = tm;
            }
        } else {
            double dt = s.chance(1, 8) ? 0.0 : hmax;
            ev = dt == 0;
            int roots = 0;
            advance(dt);
            if (dt > 0) {
                CVodeGetRootInfo(mem, &roots);
                if (roots) ev = true;
            }
            tf = tm;
        }
        Log &l = add('n');
        l.y = begin;
        l.t = tf;
        l.event = ev;
        l.at_once = tm == before;
        if (!lazy || ev) event = ev;
        NOTE(*ctx, "    model " << id << " steps from " << before << " to " << tf << (ev ? ", event" : ""));
    }
    void cvode_integrate_until(double tf, bool &event) override {
        Log &l = add('u');
        l.t = tf;
        bool ev = false;
        CHECK(tf >= tm - 1e-9, "cvode_integrate_until is called for " << tf << ", now is " << tm);
        if (!real) {
            advance(tf - tm);
            ev = s.chance(1, 4);
        } else {
            // the system may reach its level on the way; it then goes on to tf
            int guard = 0, roots = 0;
            while (tm < tf && guard++ < 20) {
                advance(tf - tm);
                CVodeGetRootInfo(mem, &roots);
                if (roots) {
                    ev = true;
                    level = 1e6;
                }
            }
        }
        tm = tf;
        log.back().event = ev;
        if (!lazy || ev) event = ev;
    }
    void cvode_reinit(N_Vector v, double t) override {
        Log &l = add('r');
        l.t = t;
        l.y = Vec(NV_DATA_S(v), NV_DATA_S(v) + n);
        Vec copy = l.y;
        set(copy);
        tm = t;
        if (real) CVodeReInit(mem, t, y);
    }
    void cvode_delta_int() override {
        add('i');
        jump();
        if (real) new_level();
        restart();
    }
    void cvode_delta_ext(double t, PVs const &xb) override {
        Log &l = add('e');
        l.t = t;
        l.in = (int)xb.size();
        jump();
        restart();
    }
    void cvode_delta_conf(PVs const &xb) override {
        Log &l = add('c');
        l.in = (int)xb.size();
        jump();
        if (real) new_level();
        restart();
    }
    void cvode_output_func(PVs &yb) override {
        add('o');
        yb.push_back(Pv(out, id));
    }
    N_Vector cvode_get_state() override { return y; }
};

// what the adapter committed itself to
struct Ref {
    double t = 0;       // of the last transition, as the simulator sees it
    Vec y;              // the state then
    Vec rate;
    double g = 0;
    double next;        // of the step integrated last
    bool event = false;
};
static void prop(Src &s, Ctx &ctx) {
    long clones0 = clones, destroyed0 = destroyed;
    int made = 0;
    int steps = 0, internals = 0, externals = 0, confs = 0, found = 0, together = 0, from_peer = 0, zero = 0, infinite = 0, real = 0;
    {
        int n = (int)s.range(1, 2);
        std::vector<std::shared_ptr<Model>> m;
        std::vector<Ref> ref(n);
        auto g = std::make_shared<adevs::Graph<int>>();
        std::vector<adevs::pin_t> in(n);
        bool peer[2] = {n == 2 && s.coin(), n == 2 && s.coin()};  // sends to the other
        for (int i = 0; i < n; i++) {
            m.push_back(std::make_shared<Model>(s, i));
            m[i]->ctx = &ctx;
            made += 2;
            real += m[i]->real;
            ref[i].y = m[i]->state();
            ref[i].rate = m[i]->rate;
            ref[i].g = m[i]->g;
            g->add_atomic(m[i]);
            g->connect(in[i], m[i]);
            NOTE(ctx, "model " << i << ": " << m[i]->n << " variables" << (m[i]->real ? ", integrated by CVode" : "") << (m[i]->lazy ? ", sets event only to true" : "")
                               << ", steps of " << m[i]->hmax);
        }
        for (int i = 0; i < n; i++)
            if (peer[i]) g->connect(m[i]->out, m[1 - i]);
        adevs::Simulator<int> sim(g);
        double now = 0;
        auto exact = [&](int i, Vec const &y, double t, char const* what) {
            Vec r;
            Model &M = *m[i];
            std::swap(M.rate, ref[i].rate);
            std::swap(M.g, ref[i].g);
            M.flow(ref[i].y, t - ref[i].t, r);
            std::swap(M.rate, ref[i].rate);
            std::swap(M.g, ref[i].g);
            double eps = M.real ? 1e-5 : 1e-9;
            for (int j = 0; j < M.n; j++)
                CHECK(std::fabs(y[j] - r[j]) <= eps * (1 + std::fabs(r[j])), what << " at " << t << " sees variable " << j << " = " << y[j] << ", the solution there is " << r[j]);
            CHECK(std::fabs(y[0] - (M.x0 + t)) <= 1e-6, what << " at " << t << " sees the state of " << y[0] - M.x0);
        };
        auto integrated = [&](int i, Log const &l, double t) {
            CHECK(l.kind == 'n', name(l.kind) << " is called, not cvode_integrate");
            ref[i].next = l.t;
            ref[i].event = l.event;
            if (l.at_once) zero++;
            if (l.t == adevs_inf<double>())
                infinite++;
            else {
                CHECK(l.t >= t - 1e-9, "the step ends at " << l.t << ", before now at " << t);
            }
        };
        for (int i = 0; i < n; i++) {
            CHECK(m[i]->log.size() == 1, "the model is called " << m[i]->log.size() << " times at the start");
            integrated(i, m[i]->log[0], 0);
            m[i]->log.clear();
        }
        int cycles = (int)s.range(1, 40);
        for (int c = 0; c < cycles; c++) {
            double nx = adevs_inf<double>();
            for (int i = 0; i < n; i++) nx = std::min(nx, ref[i].next);
            double snx = sim.nextEventTime();
            if (nx == adevs_inf<double>())
                CHECK(snx == nx, "the next event is at " << snx << ", there is none");
            else
                CHECK(std::fabs(snx - nx) <= 1e-9, "the next event is at " << snx << ", the steps end at " << nx);
            std::vector<int> inputs(n, 0);
            double t = snx;
            int w = s.weighted({4, 3, 1, 1, 1});
            if (w) {
                double span = std::min(snx, now + 2) - now;
                t = w == 1 ? now + span * s.real(0, 1) : w == 2 ? snx : w == 3 ? now : snx - s.of<double>({1e-3, 1e-6, 1e-10});
                if (!(t >= now)) t = now;
                if (t > snx) t = snx;
                if (t == adevs_inf<double>()) t = now + 0.5;
                if (t < snx) sim.setNextTime(t);
                int k = (int)s.range(1, 3);
                for (int i = 0; i < k; i++) {
                    int j = (int)s.below(n);
                    Pv x(in[j], i);
                    sim.injectInput(x);
                    inputs[j]++;
                }
            }
            if (t == adevs_inf<double>() || t > 30) break;
            NOTE(ctx, "cycle at " << std::setprecision(17) << t << ", " << inputs[0] << " inputs");
            sim.computeNextOutput();
            for (int i = 0; i < n; i++) {
                int outs = 0;
                for (auto const &l : m[i]->log) {
                    CHECK(l.kind == 'o', name(l.kind) << " is called while output is computed");
                    outs++;
                }
                CHECK(outs <= 1, "output is asked for twice");
                if (outs) {
                    CHECK(ref[i].event && std::fabs(ref[i].next - t) <= 1e-9, "output is asked for at " << t << ", the next event is at " << (ref[i].event ? ref[i].next : -1));
                    exact(i, m[i]->log[0].y, t, "cvode_output_func");
                    if (peer[i]) {
                        inputs[1 - i]++;
                        from_peer++;
                    }
                }
            }
            double r = sim.computeNextState();
            CHECK(r == t, "the cycle ends at another time");
            for (int i = 0; i < n; i++) {
                auto &log = m[i]->log;
                Model &M = *m[i];
                bool due = std::fabs(ref[i].next - t) <= 1e-9;
                if (!due && inputs[i] == 0) {
                    CHECK(log.empty(), "model " << i << " has nothing to do at " << t << " but " << name(log[0].kind) << " is called");
                    continue;
                }
                if (log.empty()) {  // a step that ends a little later
                    CHECK(n == 2 && inputs[i] == 0, "model " << i << " is not executed at " << t);
                    continue;
                }
                size_t p = 0;
                bool output = log[0].kind == 'o';
                if (output) p++;
                CHECK(p < log.size(), "nothing follows output");
                if (log[p].kind == 'r') {  // interrupted
                    CHECK(!output, "a step is interrupted after its output was asked for");
                    CHECK(inputs[i] > 0, "a step is interrupted without input");
                    CHECK(std::fabs(log[p].t - ref[i].t) <= 1e-9, "cvode_reinit is called for " << log[p].t << ", the step began at " << ref[i].t);
                    for (int j = 0; j < M.n; j++)
                        CHECK(log[p].y[j] == ref[i].y[j], "cvode_reinit is given variable " << j << " = " << log[p].y[j] << ", it was " << ref[i].y[j] << " when the step began");
                    p++;
                    CHECK(p < log.size() && log[p].kind == 'u', "cvode_integrate_until does not follow cvode_reinit");
                    CHECK(std::fabs(log[p].t - t) <= 1e-9, "cvode_integrate_until is called for " << log[p].t << ", now is " << t);
                    bool ev = log[p].event;
                    p++;
                    CHECK(p < log.size() && log[p].kind == (ev ? 'c' : 'e'),
                          (ev ? "an event is found" : "no event is found") << " before the input but " << (p < log.size() ? name(log[p].kind) : "nothing") << " follows");
                    if (ev) found++;
                } else {
                    CHECK(due, "model " << i << " is executed at " << t << ", its step ends at " << ref[i].next);
                    CHECK(output == ref[i].event, "output is " << (output ? "" : "not ") << "asked for at a step " << (ref[i].event ? "with" : "without") << " event");
                    char want = inputs[i] ? (ref[i].event ? 'c' : 'e') : ref[i].event ? 'i' : 'n';
                    CHECK(log[p].kind == want, name(log[p].kind) << " is called, not " << name(want));
                    if (inputs[i]) together++;
                    if (want == 'n') steps++;
                }
                bool handled = log[p].kind != 'n';
                if (handled) {
                    Log const &l = log[p];
                    exact(i, l.y, t, name(l.kind));
                    if (l.kind != 'i') CHECK(l.in == inputs[i], l.in << " inputs are handled, " << inputs[i] << " were sent");
                    if (l.kind == 'e') CHECK(std::fabs(l.t - t) <= 1e-9, "cvode_delta_ext is told the time " << l.t << ", it is " << t);
                    (l.kind == 'i' ? internals : l.kind == 'e' ? externals : confs)++;
                    p++;
                }
                CHECK(p < log.size() && p + 1 == log.size(), "cvode_integrate is not called once after the transition");
                Vec left = log[p].y;
                if (!handled) exact(i, left, t, "the step that follows");
                ref[i].t = t;
                ref[i].y = left;
                ref[i].rate = M.rate;
                ref[i].g = M.g;
                integrated(i, log[p], t);
                log.clear();
            }
            for (int i = 0; i < n; i++) m[i]->log.clear();
            now = t;
        }
    }
    CHECK(real || destroyed - destroyed0 == clones - clones0 + made, clones - clones0 + made << " vectors were made, " << destroyed - destroyed0 << " destroyed");
    if (real) ctx.label("integrated by CVode");
    if (steps) ctx.label("step without event");
    if (internals) ctx.label("internal event");
    if (externals) ctx.label("external event");
    if (confs) ctx.label("confluent event");
    if (found) ctx.label("event found before an input");
    if (together) ctx.label("input at the end of a step");
    if (from_peer) ctx.label("models that drive each other");
    if (zero) ctx.label("step of length zero");
    if (infinite) ctx.label("step without end");
    ctx.nontrivial(externals + confs >= 1 && internals + steps >= 1);
}
PBT_MAIN(prop)
