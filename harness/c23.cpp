// C23: the FMU adapter drives any FMU through legal model exchange call sequences, and a hybrid
// model of the FMU behaves as one of the same equations written as an ode_system.
#include <cassert>
#include <cfloat>
#include <iomanip>
#include <list>
#include <memory>
#include "pbt.h"
#include "adevs/adevs.h"
#include "adevs/solvers/corrected_euler.h"
#include "adevs/solvers/rk_45.h"
#include "adevs/solvers/trap.h"
#include "adevs/solvers/fmi.h"
using pbt::Ctx;
using pbt::Src;
double adevs::double_fcmp::epsilon = 1e-9;
typedef std::list<adevs::PinValue<int>> PVs;
typedef std::vector<double> Vec;
static double const inf = adevs_inf<double>();

// x' = k a + B x + c u + w t, levels, timed events, step events, event iterations
struct Core : FmuModel {
    struct Ind {
        int var, action;
        double s, level;
    };
    Vec a, B, c, w, x0;
    std::vector<Ind> ev;
    double u = 0, reset_to = 0, k = 1, other_real = 5;
    int sel = 0, reset = 0, count = 0, was_reset = 0, other_int = 7, other_bool = 1;
    unsigned vr_u = 0, vr_reset_to = 0, vr_other = 0, vi_sel = 0, vi_count = 0, vi_other = 0, vb_reset = 0, vb_other = 0;
    double next = inf, period = 0, offset = 0;
    long steps = 0, step_mod = 0;
    bool step_pending = false, lazy = false, junk = false, replans = false;
    int max_iter = 0;
    uint64_t rng = 1;
    std::vector<double> zs;
    // of an event iteration
    bool busy = false, any = false;
    int iter = 0;
    std::vector<char> hit;
    bool timed = false;
    int n_timed = 0, n_state = 0, n_step = 0, n_iter = 0, n_cancelled = 0;

    uint64_t rnd() { return rng = pbt::mix(rng); }
    double unit() { return (double)(rnd() % 1001) / 1000.0; }
    void start(double* x) override {
        for (int i = 0; i < n; i++) x[i] = x0[i];
        for (auto &e : ev) e.level = (e.var < n ? x[e.var] : 0) + (unit() + 0.05) * (rnd() & 1 ? 1 : -1);
        zs.assign(z, 0);
        ind(0, x, zs.data());
    }
    void der(double t, double const* x, double* dx) override {
        for (int i = 0; i < n; i++) {
            double s = k * a[i] + c[i] * u + w[i] * t;
            for (int j = 0; j < n; j++) s += B[i * n + j] * x[j];
            dx[i] = s;
        }
    }
    double partial(int r, int q) override { return B[r * n + q]; }
    void ind(double t, double const* x, double* r) override {
        for (int i = 0; i < z; i++) r[i] = ev[i].s * ((ev[i].var < n ? x[ev[i].var] : t) - ev[i].level);
    }
    bool completed(double, double const*) override {
        steps++;
        step_pending = step_mod && steps % step_mod == 0;
        return step_pending;
    }
    // an event changes the plan for another
    void replan(double t) {
        if (!replans || next <= t || next == inf) return;
        switch (rnd() % 4) {
            case 0:
                next = inf;
                n_cancelled++;
                break;
            case 1: next += 0.05 + unit() * 0.3; break;
            case 2: next = t + (next - t) * (0.1 + 0.8 * unit()); break;
        }
    }
    void update(double t, double* x, bool, fmi2_event_info_t* info) override {
        if (!busy) {
            busy = true;
            iter = any = 0;
            hit.assign(z, 0);
            Vec r(z);
            ind(t, x, r.data());
            for (int i = 0; i < z; i++)
                if ((zs[i] < 0) != (r[i] < 0) || (zs[i] > 0) != (r[i] > 0)) hit[i] = any = true;
            timed = t >= next;
            if (timed || step_pending || sel % 3 != (k < 0 ? 1 : k < 0.75 ? 2 : 0) || reset != was_reset) any = true;
            if (any && max_iter) iter = (int)(rnd() % (max_iter + 1));
            if (iter) n_iter++;
        }
        if (iter > 0) {
            iter--;
            info->newDiscreteStatesNeeded = fmi2_true;
            info->nextEventTimeDefined = junk ? fmi2_true : fmi2_false;
            info->nextEventTime = junk ? t + 0.01 : -1;
            if (junk && n) x[0] += 0.125;
            return;
        }
        busy = false;
        if (!lazy || any) info->newDiscreteStatesNeeded = fmi2_false;
        if (any) {
            count++;
            if (step_pending && n) {
                n_step++;
                x[n - 1] *= 0.5;
            }
            step_pending = false;
            sel = (sel % 3 + 3) % 3;
            k = sel == 1 ? -1 : sel == 2 ? 0.5 : 1;
            if (reset != was_reset && n) x[0] = reset_to;
            if (reset != was_reset) replan(t);
            was_reset = reset;
            if (timed) {
                n_timed++;
                if (period > 0) {
                    while (next <= t) next += period;
                } else
                    next = inf;
            }
            for (int i = 0; i < z; i++) {
                if (!hit[i]) continue;
                n_state++;
                Ind &e = ev[i];
                switch (e.action) {
                    case 1:  // bounces
                        if (e.var < n) {
                            a[e.var] = -a[e.var];
                            x[e.var] = e.level + (rnd() & 1 ? 0.1 : -0.1);
                        }
                        break;
                    case 2:
                        if (next == inf) next = t + 0.05 + unit() * 0.3;
                        else replan(t);
                        break;
                }
            }
        }
        // levels away from the state
        Vec r(z);
        ind(t, x, r.data());
        for (int i = 0; i < z; i++)
            if ((!hit.empty() && hit[i]) || fabs(r[i]) < 1e-6) {
                double y = ev[i].var < n ? x[ev[i].var] : t;
                ev[i].level = y + (unit() + 0.05) * (rnd() & 1 || ev[i].var >= n ? 1 : -1);
            }
        ind(t, x, zs.data());
        if (next < inf) {
            info->newDiscreteStatesNeeded = fmi2_false;
            info->nextEventTimeDefined = fmi2_true;
            info->nextEventTime = next;
        } else {
            info->nextEventTime = t + 0.01;
            if (!lazy || any) info->nextEventTimeDefined = fmi2_false;  // some leave it as it was
        }
        any = false;
    }
    double* real(unsigned v) override { return v == vr_u ? &u : v == vr_reset_to ? &reset_to : v == vr_other ? &other_real : nullptr; }
    int* integer(unsigned v) override { return v == vi_sel ? &sel : v == vi_count ? &count : v == vi_other ? &other_int : nullptr; }
    int* boolean(unsigned v) override { return v == vb_reset ? &reset : v == vb_other ? &other_bool : nullptr; }
    // runs the events of one instant
    double settle(double t, double* x) {
        fmi2_event_info_t i;
        memset(&i, 0, sizeof i);
        do {
            update(t, x, false, &i);
        } while (i.newDiscreteStatesNeeded);
        return i.nextEventTimeDefined ? i.nextEventTime : inf;
    }
};
static std::string sname(int i) { return "x[" + std::to_string(i) + "]"; }
static void fill(Src &s, Core &m) {
    m.n = (int)s.size(s.chance(1, 12) ? 0 : 1, 4, 40);
    m.z = (int)s.size(0, 3, 80, 320);
    int n = m.n;
    m.dirder = s.coin();
    for (int i = 0; i < n; i++) {
        m.a.push_back(s.of<double>({1, -1, 0.5, 0, 2}));
        m.c.push_back(s.of<double>({0, 1, -0.5}));
        m.w.push_back(s.of<double>({0, 0, 0.25, -1}));
        m.x0.push_back(s.real(-1, 1));
    }
    bool lin = s.coin();
    for (int i = 0; i < n * n; i++) m.B.push_back(lin ? s.real(-1, 0.2) / std::max(1.0, n / 4.0) : 0);
    for (int i = 0; i < m.z; i++) m.ev.push_back({n == 0 || s.chance(1, 6) ? n : (int)s.below(n), (int)s.below(3), s.of<double>({1, -1, 2}), 0});
    switch (s.weighted({2, 3, 1})) {
        case 0: break;
        case 1: m.next = m.period = s.of<double>({0.1, 0.5, 0.3, 0.25, 0.07}); break;
        default: m.next = s.of<double>({0.1, 0.4, 1});
    }
    m.step_mod = s.coin() ? 0 : s.range(1, 6);
    m.max_iter = (int)s.size(0, 3, 300);
    m.junk = s.coin();
    m.lazy = s.coin();
    m.replans = s.coin();
    m.rng = s.below(1 << 16) + 1;
    // value references of a type are its own; states and derivatives come first
    unsigned base = 2 * n + 1;
    auto p = s.perm(3);
    m.vr_u = base + p[0];
    m.vr_reset_to = base + p[1];
    m.vr_other = base + p[2];
    p = s.perm(3);
    unsigned b = s.coin() ? 0 : base;
    m.vi_sel = b + p[0];
    m.vi_count = b + p[1];
    m.vi_other = b + p[2];
    b = s.coin() ? 0 : base;
    p = s.perm(2);
    m.vb_reset = b + p[0];
    m.vb_other = b + p[1];
    typedef FmuModel::Var V;
    std::vector<V> v;
    for (int i = 0; i < n; i++) {
        v.push_back(V{sname(i), fmi2_base_type_real, (unsigned)i});
        v.push_back(V{"der(" + sname(i) + ")", fmi2_base_type_real, (unsigned)(n + i)});
    }
    v.push_back(V{"time", fmi2_base_type_real, (unsigned)(2 * n)});
    v.push_back(V{"u", fmi2_base_type_real, m.vr_u});
    v.push_back(V{"alias of u", fmi2_base_type_real, m.vr_u});
    v.push_back(V{"reset_to", fmi2_base_type_real, m.vr_reset_to});
    v.push_back(V{"other", fmi2_base_type_real, m.vr_other});
    v.push_back(V{"sel", fmi2_base_type_int, m.vi_sel});
    v.push_back(V{"count", fmi2_base_type_int, m.vi_count});
    v.push_back(V{"other.i", fmi2_base_type_int, m.vi_other});
    v.push_back(V{"reset", fmi2_base_type_bool, m.vb_reset});
    v.push_back(V{"other.b", fmi2_base_type_bool, m.vb_other});
    v.push_back(V{"text", fmi2_base_type_str, 0});
    auto o = s.perm((int)v.size());
    for (int i : o) m.vars.push_back(v[i]);
}
static std::string show(double const* q, int n) {
    std::ostringstream o;
    o << std::setprecision(17);
    for (int i = 0; i < n; i++) o << (i ? " " : "") << q[i];
    return o.str();
}
// An input sets a variable of the FMU
struct Setter {
    virtual void set_u(double) = 0;
    virtual void set_sel(int) = 0;
    virtual void set_reset(int) = 0;
    virtual void set_x(int, double) = 0;
    void apply(int n, int v) {
        double y = (v / 5 % 9 - 4) * 0.25;
        switch (v % 5) {
            case 1: set_u(y); break;
            case 2: set_sel(v / 5 % 3); break;
            case 3: set_reset(v / 5 % 2); break;
            case 4:
                if (n) set_x(v % n, y);
                break;
        }
    }
};
struct Line {
    char kind;
    Vec q;
    double e;
    std::vector<int> in;
    int count;
    bool operator==(Line const &o) const { return kind == o.kind && q == o.q && e == o.e && in == o.in && count == o.count; }
};
static std::string show(Line const &l) {
    std::ostringstream o;
    o << std::setprecision(17) << l.kind << " q = " << show(l.q.data(), (int)l.q.size()) << " e = " << l.e << " input";
    for (int v : l.in) o << " " << v;
    o << " count " << l.count;
    return o.str();
}
static std::vector<int> values(PVs const &xb) {
    std::vector<int> v;
    for (auto const &x : xb) v.push_back(x.value);
    return v;
}

// The same equations, as an ode_system
struct Native : adevs::ode_system<int>, Setter {
    Core m;
    int N;
    double t_now = 0, next = inf;
    std::vector<Line> log;
    adevs::pin_t pin;
    bool jac;
    long evals = 0;
    Native(Core const &c) : m(c), N(c.n), jac(c.dirder) {
        set_num_state_variables(N + 1);
        set_num_event_functions(m.z);
    }
    void tick() {
        if (++evals > 300000) throw pbt::Discard();
    }
    void init(double* q) override {
        m.start(q);
        next = m.settle(0, q);
        q[N] = 0;
    }
    void der_func(double const* q, double* dq) override {
        m.der(q[N], q, dq);
        dq[N] = 1;
    }
    void state_event_func(double const* q, double* z) override {
        m.ind(q[N], q, z);
    }
    double time_event_func(double const* q) override {
        if (!jac) tick();
        return next < inf ? std::max(0.0, next - q[N]) : inf;
    }
    bool get_jacobian(double const*, double* J) override {
        if (!jac || !J) return jac;
        for (int i = 0; i < (N + 1) * (N + 1); i++) J[i] = 0;
        for (int r = 0; r < N; r++)
            for (int c = 0; c < N; c++) J[c * (N + 1) + r] = m.partial(r, c);
        return true;
    }
    void postStep(double* q) override {
        if (q[N] <= t_now) return;
        t_now = q[N];
        if (m.completed(t_now, q)) next = t_now;
    }
    void put(char k, double const* q, double e, std::vector<int> const &in) {
        log.push_back(Line{k, Vec(q, q + N + 1), e, in, m.count});
    }
    void settle(double* q) { next = m.settle(q[N], q); }
    void internal_event(double* q, bool const*) override {
        put('i', q, 0, {});
        settle(q);
        put('I', q, 0, {});
    }
    double* at = nullptr;
    void set_u(double y) override { m.u = y; }
    void set_sel(int v) override { m.sel = v; }
    void set_reset(int v) override { m.reset = v; }
    void set_x(int i, double y) override { at[i] = y; }
    void input(char k, double* q, double e, PVs const &xb) {
        auto in = values(xb);
        put(k, q, e, in);
        settle(q);
        at = q;
        for (int v : in) apply(N, v);
        settle(q);
        put('X', q, 0, {});
    }
    void external_event(double* q, double e, PVs const &xb) override { input('e', q, e, xb); }
    void confluent_event(double* q, bool const*, PVs const &xb) override { input('c', q, 0, xb); }
    void output_func(double const* q, bool const*, PVs &yb) override {
        put('o', q, 0, {});
        yb.push_back(adevs::PinValue<int>(pin, m.count));
    }
};

#define LEGAL(f) CHECK((f).bad.empty(), (f).bad)
// The adapter, used as its documentation says, with every call checked
struct Drv : adevs::ModelExchange<int>, Setter {
    typedef adevs::ModelExchange<int> Base;
    fmi2_import_t &f;
    Core &m;
    int N;
    std::vector<Line> log;
    adevs::pin_t pin;
    std::string wrong;  // found in a call by a solver
    Drv(fmi2_import_t &f, Core &m, double tol) : Base(f.file.c_str(), tol), f(f), m(m), N(m.n) {}
    void complain(std::string const &w) {
        if (wrong.empty()) wrong = w;
    }
    void der_func(double const* q, double* dq) override {
        Vec c(q, q + N + 1), d(N + 1);
        Base::der_func(q, dq);
        m.der(c[N], c.data(), d.data());
        for (int i = 0; i < N; i++)
            if (dq[i] != d[i]) complain("der_func at " + ::show(c.data(), N + 1) + " gives " + ::show(dq, N + 1) + ", not " + ::show(d.data(), N));
        if (dq[N] != 1) complain("the derivative of time is " + std::to_string(dq[N]));
    }
    void state_event_func(double const* q, double* z) override {
        Vec d(m.z);
        Base::state_event_func(q, z);
        m.ind(q[N], q, d.data());
        for (int i = 0; i < m.z; i++)
            if (z[i] != d[i]) complain("state_event_func at " + ::show(q, N + 1) + " gives " + ::show(z, m.z) + ", not " + ::show(d.data(), m.z));
    }
    void at(double const* q, char const* what) {  // the FMU is in the state given
        bool ok = fabs(f.t - q[N]) <= 1e-12 * (1 + fabs(f.t));
        for (int i = 0; i < N; i++) ok = ok && (fabs(f.x[i] - q[i]) <= 1e-9 * (1 + fabs(q[i])) || f.x[i] == q[i]);
        if (!ok) complain(std::string(what) + " for " + ::show(q, N + 1) + ", the FMU is at " + ::show(f.x.data(), N) + " time " + std::to_string(f.t));
    }
    void put(char k, double const* q, double e, std::vector<int> const &in) {
        log.push_back(Line{k, Vec(q, q + N + 1), e, in, std::any_cast<int>(get_variable("count"))});
    }
    void internal_event(double* q, bool const* flag) override {
        at(q, "internal_event");
        put('i', q, 0, {});
        Base::internal_event(q, flag);
        put('I', q, 0, {});
    }
    void set_u(double y) override { set_variable(m.count & 1 ? "u" : "alias of u", y); }
    void set_sel(int v) override { set_variable("sel", v); }
    void set_reset(int v) override { set_variable("reset", v); }
    void set_x(int i, double y) override { set_variable(sname(i), y); }
    void external_event(double* q, double e, PVs const &xb) override {
        at(q, "external_event");
        auto in = values(xb);
        put('e', q, e, in);
        Base::external_event(q, e, xb);
        for (int v : in) apply(N, v);
        Base::external_event(q, 0, xb);
        put('X', q, 0, {});
    }
    void confluent_event(double* q, bool const* flag, PVs const &xb) override {
        at(q, "confluent_event");
        auto in = values(xb);
        put('c', q, 0, in);
        Base::confluent_event(q, flag, xb);
        for (int v : in) apply(N, v);
        Base::confluent_event(q, flag, xb);
        put('X', q, 0, {});
    }
    void output_func(double const* q, bool const* flag, PVs &yb) override {
        at(q, "output_func");
        put('o', q, 0, {});
        Base::output_func(q, flag, yb);
        yb.push_back(adevs::PinValue<int>(pin, std::any_cast<int>(get_variable("count"))));
    }
};
static void setup(Src &s, fmi2_import_t &f, Core &m) {
    f.model = &m;
    f.file = s.coin() ? "/models/m.fmu" : "m.fmu";
    f.kind = s.coin() ? fmi2_fmu_kind_me : fmi2_fmu_kind_me_and_cs;
    the_fmu() = &f;
}
static void constructed(fmi2_import_t &f, Drv &d, double tol) {
    LEGAL(f);
    CHECK(f.contexts == 0 && f.dirs == 0 && f.lists == 0, "the constructor leaves " << f.contexts << " contexts, " << f.dirs << " directories, " << f.lists << " lists of variables");
    CHECK(f.mode == fmu_instantiated && f.setup, "the FMU is not ready to be initialized");
    CHECK(f.tolerance == tol && f.start_time == 0, "the FMU is told of the tolerance " << f.tolerance << " and start time " << f.start_time);
    CHECK(d.numVars() == f.model->n + 1 && d.numEvents() == f.model->z, "there are " << d.numVars() << " variables and " << d.numEvents() << " event functions");
    CHECK(d.get_jacobian(nullptr, nullptr) == f.model->dirder, "support of the Jacobian is not that of the FMU");
    CHECK(d.get_time() == 0, "the time at the start is " << d.get_time());
    LEGAL(f);
}
static void destroyed(fmi2_import_t &f) {
    LEGAL(f);
    CHECK(f.mode == fmu_gone, "the FMU was not released");
}
static void variables(Ctx &, Core &m, Drv &d, fmi2_import_t &f) {
    Vec dx(m.n + 1);
    m.der(f.t, f.x.data(), dx.data());
    for (int i = 0; i < m.n; i++) {
        CHECK(std::any_cast<double>(d.get_variable(sname(i))) == f.x[i], "get_variable of state " << i);
        double v = std::any_cast<double>(d.get_variable("der(" + sname(i) + ")"));
        CHECK(v == dx[i] , "get_variable of derivative " << i);
    }
    CHECK(std::any_cast<double>(d.get_variable("time")) == f.t, "get_variable of time");
    CHECK(std::any_cast<double>(d.get_variable("u")) == m.u && std::any_cast<double>(d.get_variable("alias of u")) == m.u, "get_variable of u");
    CHECK(std::any_cast<double>(d.get_variable("reset_to")) == m.reset_to, "get_variable of reset_to");
    CHECK(std::any_cast<double>(d.get_variable("other")) == m.other_real, "get_variable of other");
    CHECK(std::any_cast<int>(d.get_variable("sel")) == m.sel, "get_variable of sel");
    CHECK(std::any_cast<int>(d.get_variable("count")) == m.count, "get_variable of count");
    CHECK(std::any_cast<int>(d.get_variable("other.i")) == m.other_int, "get_variable of other.i");
    CHECK(std::any_cast<int>(d.get_variable("reset")) == m.reset, "get_variable of reset");
    CHECK(std::any_cast<int>(d.get_variable("other.b")) == m.other_bool, "get_variable of other.b");
}
static void describe(Ctx &ctx, Core const &m) {
    NOTE(ctx, "FMU with " << m.n << " states, " << m.z << " indicators, timed event at " << m.next << " period " << m.period << ", a step event every " << m.step_mod
                          << " steps, up to " << m.max_iter << " iterations" << (m.junk ? " with changes" : "") << (m.lazy ? ", lazy" : "")
                          << (m.dirder ? ", with directional derivatives" : ""));
}

// any legal history of calls, each judged at once
static void calls(Src &s, Ctx &ctx) {
    Core m, ref;
    fill(s, m);
    ref = m;
    describe(ctx, m);
    fmi2_import_t f;
    setup(s, f, m);
    double tol = s.of<double>({1e-6, 1e-3, 0.5});
    int n = m.n, ops = (int)s.range(1, 40), events = 0, evals = 0, jacs = 0, done = 0;
    {
        Drv d(f, m, tol);
        constructed(f, d, tol);
        Vec q(n + 1), rq(n + 1);
        d.init(q.data());
        ref.start(rq.data());
        double next = ref.settle(0, rq.data());
        LEGAL(f);
        CHECK(q == rq, "init gives " << show(q.data(), n + 1) << ", not " << show(rq.data(), n + 1));
        CHECK(f.mode == fmu_continuous, "after init the FMU is not in continuous time mode");
        bool cont = true;
        for (int k = 0; k < ops; k++) {
            // somewhere else, as in a trial
            Vec p(q);
            for (int i = 0; i < n; i++) p[i] += s.real(-1, 1);
            p[n] += s.coin() ? s.real(0, 1) : 0;
            Vec const p0(p);
            long updates = f.updates, completed = f.completed;
            int op = s.weighted({4, 3, 2, 2, 2, 4, 3, 2, 2, 2});
            if (!cont && (op == 4 || op == 5)) op = 0;
            switch (op) {
                case 0: {
                    NOTE(ctx, "der_func at " << show(p.data(), n + 1));
                    Vec dq(n + 1);
                    d.der_func(p.data(), dq.data());
                    cont = true;
                    evals++;
                    break;
                }
                case 1: {
                    NOTE(ctx, "state_event_func at " << show(p.data(), n + 1));
                    Vec z(m.z + 1);
                    d.state_event_func(p.data(), z.data());
                    if (m.z) cont = true;
                    evals++;
                    break;
                }
                case 2: {
                    NOTE(ctx, "get_jacobian at " << show(p.data(), n + 1));
                    Vec J((n + 1) * (n + 1), 99);
                    bool r = d.get_jacobian(p.data(), J.data());
                    CHECK(r == m.dirder, "get_jacobian returns " << r);
                    if (!r) break;
                    cont = true;
                    jacs++;
                    for (int c = 0; c <= n; c++)
                        for (int row = 0; row <= n; row++) {
                            double v = row < n && c < n ? m.partial(row, c) : 0;
                            CHECK(J[c * (n + 1) + row] == v, "the Jacobian has " << J[c * (n + 1) + row] << " in row " << row << " column " << c << ", not " << v);
                        }
                    break;
                }
                case 3: {
                    Vec z(s.coin() ? q : p);
                    z[n] = std::min(z[n], std::max(q[n], next));
                    double r = d.time_event_func(z.data());
                    NOTE(ctx, "time_event_func is " << r);
                    CHECK(next == inf ? r == inf : fabs(r - std::max(0.0, next - z[n])) <= 1e-15, "time_event_func is " << r << " at " << z[n] << ", the next event is at " << next);
                    CHECK(r >= 0, "time_event_func is " << r);
                    break;
                }
                case 4:
                    NOTE(ctx, "postTrialStep at " << show(p.data(), n + 1));
                    d.postTrialStep(p.data());
                    d.at(p.data(), "after postTrialStep");
                    break;
                case 5: {  // the step is accepted
                    if (!(p[n] > q[n])) p[n] = q[n] + 0.125;
                    p[n] = std::min(p[n], next);
                    if (!(p[n] > q[n])) break;
                    Vec want(p);
                    NOTE(ctx, "postStep at " << show(p.data(), n + 1));
                    d.postStep(p.data());
                    d.at(p.data(), "after postStep");
                    CHECK(p == want, "postStep changes the state");
                    CHECK(f.completed == completed + 1, "postStep completes " << f.completed - completed << " steps");
                    q = p;
                    if (ref.completed(q[n], q.data())) next = q[n];
                    CHECK(d.get_time() == q[n], "get_time is " << d.get_time() << " after a step to " << q[n]);
                    done++;
                    variables(ctx, m, d, f);
                    break;
                }
                case 6: case 7: case 8: {
                    // the state accepted is the state of the FMU
                    if (cont) d.postTrialStep(q.data());
                    Vec r(q);
                    bool flag[400] = {};
                    PVs xb;
                    int v = op == 6 ? 0 : (int)s.below(60);
                    if (op != 6) xb.push_back(adevs::PinValue<int>(d.pin, v));
                    NOTE(ctx, (op == 6 ? "internal_event" : op == 7 ? "external_event " : "confluent_event ") << v);
                    if (op == 6) d.internal_event(q.data(), flag);
                    if (op == 7) d.external_event(q.data(), 0.5, xb);
                    if (op == 8) d.confluent_event(q.data(), flag, xb);
                    cont = f.mode == fmu_continuous;
                    next = ref.settle(r[n], r.data());
                    if (op != 6) {
                        struct S : Setter {
                            Core &m;
                            double* x;
                            S(Core &m, double* x) : m(m), x(x) {}
                            void set_u(double y) override { m.u = y; }
                            void set_sel(int v) override { m.sel = v; }
                            void set_reset(int v) override { m.reset = v; }
                            void set_x(int i, double y) override { x[i] = y; }
                        } st(ref, r.data());
                        st.apply(n, v);
                        next = ref.settle(r[n], r.data());
                    }
                    CHECK(q == r, "the event leaves " << show(q.data(), n + 1) << ", not " << show(r.data(), n + 1));
                    CHECK(f.updates > updates && f.stable, "the discrete states are not stable after an event");
                    CHECK(d.get_time() == q[n], "get_time is " << d.get_time() << " after an event at " << q[n]);
                    CHECK(m.count == ref.count, "the FMU counts " << m.count << " events, not " << ref.count);
                    variables(ctx, m, d, f);
                    events++;
                    break;
                }
                default: {
                    int v = (int)s.below(2);
                    if (f.mode != fmu_event) break;
                    double y = s.real(-3, 3);
                    if (v) {
                        d.set_variable("other.i", (int)(y * 10));
                        d.set_variable("other.b", m.other_bool ? 0 : 1);
                        CHECK(m.other_int == (int)(y * 10), "set_variable of other.i");
                    } else {
                        d.set_variable("reset_to", y);
                        d.set_variable("other", -y);
                        ref.reset_to = y;
                        CHECK(m.reset_to == y && m.other_real == -y, "set_variable of reset_to and other");
                    }
                    variables(ctx, m, d, f);
                }
            }
            LEGAL(f);
            CHECK(d.wrong.empty(), d.wrong);
            CHECK(p == p0 || op == 5, "a call changes the state it was asked about");
            CHECK(op == 5 || f.completed == completed, "a step is completed by another call than postStep");
            CHECK((op >= 6 && op <= 8) || f.updates == updates, "discrete states are updated outside of an event");
        }
    }
    destroyed(f);
    ctx.nontrivial(events && evals);
    ctx.label("calls");
    if (jacs && n >= 2) ctx.label("Jacobian of several states");
    if (done && m.n_step) ctx.label("step event");
}

struct Obs : adevs::Atomic<int> {
    std::vector<int> got;
    double ta() override { return inf; }
    void delta_int() override {}
    void delta_ext(double, PVs const &xb) override {
        for (auto const &x : xb) got.push_back(x.value);
    }
    void delta_conf(PVs const &xb) override { delta_ext(0, xb); }
    void output_func(PVs &) override {}
};
struct Side {
    std::shared_ptr<adevs::Hybrid<int>> h;
    std::shared_ptr<Obs> obs = std::make_shared<Obs>();
    std::shared_ptr<adevs::Graph<int>> g = std::make_shared<adevs::Graph<int>>();
    std::unique_ptr<adevs::Simulator<int>> sim;
    adevs::pin_t in;
    void make(adevs::ode_system<int>* y, adevs::pin_t out, int sol, int loc, double stol, double hmax, double tol) {
        if (loc == 5 && sol == 0)
            h = std::make_shared<adevs::ExplicitHybrid<int>>(y, tol, hmax);
        else if (loc == 5 && sol == 2)
            h = std::make_shared<adevs::ImplicitHybrid<int>>(y, tol, hmax);
        else {
            adevs::ode_solver<int>* so = sol == 0 ? (adevs::ode_solver<int>*)new adevs::rk_45<int>(y, stol, hmax)
                                       : sol == 1 ? (adevs::ode_solver<int>*)new adevs::corrected_euler<int>(y, stol, hmax)
                                                  : (adevs::ode_solver<int>*)new adevs::trap<int>(y, stol, hmax, true);
            adevs::event_locator<int>* lo = nullptr;
            switch (loc) {
                case 0: lo = new adevs::bisection_event_locator<int>(y, tol); break;
                case 1: lo = new adevs::linear_event_locator<int>(y, tol); break;
                case 2: lo = new adevs::fast_event_locator<int>(y, tol, false); break;
                case 3: lo = new adevs::fast_event_locator<int>(y, tol, true); break;
                case 4: lo = new adevs::null_event_locator<int>(); break;
                default: lo = new adevs::discontinuous_event_locator<int>(y, tol);
            }
            h = std::make_shared<adevs::Hybrid<int>>(y, so, lo);
        }
        g->add_atomic(h);
        g->add_atomic(obs);
        g->connect(out, obs);
        g->connect(in, h);
        sim.reset(new adevs::Simulator<int>(g));
    }
};
// a hybrid model of the FMU, beside one of the equations
static void hybrid(Src &s, Ctx &ctx) {
    Core m;
    fill(s, m);
    describe(ctx, m);
    Core ref(m);
    fmi2_import_t f;
    setup(s, f, m);
    int sol = s.weighted({4, 3, 2}), loc = (int)s.below(6);
    if (loc == 4) m.z = ref.z = std::min(m.z, 0), m.ev.clear(), ref.ev.clear();
    double tol = s.of<double>({1e-3, 1e-4, 1e-6}), stol = s.of<double>({1e3, 1e-2, 1e-4}), hmax = s.of<double>({0.5, 0.1, 0.25, 0.3, 0.02, 0.07});
    if (sol == 2) stol = std::max(stol, 1e-4), tol = std::max(tol, 1e-4);
    NOTE(ctx, (sol == 0 ? "rk_45" : sol == 1 ? "corrected_euler" : "trap") << " locator " << loc << " tolerance " << tol << " solver tolerance " << stol << " steps to " << hmax);
    int ext = 0, conf = 0, at_once = 0, cycles = 0;
    {
        Side a, b;
        Native* nat = new Native(ref);
        try {
            a.make(nat, nat->pin, sol, loc, stol, hmax, tol);
        } catch (adevs::exception &) {
            throw pbt::Discard();
        }
        Drv* d = new Drv(f, m, tol);
        constructed(f, *d, tol);
        b.make(d, d->pin, sol, loc, stol, hmax, tol);
        int N = m.n;
        double now = 0;
        cycles = (int)s.range(1, 50);
        for (int c = 0; c < cycles; c++) {
            LEGAL(f);
            CHECK(d->wrong.empty(), d->wrong);
            double nx = a.sim->nextEventTime();
            CHECK(b.sim->nextEventTime() == nx, "the FMU changes at " << b.sim->nextEventTime() << ", the equations at " << std::setprecision(17) << nx);
            CHECK(nat->log.size() == d->log.size(), "the FMU saw " << d->log.size() << " calls, the equations " << nat->log.size());
            for (size_t i = 0; i < nat->log.size(); i++)
                CHECK(nat->log[i] == d->log[i], "the FMU sees " << show(d->log[i]) << ", the equations " << show(nat->log[i]));
            for (int i = 0; i <= N; i++)
                CHECK(a.h->getState(i) == b.h->getState(i) || a.h->getState(i) != a.h->getState(i), "state " << i << " is " << std::setprecision(17) << b.h->getState(i) << " with the FMU, " << a.h->getState(i) << " with the equations");
            CHECK(a.obs->got == b.obs->got, "the outputs differ");
            CHECK(a.h->eventHappened() == b.h->eventHappened(), "eventHappened differs");
            CHECK(f.completed == nat->m.steps, "the FMU completed " << f.completed << " steps, there were " << nat->m.steps);
            CHECK(d->get_time() == nat->t_now, "get_time is " << d->get_time() << ", not " << nat->t_now);
            // the variables are those of the current state
            d->at(b.h->getState(), "the variables are read after an event");
            CHECK(d->wrong.empty(), d->wrong);
            variables(ctx, m, *d, f);
            bool finite = true;
            for (int i = 0; i <= N; i++) finite = finite && fabs(a.h->getState(i)) < 1e9;
            if (!finite || nx == inf) break;
            std::vector<int> in;
            int w = s.weighted({6, 3, 2, 1, 2});
            double t = nx;
            if (w) {
                in.push_back((int)s.below(100));
                if (s.chance(1, 4)) in.push_back((int)s.below(100));
                switch (w) {
                    case 1: t = now + (nx - now) * s.real(0, 1); break;
                    case 2: break;
                    case 3: t = now; break;
                    default: t = nx - s.of<double>({1e-16, 1e-12, 1e-9, 1e-6, 1e-3}); break;
                }
                if (!(t >= now)) t = now;
            }
            NOTE(ctx, "cycle at " << std::setprecision(17) << (w && t < nx ? t : nx) << (w ? " with input" : ""));
            for (int v : in) NOTE(ctx, "   input " << v);
            double done[2];
            Side* sd[2] = {&a, &b};
            for (int k = 0; k < 2; k++) {
                Side &y = *sd[k];
                if (w) {
                    if (t < nx) y.sim->setNextTime(t);
                    for (int v : in) {
                        adevs::PinValue<int> x(y.in, v);
                        y.sim->injectInput(x);
                    }
                }
                y.sim->computeNextOutput();
                done[k] = y.sim->computeNextState();
            }
            CHECK(done[0] == done[1], "the cycle ends at different times");
            now = done[0];
            NOTE(ctx, "   state " << show(b.h->getState(), N + 1));
            if (w) (t < nx ? ext : conf)++;
        }
        LEGAL(f);
        CHECK(d->wrong.empty(), d->wrong);
        CHECK(nat->log.size() == d->log.size(), "the FMU saw " << d->log.size() << " calls, the equations " << nat->log.size());
    }
    destroyed(f);
    ctx.label(sol == 0 ? "rk_45" : sol == 1 ? "corrected_euler" : "trap");
    if (m.n_timed) ctx.label("time event");
    if (m.n_state) ctx.label("state event");
    if (m.n_step) ctx.label("step event");
    if (m.n >= 12 && m.z >= 20) ctx.label("many variables and functions");
    if (m.n_iter) ctx.label("event iteration");
    if (m.n_cancelled) ctx.label("time event cancelled");
    if (ext) ctx.label("input between events");
    if (conf) ctx.label("input at an event");
    ctx.nontrivial(m.count >= 2);
}
// what cannot be used is rejected; what is not used is released
static void lifecycle(Src &s, Ctx &ctx) {
    Core m;
    fill(s, m);
    fmi2_import_t f;
    setup(s, f, m);
    int k = (int)s.below(5);
    if (k == 1) f.version = s.of<fmi_version_enu_t>({fmi_version_1_enu, fmi_version_3_0_enu, fmi_version_unknown_enu});
    if (k == 2) f.parses = false;
    if (k == 3) f.kind = fmi2_fmu_kind_cs;
    if (k >= 1 && k <= 3) {
        bool thrown = false;
        try {
            Drv d(f, m, 1e-3);
        } catch (adevs::exception &) {
            thrown = true;
        }
        CHECK(thrown, "an FMU that is not supported is accepted");
        LEGAL(f);
        ctx.label("rejected");
    } else {
        {
            Drv d(f, m, 1e-3);
            constructed(f, d, 1e-3);
            if (k == 4) {
                Vec q(m.n + 1);
                d.init(q.data());
            }
        }
        destroyed(f);
        ctx.label("released without a step");
    }
    ctx.nontrivial();
}
static void prop(Src &s, Ctx &ctx) {
    switch (s.weighted({6, 4, 1})) {
        case 0: hybrid(s, ctx); break;
        case 1: calls(s, ctx); break;
        default: lifecycle(s, ctx);
    }
}
PBT_MAIN(prop)
