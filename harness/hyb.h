// Piecewise linear hybrid systems with known solutions, and a monitor that judges every
// call a Hybrid model makes to them against the exact solution from the last event on.
#ifndef HYB_H
#define HYB_H
#include <cassert>
#include <cfloat>
#include <cmath>
#include <iomanip>
#include <list>
#include "adevs/adevs.h"
#include "adevs/solvers/corrected_euler.h"
#include "adevs/solvers/rk_45.h"
#include "adevs/solvers/trap.h"
#include "ode.h"
using pbt::Ctx;
using pbt::Src;
#ifndef EPSILON_IS_SET
#define EPSILON_IS_SET
double adevs::double_fcmp::epsilon = 1e-9;
#endif
typedef std::list<adevs::PinValue<int>> PVs;
enum { BISECT, LINEAR, DISC, FAST, FASTI, NONE };
static char const* loc_name[] = {"bisection_event_locator", "linear_event_locator", "discontinuous_event_locator",
                                 "fast_event_locator",      "fast_event_locator, interpolating", "null_event_locator"};
enum { RK, CE, TRAP };
static char const* sol_name[] = {"rk_45", "corrected_euler", "trap"};

struct Var {
    int kind;  // 0 constant rate, 1 accelerated (the next variable is its velocity), 2 relaxes to a target
    int at, at2;
    double r, g, k, target;
    bool turns = false;  // an accelerated variable that may turn within a step, which can hide two crossings
};
struct Fn {  // an event function: s * shape(y - level), or s alone if it is not armed
    int var;
    bool jump, armed;
    double s, level;
    int action, at_zero;
};
struct Call {
    char kind;  // 'o' 'i' 'e' 'c'
    Vec q;
    std::vector<char> flags;
    double e = 0;
    std::vector<int> in, out;
};
struct HybSys : adevs::ode_system<int> {
    Src* s = nullptr;
    adevs::pin_t pin;
    std::vector<Var> vars;
    std::vector<Fn> fns;
    Vec q_init;
    int n = 0, X = 0, ALG = -1;
    double next_time = adevs_inf<double>(), period = 0;
    double remaining = adevs_inf<double>();  // what time_event_func returned last
    std::vector<Call> log;
    std::vector<std::vector<int>> produced;
    int serial = 0;
    long evals = 0, limit = 3000000;
    Vec after;        // the state a handler left
    bool alg_ok = true;
    bool jac = false;
    int zero_left = 0;
    long post = 0, post_trial = 0;
    std::function<void()> hook;

    void begin() {
        set_num_state_variables(n);
        set_num_event_functions((int)fns.size());
    }
    void tick() {
        if (++evals > limit) {
            fprintf(stderr, "Assertion: the simulation does not advance, %ld evaluations were made\n", limit);
            abort();
        }
        if (hook) hook();
    }
    void init(double* q) override {
        for (int i = 0; i < n; i++) q[i] = q_init[i];
        postStep(q);
        post = 0;
    }
    void der_func(double const* q, double* dq) override {
        tick();
        for (int i = 0; i < n; i++) dq[i] = 0;
        dq[X] = 1;
        for (auto const &v : vars) switch (v.kind) {
                case 0: dq[v.at] = v.r; break;
                case 1:
                    dq[v.at] = q[v.at2];
                    dq[v.at2] = v.g;
                    break;
                default: dq[v.at] = -v.k * (q[v.at] - v.target);
            }
    }
    bool get_jacobian(double const* q, double* J) override {
        if (!jac) return adevs::ode_system<int>::get_jacobian(q, J);
        if (!J) return true;
        for (int i = 0; i < n * n; i++) J[i] = 0;
        for (auto const &v : vars) {
            if (v.kind == 1) J[v.at2 * n + v.at] = 1;
            if (v.kind == 2) J[v.at * n + v.at] = -v.k;
        }
        return true;
    }
    // the exact solution, without the algebraic variable
    void flow(double const* q, L t, L* r) const {
        for (int i = 0; i < n; i++) r[i] = q[i];
        r[X] = (L)q[X] + t;
        for (auto const &v : vars) switch (v.kind) {
                case 0: r[v.at] = q[v.at] + (L)v.r * t; break;
                case 1:
                    r[v.at] = q[v.at] + (L)q[v.at2] * t + (L)v.g * t * t / 2;
                    r[v.at2] = q[v.at2] + (L)v.g * t;
                    break;
                default: r[v.at] = v.target + ((L)q[v.at] - v.target) * expl(-(L)v.k * t);
            }
    }
    double rate(Var const &v, double const* q) const {
        return v.kind == 0 ? v.r : v.kind == 1 ? q[v.at2] : -v.k * (q[v.at] - v.target);
    }
    static double alg(double const* q, int n, int ALG) {
        double a = 0.5;
        for (int i = 0; i < n; i++)
            if (i != ALG) a += q[i] * (i + 1);
        return a;
    }
    void postStep(double* q) override {
        post++;
        if (ALG >= 0) q[ALG] = alg(q, n, ALG);
    }
    void postTrialStep(double*) override { post_trial++; }
    double z(int i, double const* q) const {
        Fn const &f = fns[i];
        if (!f.armed) return f.s;
        double u = q[vars[f.var].at] - f.level;
        if (!f.jump) return f.s * u;
        return f.s * (u < 0 ? -1 : u > 0 ? 1 : f.at_zero);
    }
    void state_event_func(double const* q, double* r) override {
        tick();
        for (size_t i = 0; i < fns.size(); i++) r[i] = z((int)i, q);
    }
    double time_event_func(double const* q) override {
        tick();
        remaining = next_time == adevs_inf<double>() ? next_time : std::max(0.0, next_time - q[X]);
        return remaining;
    }
    // the time from state q until function i changes sign
    L crossing(int i, double const* q) const {
        Fn const &f = fns[i];
        if (!f.armed) return 1e300L;
        Var const &v = vars[f.var];
        L d = (L)f.level - q[v.at];
        if (d == 0) {  // on the level, and about to leave it
            double dir = rate(v, q);
            if (v.kind == 1 && (!v.turns || dir == 0)) dir += v.g;
            if (v.turns && f.jump && f.at_zero * dir > 0) return dir * v.g < 0 ? -2 * q[v.at2] / (L)v.g : 1e300L;  // when it returns
            return f.jump && f.at_zero * dir > 0 ? 1e300L : 0;
        }
        if (v.kind == 0) return d * v.r > 0 ? d / v.r : 1e300L;
        if (v.kind == 1) {  // y v, g have the same sign
            L v0 = q[v.at2], g = v.g;
            if (v.turns) {
                L D = v0 * v0 + 2 * g * d;
                if (D < 0) return 1e300L;
                L w = v0 + (v0 < 0 ? -1 : 1) * sqrtl(D), a = -w / g, b = w != 0 ? 2 * d / w : 1e300L;
                return std::min(a > 0 ? a : 1e300L, b > 0 ? b : 1e300L);
            }
            if (d * (v0 + g) <= 0) return 1e300L;
            return g == 0 ? d / v0 : 2 * d / (v0 + (d > 0 ? 1 : -1) * sqrtl(v0 * v0 + 2 * g * d));
        }
        L a = (L)q[v.at] - v.target, b = (L)f.level - v.target;
        if (a * b <= 0 || fabsl(b) >= fabsl(a)) return 1e300L;
        return logl(a / b) / v.k;
    }
    // sets a level that the variable comes to
    void level(Fn &f, double const* q) {
        Var const &v = vars[f.var];
        double y = q[v.at], gap = s->of<double>({0.1, 0.25, 0.5, 1, 2}) * (s->coin() ? 1.0 : s->real(0.5, 1));
        double dir = rate(v, q) + (v.kind == 1 ? v.g : 0) >= 0 ? 1 : -1;
        if (v.kind == 2)
            f.level = y + (v.target - y) * s->real(0.1, 0.8);
        else if (v.turns && q[v.at2] * v.g < 0)
            f.level = y - (v.g > 0 ? 1 : -1) * q[v.at2] * q[v.at2] / (2 * fabs(v.g)) * s->real(0.1, 1);
        else
            f.level = y + dir * gap;
        f.armed = fabs(f.level - y) > 1e-4;
    }
    // all functions of a variable that has jumped or turned
    void relevel(int var, double const* q) {
        for (auto &f : fns)
            if (f.var == var && f.armed) level(f, q);
    }
    void jump(Var &v, double* q) {
        q[v.at] = s->real(-2, 2);
        if (v.kind == 0 && s->coin()) v.r = -v.r;
        if (v.kind == 1) q[v.at2] = v.g * s->real(0, 0.5) * (v.turns && s->chance(2, 3) ? -1 : 1);
        if (v.kind == 2) v.target = q[v.at] + s->of<double>({2, -2, 1, -3});
    }
    void on_event(double* q, bool const* flag) {
        int N = (int)fns.size();
        bool timed = flag[N];
        for (int i = 0; i < N; i++) {
            if (!flag[i] || !fns[i].armed) continue;
            Fn &f = fns[i];
            switch (f.action) {
                case 0: level(f, q); break;  // the next level
                case 1:                      // the variable starts again
                    jump(vars[f.var], q);
                    relevel(f.var, q);
                    break;
                case 2:  // only now
                    f.armed = false;
                    f.s = z(i, q) * (f.s > 0 ? 1 : 1);
                    if (f.s == 0) f.s = 1;
                    break;
                default:  // a time event follows
                    level(f, q);
                    next_time = q[X] + s->of<double>({0.1, 0.5, 0, 0.01, 1e-6});
            }
        }
        if (timed) {
            if (s->chance(1, 6) && zero_left > 0) {
                next_time = q[X];
                zero_left--;
            } else if (period > 0)
                next_time = q[X] + period;
            else
                next_time = adevs_inf<double>();
        } else if (next_time < q[X])
            next_time = q[X];
        for (size_t i = 0; i < fns.size(); i++)  // what another action brought to its level
            if (fns[i].armed && fabs(q[vars[fns[i].var].at] - fns[i].level) < 1e-300) level(fns[i], q);
    }
    void on_input(double* q, std::vector<int> const &in) {
        for (int v : in) switch (v % 5) {
                case 1: {  // a variable jumps
                    int j = (int)s->below(vars.size());
                    jump(vars[j], q);
                    relevel(j, q);
                    break;
                }
                case 2: next_time = q[X] + s->of<double>({0.2, 0.5, 0, 1e-3, 1}); break;
                case 3: {  // a new rate
                    int j = (int)s->below(vars.size());
                    if (vars[j].kind == 0) vars[j].r = s->of<double>({0.5, 1, 2}) * (vars[j].r < 0 ? -1 : 1);
                    break;
                }
                default: break;  // nothing
            }
    }
    Call call(char kind, double const* q, bool const* flag) {
        Call c;
        c.kind = kind;
        c.q.assign(q, q + n);
        if (flag)
            for (size_t i = 0; i <= fns.size(); i++) c.flags.push_back(flag[i] ? 1 : 0);
        if (ALG >= 0 && q[ALG] != alg(q, n, ALG)) alg_ok = false;
        return c;
    }
    static std::vector<int> values(PVs const &xb) {
        std::vector<int> v;
        for (auto const &x : xb) v.push_back(x.value);
        return v;
    }
    void internal_event(double* q, bool const* flag) override {
        tick();
        log.push_back(call('i', q, flag));
        on_event(q, flag);
        after.assign(q, q + n);
    }
    void external_event(double* q, double e, PVs const &xb) override {
        tick();
        Call c = call('e', q, nullptr);
        c.e = e;
        c.in = values(xb);
        log.push_back(c);
        on_input(q, c.in);
        after.assign(q, q + n);
    }
    void confluent_event(double* q, bool const* flag, PVs const &xb) override {
        tick();
        Call c = call('c', q, flag);
        c.in = values(xb);
        log.push_back(c);
        on_event(q, flag);
        on_input(q, c.in);
        after.assign(q, q + n);
    }
    void output_func(double const* q, bool const* flag, PVs &yb) override {
        tick();
        Call c = call('o', q, flag);
        c.out.push_back(++serial);
        yb.push_back(adevs::PinValue<int>(pin, serial));
        log.push_back(c);
    }
};
inline void fill(Src &s, HybSys &y, bool relax, bool state_events, bool jumps, bool turn) {
    y.s = &s;
    int m = (int)s.size(1, 3, 20);
    std::vector<int> kinds;
    int n = 1;
    for (int i = 0; i < m; i++) {
        int k = s.weighted({4, 2, relax ? 2 : 0});
        kinds.push_back(k);
        n += k == 1 ? 2 : 1;
    }
    bool alg = s.coin();
    if (alg) n++;
    auto p = s.perm(n);
    int at = 0;
    y.n = n;
    y.X = p[at++];
    if (alg) y.ALG = p[at++];
    y.q_init.assign(n, 0);
    for (int k : kinds) {
        Var v;
        v.kind = k;
        v.at = p[at++];
        v.at2 = k == 1 ? p[at++] : -1;
        v.r = s.of<double>({1, 2, 0.5, 0.3}) * (s.coin() ? 1 : -1);
        v.g = s.of<double>({1, 2, 9.8}) * (s.coin() ? -1 : 1);
        v.k = s.of<double>({1, 2, 0.5});
        y.q_init[v.at] = s.real(-1, 1);
        v.target = y.q_init[v.at] + s.of<double>({2, -2, 1, -3});
        v.turns = turn && k == 1 && s.coin();
        if (k == 1) y.q_init[v.at2] = v.g * s.real(0, 0.5) * (v.turns ? -1 : 1);
        y.vars.push_back(v);
    }
    int ne = state_events ? (int)s.size(s.chance(1, 8) ? 0 : 1, 4, 80, 320) : 0;
    for (int i = 0; i < ne; i++) {
        Fn f;
        f.var = (int)s.below(m);
        f.jump = jumps && s.coin();
        f.s = s.of<double>({1, -1, 2, -0.5});
        f.action = s.weighted({3, 3, 1, 2});
        f.at_zero = (int)s.range(-1, 1);
        y.fns.push_back(f);
        y.level(y.fns.back(), y.q_init.data());
        if (i > 0 && s.chance(1, 4) && y.fns[i - 1].armed) {  // with the one before
            y.fns[i].var = y.fns[i - 1].var;
            y.fns[i].level = y.fns[i - 1].level;
            y.fns[i].armed = true;
        }
    }
    y.zero_left = 3;
    switch (s.weighted({3, 4, 1})) {
        case 0: break;
        case 1:
            y.period = s.of<double>({0.5, 0.1, 0.3, 1, 0.05});
            y.next_time = y.period;
            break;
        default: y.next_time = s.of<double>({0.7, 0, 0.1});
    }
    y.begin();
}
// what the system sends arrives here
// the type of the simulator's time
#ifndef HT
#define HT double
#endif
struct Sink : adevs::Atomic<int, HT> {
    std::vector<int> got;
    HT ta() override { return adevs_inf<HT>(); }
    void delta_int() override {}
    void delta_ext(HT, PVs const &xb) override {
        for (auto const &x : xb) got.push_back(x.value);
    }
    void delta_conf(PVs const &xb) override { delta_ext(0, xb); }
    void output_func(PVs &) override {}
};
inline std::string show(Call const &c) {
    std::ostringstream o;
    o << (c.kind == 'o' ? "output_func" : c.kind == 'i' ? "internal_event" : c.kind == 'e' ? "external_event" : "confluent_event") << "(q = " << show(c.q);
    if (!c.flags.empty()) {
        o << "; flags";
        for (char f : c.flags) o << (f ? " 1" : " 0");
    }
    if (c.kind == 'e') o << "; e = " << c.e;
    if (!c.in.empty()) {
        o << "; input";
        for (int v : c.in) o << " " << v;
    }
    o << ")";
    return o.str();
}

template <class H>
std::shared_ptr<H> make_preset(bool explicit_, HybSys* sys, double tol, double hmax) {
    if constexpr (std::is_same<HT, double>::value) {
        if (explicit_) return std::make_shared<adevs::ExplicitHybrid<int>>(sys, tol, hmax);
        return std::make_shared<adevs::ImplicitHybrid<int>>(sys, tol, hmax);
    } else
        return nullptr;  // these exist for double only
}
struct HybRun {
    Ctx &ctx;
    HybSys* sys;
    typedef adevs::Hybrid<int, HT> Hyb;
    Hyb* hyb = nullptr;
    std::shared_ptr<Hyb> model;
    std::shared_ptr<Sink> sink = std::make_shared<Sink>();
    std::shared_ptr<adevs::Graph<int, HT>> g = std::make_shared<adevs::Graph<int, HT>>();
    std::unique_ptr<adevs::Simulator<int, HT>> sim;
    adevs::pin_t in_pin;
    int solver, locator;
    double tol, hmax, stol, eps;  // eps: accuracy of the solution
    // the monitor
    L t0 = 0;       // of the last event
    HT now = 0;
    Vec q0;         // the state it left
    std::vector<int> pending;
    int internals = 0, externals = 0, confluents = 0, steps = 0, discovered = 0, timed = 0, both = 0, several = 0, at_once = 0, pending_input = 0, stuck = 0, looks = 0;

    HybRun(Src &s, Ctx &c, bool inputs) : ctx(c) {
        solver = s.weighted({4, 4, 2});
        locator = s.weighted({3, 3, 3, 4, 3, 1});
        bool preset = s.chance(1, 6) && std::is_same<HT, double>::value;
        if (preset) locator = DISC;
        if (preset && solver == CE) solver = RK;
        bool relax = s.chance(1, 4);
        tol = s.of<double>({1e-3, 1e-4, 1e-6, 1e-8});
        hmax = s.of<double>({0.5, 0.1, 1, 0.02, 3}) * (s.chance(1, 3) ? s.real(0.3, 1) : 1.0);
        eps = 1e-10;
        stol = s.of<double>({1e3, 1e-2, 1e-5, 1e-8});
        if (relax) {
            hmax = std::min(hmax, 0.05);
            eps = solver == RK ? 1e-7 : 3e-3;
            if (locator == FASTI) eps = std::max(eps, 1e-5);
            stol = 1e3;
        }
        if (preset) {
            stol = tol;
            if (relax && solver == TRAP) tol = stol = std::max(tol, 1e-4);
        }
        if (solver == TRAP) {
            eps = std::max(eps, 1e-5);
            stol = std::max(stol, 1e-4);
            hmax = std::min(hmax, 0.5);
        }
        sys = new HybSys;
        sys->jac = s.coin();
        fill(s, *sys, relax, locator != NONE || s.coin(), locator >= DISC, inputs && s.chance(1, 3));
        adevs::ode_solver<int>* sol = nullptr;
        adevs::event_locator<int>* loc = nullptr;
        if (!preset) {
            sol = solver == RK ? (adevs::ode_solver<int>*)new adevs::rk_45<int>(sys, stol, hmax)
                  : solver == CE ? (adevs::ode_solver<int>*)new adevs::corrected_euler<int>(sys, stol, hmax)
                                 : (adevs::ode_solver<int>*)new adevs::trap<int>(sys, stol, hmax, true);
            switch (locator) {
                case BISECT: loc = new adevs::bisection_event_locator<int>(sys, tol); break;
                case LINEAR: loc = new adevs::linear_event_locator<int>(sys, tol); break;
                case DISC: loc = new adevs::discontinuous_event_locator<int>(sys, tol); break;
                case FAST: loc = new adevs::fast_event_locator<int>(sys, tol); break;
                case FASTI: loc = new adevs::fast_event_locator<int>(sys, tol, true); break;
                default: loc = new adevs::null_event_locator<int>();
            }
            model = std::make_shared<Hyb>(sys, sol, loc);
        } else
            model = make_preset<Hyb>(solver == RK, sys, tol, hmax);
        hyb = model.get();
        NOTE(ctx, (preset ? "preset " : "") << sol_name[solver] << " with tolerance " << stol << ", steps to " << hmax << ", " << loc_name[locator]
                                            << " with tolerance " << tol << ", x = q" << sys->X << ", next timed event at " << sys->next_time);
        for (auto const &v : sys->vars)
            NOTE(ctx, "  q" << v.at << (v.kind == 0 ? ": rate " : v.kind == 1 ? (v.turns ? ": turns, acceleration " : ": acceleration ") : ": relaxes to ")
                            << (v.kind == 0 ? v.r : v.kind == 1 ? v.g : v.target));
        for (size_t i = 0; i < sys->fns.size(); i++)
            NOTE(ctx, "  function " << i << (sys->fns[i].jump ? " jumps" : "") << ": q" << sys->vars[sys->fns[i].var].at << " at level "
                                    << sys->fns[i].level << " action " << sys->fns[i].action);
        g->add_atomic(model);
        g->add_atomic(sink);
        g->connect(sys->pin, sink);
        if (inputs) g->connect(in_pin, model);
        sim.reset(new adevs::Simulator<int, HT>(g));
        q0 = sys->q_init;
        double* q = q0.data();
        if (sys->ALG >= 0) q[sys->ALG] = HybSys::alg(q, sys->n, sys->ALG);
        for (int i = 0; i < sys->n; i++) CHECK(hyb->getState(i) == q0[i] && hyb->getState()[i] == q0[i], "the initial state is not that of init");
        CHECK(hyb->getSystem() == sys, "getSystem does not return the system");
        CHECK(!hyb->eventHappened(), "eventHappened before anything happened");
    }
    // how much later than its crossing function i may be noticed
    L late(int i, L c) const {
        if (locator >= DISC) return tol;
        std::vector<L> r(sys->n);
        sys->flow(q0.data(), c, r.data());
        Vec q(r.begin(), r.end());
        L v = fabsl(sys->rate(sys->vars[sys->fns[i].var], q.data()) * sys->fns[i].s);
        Var const &x = sys->vars[sys->fns[i].var];
        if (x.kind == 2) {  // slows down on the way
            L part = tol / std::max<L>(1e-9L, fabsl(sys->fns[i].s * ((L)sys->fns[i].level - x.target)));
            return part >= 1 ? 1e300L : -log1pl(-part) / x.k;
        }
        return tol / std::max<L>(v, 1e-3L);
    }
    L slack(int i) const {  // of a crossing, due to the accuracy of the solution
        Var const &v = sys->vars[sys->fns[i].var];
        L r = v.kind == 0 ? fabs(v.r) : v.kind == 1 ? std::max(0.05, fabs(v.g) * 0.1) : std::max(1e-6, v.k * fabs(sys->fns[i].level - v.target));
        return (v.kind == 1 ? std::max(eps, 1e-9) : eps) * 4 / r + 1e-9L;
    }
    struct Due {
        L first = 1e300L, last = 1e300L, timed = 1e300L;  // earliest crossing; when something must have happened
        std::vector<L> c;
    };
    Due due() const {
        Due d;
        for (size_t i = 0; i < sys->fns.size(); i++) {
            L c = locator == NONE ? 1e300L : sys->crossing((int)i, q0.data());  // that locator finds nothing
            d.c.push_back(c);
            if (c > 1e200L) continue;
            d.first = std::min(d.first, t0 + c - slack((int)i));
            if (!sys->vars[sys->fns[i].var].turns) d.last = std::min(d.last, t0 + c + late((int)i, c) * (1 + 1e-9L) + slack((int)i));
        }
        if (sys->next_time < adevs_inf<double>()) {
            d.timed = t0 + std::max<L>(0, (L)sys->next_time - q0[sys->X]);
            d.first = std::min(d.first, d.timed - 1e-9L);
            d.last = std::min(d.last, d.timed + 1e-9L);
        }
        return d;
    }
    void state_is(Vec const &q, L t, char const* what) {
        std::vector<L> r(sys->n);
        sys->flow(q0.data(), t - t0, r.data());
        CHECK(fabsl(q[sys->X] - t) <= 1e-8L, what << " at " << (double)t << " sees a state for time " << q[sys->X]);
        for (int i = 0; i < sys->n; i++) {
            if (i == sys->ALG) continue;
            L bound = i == sys->X ? 1e-9L : eps * (1 + fabsl(r[i])) * (1 + (t - t0));
            CHECK(fabsl(q[i] - r[i]) <= bound, what << " at " << (double)t << " sees q" << i << " = " << q[i] << ", the solution there is " << (double)r[i]);
        }
    }
    // Output is computed ahead of time, which changes nothing
    void look() {
        Vec q(hyb->getState(), hyb->getState() + sys->n), first;
        HT t = sim->nextEventTime();
        bool happened = hyb->eventHappened();
        for (int k = 0; k < 2; k++) {
            sys->log.clear();
            sink->got.clear();
            sim->computeNextOutput();
            NOTE(ctx, "output computed ahead for " << t);
            Vec seen;
            for (auto const &c : sys->log) {
                CHECK(c.kind == 'o', "an event is handled while output is computed ahead");
                CHECK(seen.empty(), "output_func is called twice for one event");
                seen = c.q;
            }
            if (k == 0) first = seen;
            CHECK(first == seen, "output computed again sees another state");
            CHECK(Vec(hyb->getState(), hyb->getState() + sys->n) == q, "computing output ahead changes the state");
            CHECK(hyb->eventHappened() == happened, "computing output ahead changes eventHappened");
            CHECK(sim->nextEventTime() == t, "computing output ahead changes the time of the next event");
            CHECK(sink->got.empty(), "output computed ahead is delivered");
        }
        looks++;
    }
    // Executes the cycle at the next event time, with the input given to it
    void cycle(std::vector<int> const &in) {
        HT t = sim->nextEventTime();
        sys->log.clear();
        sys->after.clear();
        sink->got.clear();
        sys->alg_ok = true;
        Due d = due();  // before the handlers change it
        std::vector<Fn> fns = sys->fns;
        std::vector<double> z0;
        for (size_t i = 0; i < fns.size(); i++) z0.push_back(sys->z((int)i, q0.data()));
        NOTE(ctx, "cycle at " << std::setprecision(17) << t << (in.empty() ? "" : " with input"));
        std::vector<Var> vars_before = sys->vars;
        double next_before = sys->next_time, remains = sys->remaining;
        HT asked = now;
        HT r;
        // the functions are judged as they were
        std::vector<std::vector<double>> zs;
        sim->computeNextOutput();
        size_t outs = sys->log.size();
        r = sim->computeNextState();
        CHECK(r == t && t >= now, "the cycle at " << t << " ends at " << r << ", after " << now);
        for (auto const &c : sys->log) NOTE(ctx, "  " << show(c));
        Call const* o = nullptr;
        Call const* h = nullptr;
        for (size_t i = 0; i < sys->log.size(); i++) {
            Call const &c = sys->log[i];
            if (c.kind == 'o') {
                CHECK(!o, "output_func is called twice for one event");
                CHECK(!h, "output_func is called after the event was handled");
                o = &c;
            } else {
                CHECK(!h, "two events are handled in one cycle");
                CHECK(i >= outs, "an event is handled while output is computed");
                h = &c;
            }
        }
        CHECK(sys->alg_ok, "the algebraic variable was not brought up to date by postStep");
        // judge with the functions and the solution as they were before the handler
        std::vector<Fn> fns_after = sys->fns;
        std::vector<Var> vars_after = sys->vars;
        double next_after = sys->next_time;
        sys->fns = fns;
        sys->vars = vars_before;
        sys->next_time = next_before;
        bool had_pending = !pending.empty();
        if (o) {
            CHECK(h && h->kind != 'e', "output_func is called and no internal event follows");
            CHECK(o->flags == h->flags, "output_func and the event that follows are given different flags");
            // the output function sees what the handler is given
            for (int i = 0; i < sys->n; i++) CHECK(o->q[i] == h->q[i], "output_func and the event that follows are given different states");
            pending.insert(pending.end(), o->out.begin(), o->out.end());
        }
        for (int v : sink->got) {
            auto i = std::find(pending.begin(), pending.end(), v);
            CHECK(i != pending.end(), "output " << v << " is published again");
            pending.erase(i);
        }
        if (o && !pending.empty()) discovered++;
        if (had_pending && !o) CHECK(pending.empty(), "the output of an event found while handling input is not published in the cycle that follows");
        if (!h) {
            CHECK(in.empty(), "the input was not handled");
            CHECK(t <= d.last, "the event due at " << (double)d.last << " or before is not handled in the cycle at " << t);
            CHECK(t > now || had_pending || ++stuck < 10, "many cycles at " << t << " and nothing happens");
            if (t > now) stuck = 0;
            if (!had_pending) {
                CHECK(!hyb->eventHappened(), "eventHappened after a step without event");
                steps++;
            }
            Vec q(hyb->getState(), hyb->getState() + sys->n);
            state_is(q, t, "getState");
            if (sys->ALG >= 0 && !had_pending)
                CHECK(q[sys->ALG] == HybSys::alg(q.data(), sys->n, sys->ALG), "the algebraic variable was not brought up to date by postStep");
        } else {
            CHECK(hyb->eventHappened(), "an event was handled but eventHappened denies it");
            CHECK(h->kind != 'i' || in.empty(), "the input was not handled");
            if (h->kind != 'i') {
                std::vector<int> a = h->in, b = in;
                std::sort(a.begin(), a.end());
                std::sort(b.begin(), b.end());
                CHECK(a == b, "the input handled is not what was sent");
                CHECK(!in.empty(), "an input is handled that was not sent");
                if (had_pending) pending_input++;
            }
            if (h->kind == 'e') {
                CHECK(t <= d.last, "the event due at " << (double)d.last << " or before is not handled but input at " << t);
                state_is(h->q, t, "external_event");
                CHECK(fabsl((t - t0) - h->e) <= 1e-9L, "external_event is told of an elapsed time of " << h->e << ", the last event was at " << (double)t0);
                for (size_t i = 0; i < fns.size(); i++) {
                    Var const &v = sys->vars[fns[i].var];
                    double z1 = sys->z((int)i, h->q.data());
                    L off = fabsl(h->q[v.at] - fns[i].level), near = 10 * eps * (1 + fabsl(h->q[v.at])) * (1 + (t - t0));
                    CHECK(!fns[i].armed || v.turns || z0[i] * z1 >= 0 || off <= near || locator == NONE,
                          "external_event at " << t << " finds that function " << i << " went from " << z0[i] << " to " << z1 << " without an event");
                }
                externals++;
                if (t == t0) at_once++;
            } else {
                (h->kind == 'i' ? internals : confluents)++;
                CHECK(o, "an internal event was handled without its output");
                int N = (int)fns.size(), count = 0;
                state_is(h->q, t, h->kind == 'i' ? "internal_event" : "confluent_event");
                for (int i = 0; i < N; i++) {
                    if (locator == NONE) {
                        CHECK(!h->flags[i], "function " << i << " is flagged though the locator finds no state events");
                        continue;
                    }
                    double z1 = sys->z(i, h->q.data());
                    bool crossed = (z0[i] < 0) != (z1 < 0) || (z0[i] > 0) != (z1 > 0);
                    if (h->flags[i] && sys->vars[fns[i].var].turns) {  // there and back again
                        count++;
                        continue;
                    }
                    // on its level, up to rounding, before and now
                    double at = h->q[sys->vars[fns[i].var].at], close = 1e-14 * (1 + fabs(at));
                    if (fns[i].armed && solver == TRAP && fabs(at - fns[i].level) <= close && fabs(q0[sys->vars[fns[i].var].at] - fns[i].level) <= close) {
                        count++;
                        continue;
                    }
                    CHECK((bool)h->flags[i] == crossed, "function " << i << " goes from " << z0[i] << " to " << z1 << " and is "
                                                                  << (h->flags[i] ? "" : "not ") << "flagged");
                    count += crossed;
                }
                if (h->flags[N]) {
                    CHECK(fabsl(t - d.timed) <= 1e-9L, "a time event is flagged at " << t << ", it is due at " << (double)d.timed);
                    timed++;
                    if (count) both++;
                } else if (pending.empty() && locator != LINEAR && stol > 1 && remains < hmax * (1 - 1e-9) && asked + remains == t)
                    CHECK(false, "the time event due at " << (double)d.timed << " is not flagged at " << t);
                else
                    CHECK(t <= d.timed - 1e-15L || t < d.timed + 1e-9L, "the time event due at " << (double)d.timed << " is not flagged at " << t);
                CHECK(count || h->flags[N], "an internal event is handled without a cause");
                CHECK(t >= d.first, "an internal event is handled at " << t << ", nothing is due before " << (double)d.first);
                CHECK(t <= d.last, "the event due at " << (double)d.last << " or before is handled at " << t);
                if (count > 1) several++;
            }
        }
        sys->fns = fns_after;
        sys->vars = vars_after;
        sys->next_time = next_after;
        if (h) {
            t0 = t;
            q0 = sys->after;
            for (int i = 0; i < sys->n; i++)
                CHECK(hyb->getState(i) == q0[i], "getState after an event is not what the handler left, q" << i << " = " << hyb->getState(i) << ", not " << q0[i]);
        }
        now = t;
        HT nx = sim->nextEventTime();
        CHECK(nx >= now, "the next event is at " << nx << ", before now at " << now);
        if (!pending.empty()) CHECK(nx == now, "output of an event at " << now << " waits until " << nx);
    }
};
#endif
