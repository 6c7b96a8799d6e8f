// C21: a hybrid model owns the system, solver and locator it is given, and depends on no
// uninitialised memory. A case is a script that builds, uses and destroys a hybrid model.
// It is interpreted several times, each with fresh memory filled differently: what is
// observed must be the same, and nothing may be left behind.
#include <sanitizer/allocator_interface.h>
#include <cassert>
#include <cfloat>
#include <cmath>
#include <list>
#include "adevs/adevs.h"
#include "adevs/solvers/corrected_euler.h"
#include "adevs/solvers/rk_45.h"
#include "adevs/solvers/trap.h"
#include "pbt.h"
using pbt::Ctx;
using pbt::Src;
double adevs::double_fcmp::epsilon = 1e-9;
typedef std::list<adevs::PinValue<int>> PVs;

static unsigned char fill_byte = 0xbe;
static void on_malloc(const volatile void* p, size_t n) { memset((void*)p, fill_byte, n < 65536 ? n : 65536); }
static void on_free(const volatile void*) {}
struct Hooks {
    Hooks() { __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); }
} hooks;

struct Count {
    int made = 0, gone = 0;
};
// counts the instances of a class
template <typename Base>
struct Counted : Base {
    Count &c;
    template <typename... A>
    Counted(Count &c, A... a) : Base(a...), c(c) { c.made++; }
    ~Counted() { c.gone++; }
};
enum { RK, CE, TRAP, OWN_SOLVER };
static char const* sol_name[] = {"rk_45", "corrected_euler", "trap", "a solver of the user"};
enum { BISECT, LINEAR, DISC, FAST, FASTI, NONE, OWN_LOCATOR };
static char const* loc_name[] = {"bisection_event_locator", "linear_event_locator", "discontinuous_event_locator", "fast_event_locator",
                                 "fast_event_locator, interpolating", "null_event_locator", "a locator of the user"};

struct Op {
    int op, a;
    double x;
};
struct Script {
    int n, m, sol, loc, holder, teardown;
    bool preset, jac, own_type;
    double tol, hmax, period;
    std::vector<double> rate;
    std::vector<Op> ops;
};
// each variable is a clock with its own rate and an event each time it has advanced by 0.3
struct Sys : adevs::ode_system<int> {
    Script const &sc;
    std::vector<double> level;
    double next;
    adevs::pin_t pin;
    std::vector<double> &seen;
    long evals = 0;
    long magic = 0x5ca1ab1e;
    Sys(Script const &sc, std::vector<double> &seen, bool late) : adevs::ode_system<int>(late ? -1 : sc.n, late ? -1 : sc.m), sc(sc), seen(seen) {
        if (late) {
            set_num_state_variables(sc.n);
            set_num_event_functions(sc.m);
        }
        for (int i = 0; i < sc.m; i++) level.push_back(i % sc.n + 0.3 * (sc.rate[i % sc.n] > 0 ? 1 : -1));
        next = sc.period;
    }
    ~Sys() { magic = 0; }
    void tick() {
        CHECK(magic == 0x5ca1ab1e, "the system is used after it was destroyed");
        if (++evals > 200000) {
            fprintf(stderr, "Assertion: the simulation does not advance\n");
            abort();
        }
    }
    void init(double* q) override {
        for (int i = 0; i < sc.n; i++) q[i] = i;
    }
    void der_func(double const*, double* dq) override {
        tick();
        for (int i = 0; i < sc.n; i++) dq[i] = sc.rate[i];
    }
    void state_event_func(double const* q, double* z) override {
        tick();
        for (int i = 0; i < sc.m; i++) z[i] = q[i % sc.n] - level[i];
    }
    double now(double const* q) const { return (q[0] - 0) / sc.rate[0]; }
    double time_event_func(double const* q) override { return sc.period > 0 ? std::max(0.0, next - now(q)) : adevs_inf<double>(); }
    bool get_jacobian(double const* q, double* J) override {
        if (!sc.jac) return adevs::ode_system<int>::get_jacobian(q, J);
        if (!J) return true;
        for (int i = 0; i < sc.n * sc.n; i++) J[i] = 0;
        return true;
    }
    void event(double const* q, bool const* flag, int what) {
        tick();
        seen.push_back(what);
        for (int i = 0; i < sc.n; i++) seen.push_back(q[i]);
        if (flag)
            for (int i = 0; i <= sc.m; i++) {
                seen.push_back(flag[i] ? 1 : 0);
                if (!flag[i] || what == 100) continue;
                if (i < sc.m)
                    level[i] = q[i % sc.n] + (sc.rate[i % sc.n] > 0 ? 0.3 : -0.3);
                else
                    next = now(q) + sc.period;
            }
    }
    void internal_event(double* q, bool const* flag) override { event(q, flag, 101); }
    void external_event(double* q, double e, PVs const &xb) override {
        event(q, nullptr, 102);
        seen.push_back(e);
        seen.push_back(xb.size());
    }
    void confluent_event(double* q, bool const* flag, PVs const &xb) override {
        event(q, flag, 103);
        seen.push_back(xb.size());
    }
    void output_func(double const* q, bool const* flag, PVs &yb) override {
        event(q, flag, 100);
        yb.push_back(adevs::PinValue<int>(pin, 1));
    }
};
struct OwnSolver : adevs::ode_solver<int> {  // Euler's method
    int n;
    double hmax;
    std::vector<double> dq;
    OwnSolver(adevs::ode_system<int>* s, double, double hmax) : adevs::ode_solver<int>(s), n(s->numVars()), hmax(hmax), dq(n) {}
    double integrate(double* q, double h) override {
        h = std::min(h, hmax);
        sys->der_func(q, dq.data());
        for (int i = 0; i < n; i++) q[i] += h * dq[i];
        return h;
    }
    void advance(double* q, double h) override {
        sys->der_func(q, dq.data());
        for (int i = 0; i < n; i++) q[i] += h * dq[i];
    }
};
struct OwnLocator : adevs::event_locator<int> {  // at the end of the step, if at all
    int m;
    std::vector<double> z0, z1;
    OwnLocator(adevs::ode_system<int>* s, double) : adevs::event_locator<int>(s), m(s->numEvents()), z0(m), z1(m) {}
    bool find_events(bool* ev, double const* a, double* b, adevs::ode_solver<int>*, double &) override {
        sys->state_event_func(a, z0.data());
        sys->state_event_func(b, z1.data());
        bool any = false;
        for (int i = 0; i < m; i++) any = (ev[i] = (z0[i] < 0) != (z1[i] < 0)) || any;
        return any;
    }
};
template <typename S>
static adevs::ode_solver<int>* solver(Count &c, Sys* s, Script const &sc) {
    return new Counted<S>(c, s, sc.tol, sc.hmax);
}
static adevs::ode_solver<int>* make_solver(Count &c, Sys* s, Script const &sc) {
    switch (sc.sol) {
        case RK: return solver<adevs::rk_45<int>>(c, s, sc);
        case CE: return solver<adevs::corrected_euler<int>>(c, s, sc);
        case TRAP: return new Counted<adevs::trap<int>>(c, s, sc.tol, sc.hmax, true);
        default: return solver<OwnSolver>(c, s, sc);
    }
}
static adevs::event_locator<int>* make_locator(Count &c, Sys* s, Script const &sc) {
    switch (sc.loc) {
        case BISECT: return new Counted<adevs::bisection_event_locator<int>>(c, s, sc.tol);
        case LINEAR: return new Counted<adevs::linear_event_locator<int>>(c, s, sc.tol);
        case DISC: return new Counted<adevs::discontinuous_event_locator<int>>(c, s, sc.tol);
        case FAST: return new Counted<adevs::fast_event_locator<int>>(c, s, sc.tol);
        case FASTI: return new Counted<adevs::fast_event_locator<int>>(c, s, sc.tol, true);
        case NONE: return new Counted<adevs::null_event_locator<int>>(c);
        default: return new Counted<OwnLocator>(c, s, sc.tol);
    }
}
struct Own : adevs::Hybrid<int> {  // a model derived from Hybrid
    Count &c;
    Own(Count &c, adevs::ode_system<int>* s, adevs::ode_solver<int>* v, adevs::event_locator<int>* l) : Hybrid(s, v, l), c(c) { c.made++; }
    ~Own() { c.gone++; }
};
// returns what was observed
static std::vector<double> run(Script const &sc, int* events) {
    std::vector<double> seen;
    Count cs, cv, cl, cm;
    auto* sys = new Counted<Sys>(cs, std::cref(sc), std::ref(seen), sc.own_type);
    Sys* s = sys;
    if (sc.holder == 3) {  // solver and locator on their own
        auto* v = make_solver(cv, s, sc);
        auto* l = make_locator(cl, s, sc);
        if (!sc.ops.empty()) {
            std::vector<double> a(sc.n), b(sc.n);
            s->init(a.data());
            b = a;
            std::unique_ptr<bool[]> ev(new bool[sc.m + 1]);
            double h = v->integrate(b.data(), 0.2);
            bool f = l->find_events(ev.get(), a.data(), b.data(), v, h);
            v->advance(b.data(), 0.125);
            seen.push_back(h);
            seen.push_back(f);
            for (double x : b) seen.push_back(x);
        }
        adevs::ode_solver<int>* v2 = v;
        adevs::event_locator<int>* l2 = l;
        if (sc.teardown & 1) {
            delete v2;
            delete l2;
        } else {
            delete l2;
            delete v2;
        }
        CHECK(cs.gone == 0, "a solver or locator destroyed the system");
        CHECK(cv.gone == 1 && cl.gone == 1, "solver or locator not destroyed once");
        delete sys;
        return seen;
    }
    adevs::Hybrid<int>* h;
    if (!sc.preset) {
        auto* v = make_solver(cv, s, sc);
        auto* l = make_locator(cl, s, sc);
        h = sc.own_type ? new Own(cm, s, v, l) : new adevs::Hybrid<int>(s, v, l);
    } else if (sc.sol == TRAP)
        h = new adevs::ImplicitHybrid<int>(s, sc.tol, sc.hmax);
    else
        h = new adevs::ExplicitHybrid<int>(s, sc.tol, sc.hmax);
    CHECK(cs.gone == 0 && cv.gone == 0 && cl.gone == 0, "a new hybrid model destroyed what it was given");
    auto query = [&] {
        seen.push_back(200);
        seen.push_back(h->eventHappened());
        for (int i = 0; i < sc.n; i++) seen.push_back(h->getState(i));
        CHECK(h->getSystem() == sys, "getSystem is not the system");
        CHECK(h->getState()[0] == h->getState(0), "getState differs from getState");
    };
    adevs::pin_t in;
    if (sc.holder == 0) {  // used as it is
        double t = 0;
        for (auto const &o : sc.ops) {
            PVs x, y;
            double ta = h->ta();
            seen.push_back(ta);
            switch (o.op) {
                case 0: query(); break;
                case 1:
                    if (ta == adevs_inf<double>()) break;
                    h->output_func(y);
                    seen.push_back(y.size());
                    h->delta_int();
                    t += ta;
                    (*events)++;
                    break;
                case 2:
                    x.push_back(adevs::PinValue<int>(in, o.a));
                    if (ta > 0) {
                        if (ta == adevs_inf<double>()) ta = 1;
                        h->delta_ext(ta * o.x, x);
                    } else {
                        h->output_func(y);
                        h->delta_conf(x);
                    }
                    (*events)++;
                    break;
                default:
                    x.push_back(adevs::PinValue<int>(in, o.a));
                    if (ta == adevs_inf<double>()) break;
                    h->output_func(y);
                    seen.push_back(y.size());
                    h->delta_conf(x);
                    (*events)++;
            }
            CHECK(cs.gone == 0 && cv.gone == 0 && cl.gone == 0, "a hybrid model in use destroyed what it was given");
        }
        if (sc.teardown & 1) query();
        delete h;
    } else {
        std::shared_ptr<adevs::Hybrid<int>> m(h);
        auto g = std::make_shared<adevs::Graph<int>>();
        std::shared_ptr<adevs::Coupled<int>> c;
        std::unique_ptr<adevs::Simulator<int>> sim;
        if (sc.holder == 2) {
            c = std::make_shared<adevs::Coupled<int>>();
            c->add_atomic(m);
            c->create_coupling(in, m);
        } else {
            g->add_atomic(m);
            g->connect(in, m);
        }
        if (c) {
            g.reset();
            sim.reset(new adevs::Simulator<int>(std::shared_ptr<adevs::Coupled<int>>(c)));
        } else
            sim.reset(new adevs::Simulator<int>(g));
        double now = 0;
        for (auto const &o : sc.ops) {
            double nx = sim->nextEventTime();
            seen.push_back(nx);
            if (o.op == 0) {
                query();
                continue;
            }
            if (o.op >= 2) {
                if (nx == adevs_inf<double>())
                    sim->setNextTime(1 + o.x);
                else if (o.op == 2)
                    sim->setNextTime(nx - (nx - now) * o.x);
                adevs::PinValue<int> x(in, o.a);
                sim->injectInput(x);
            }
            if (sim->nextEventTime() == adevs_inf<double>()) continue;
            now = sim->execNextEvent();
            (*events)++;
            CHECK(cs.gone == 0 && cv.gone == 0 && cl.gone == 0, "a hybrid model in use destroyed what it was given");
        }
        if (sc.teardown & 1) query();
        int order[] = {0, 1, 2, 3};
        for (int i = 0, k = sc.teardown / 2; i < 4; i++, k = k / 2 + 3 * (k & 1)) std::swap(order[i], order[i + k % (4 - i)]);
        for (int k : order) {
            switch (k) {
                case 0: m.reset(); break;
                case 1: sim.reset(); break;
                case 2:
                    g.reset();
                    break;
                default: c.reset();
            }
            if (m || sim || g || c) CHECK(cs.gone == 0, "the system is destroyed while its model is in use");
        }
    }
    CHECK(cs.gone == 1, "the system was destroyed " << cs.gone << " times with its model");
    CHECK(cv.gone == cv.made, "the solver was destroyed " << cv.gone << " times with its model");
    CHECK(cl.gone == cl.made, "the locator was destroyed " << cl.gone << " times with its model");
    CHECK(cm.gone == cm.made, "the model was destroyed " << cm.gone << " times");
    return seen;
}

static void prop(Src &s, Ctx &ctx) {
    Script sc;
    sc.n = (int)s.size(1, 4, 40, 320);
    sc.m = (int)s.size(0, 3, 70, 320);
    sc.sol = s.weighted({3, 3, 3, 1});
    sc.loc = s.weighted({3, 3, 3, 3, 3, 1, 1});
    sc.preset = s.chance(1, 4);
    if (sc.preset) sc.sol = sc.sol == TRAP ? TRAP : RK;
    sc.jac = s.coin();
    sc.own_type = s.coin();
    sc.tol = s.of<double>({1e-3, 1e-6});
    sc.hmax = s.of<double>({0.1, 0.5, 1});
    sc.period = s.of<double>({0, 0.25, 0.3});
    for (int i = 0; i < sc.n; i++) sc.rate.push_back(s.of<double>({1, 2, 0.5}) * (i > 0 && s.coin() ? -1 : 1));
    sc.holder = s.weighted({3, 3, 2, 1});
    if (sc.holder == 3) sc.preset = false;
    int k = s.chance(1, 6) ? 0 : (int)s.range(1, 25);
    for (int i = 0; i < k; i++) {
        Op o;
        o.op = s.weighted({2, 5, 3, 1});
        o.a = (int)s.below(100);
        o.x = s.coin() ? s.of<double>({0, 0.5, 0.999999, 1e-6, 1}) : s.real(0, 1);
        sc.ops.push_back(o);
    }
    sc.teardown = (int)s.below(64);
    NOTE(ctx, (sc.preset ? "preset " : "") << sol_name[sc.sol] << ", " << loc_name[sc.loc] << ", " << sc.n << " variables, " << sc.m
                                           << " event functions, period " << sc.period << ", held by " << (sc.holder == 0 ? "pointer" : sc.holder == 1 ? "graph" : sc.holder == 2 ? "coupled model" : "nothing")
                                           << ", teardown " << sc.teardown << ", derived type " << sc.own_type);
    for (auto const &o : sc.ops) NOTE(ctx, "  op " << o.op << " " << o.x);
    std::vector<double> first;
    size_t bytes = 0;
    int events = 0;
    unsigned char bytes_of[] = {0x00, 0x01, 0x7f, 0xff};
    for (int i = 0; i < 4; i++) {
        fill_byte = bytes_of[i];
        events = 0;
        std::vector<double> seen = run(sc, &events);
        fill_byte = 0xbe;
        if (i == 0)
            first = seen;
        else {
            CHECK(seen.size() == first.size(), "with other contents of fresh memory the model makes other calls");
            for (size_t j = 0; j < seen.size(); j++)
                CHECK(seen[j] == first[j], "with other contents of fresh memory observation " << j << " is " << seen[j] << ", not " << first[j]);
        }
        std::vector<double>().swap(seen);
        size_t b = __sanitizer_get_current_allocated_bytes();
        if (i >= 2) CHECK(b <= bytes, "a destroyed hybrid model leaves " << b - bytes << " bytes behind");
        bytes = b;
    }
    ctx.nontrivial(sc.holder < 3);
    if (!sc.preset) {
        ctx.label(sol_name[sc.sol]);
        ctx.label(loc_name[sc.loc]);
    } else
        ctx.label(sc.sol == TRAP ? "ImplicitHybrid" : "ExplicitHybrid");
    if (events == 0) ctx.label("destroyed without an event");
    if (events > 3) ctx.label("destroyed after several events");
    ctx.label(sc.holder == 0 ? "held by a pointer" : sc.holder == 1 ? "held by a graph" : sc.holder == 2 ? "held by a coupled model" : "solver and locator without model");
}
PBT_MAIN(prop)
