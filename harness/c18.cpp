// C18: event locators find the first crossing, to tolerance, and nothing else.
#include "adevs/solvers/corrected_euler.h"
#include "adevs/solvers/rk_45.h"
#include "adevs/solvers/event_locators.h"
#include "ode.h"
using pbt::Ctx;
using pbt::Src;
double adevs::double_fcmp::epsilon = 1e-9;

// x' = 1, y_j' = v_j, w_j' = v_j (1 + b_j x + x x) or v_j exp(x): all rise or fall throughout
struct MonoFlow : Flow {
    std::vector<double> v, b;
    std::vector<int> cubic;  // 2: exponential, which no interpolation reproduces
    bool curved = false;
    MonoFlow(Src &s, bool may_curve) {
        n = (int)s.size(1, 4, 50, 320);
        time_var = (int)s.below(n);
        degree = 3;
        for (int i = 0; i < n; i++) {
            double r = s.of<double>({1, 0.1, 10, 0.5, 3});
            v.push_back(i == time_var ? 1 : s.coin() ? r : -r);
            b.push_back(s.real(-1, 1));
            cubic.push_back(i != time_var && s.coin());
            if (cubic[i] && may_curve && s.chance(1, 3)) {
                cubic[i] = 2;
                curved = true;
            }
        }
    }
    void f(double const* q, double* dq) const override {
        double x = q[time_var];
        for (int i = 0; i < n; i++) dq[i] = cubic[i] == 2 ? v[i] * exp(x) : cubic[i] ? v[i] * (1 + b[i] * x + x * x) : v[i];
    }
    void flow(double const* q, L t, L* r) const override {
        L x = q[time_var], y = x + t;
        for (int i = 0; i < n; i++)
            r[i] = q[i] + (L)v[i] * (cubic[i] == 2 ? expl(x) * expm1l(t) : cubic[i] ? (y - x) + (L)b[i] * (y * y - x * x) / 2 + (y * y * y - x * x * x) / 3 : t);
        r[time_var] = y;
    }
    void jac(double const*, double*) const override {}
    Vec start(Src &s) const override {
        Vec q(n);
        for (int i = 0; i < n; i++) q[i] = i == time_var ? s.of<double>({0, 0.25, 1.0 / 3, 0.7}) : s.real(-2, 2);
        return q;
    }
};
struct Exact : adevs::ode_solver<int> {
    Flow const &fl;
    double hmax;
    Exact(adevs::ode_system<int>* sys, Flow const &fl, double hmax) : adevs::ode_solver<int>(sys), fl(fl), hmax(hmax) {}
    double integrate(double* q, double lim) override {
        double h = std::min(lim, hmax);
        advance(q, h);
        return h;
    }
    void advance(double* q, double h) override {
        std::vector<L> r(fl.n);
        fl.flow(q, h, r.data());
        for (int i = 0; i < fl.n; i++) q[i] = (double)r[i];
    }
};
struct Z {
    int shape, var;
    double a, k, Q, sc;  // factor, rate, value of the variable at the crossing
    // sc: about the range of the variable
    double hi = 1;   // a jump may be higher on one side
    int at_zero;     // sign of a step at its crossing
    double c;        // time of the crossing, from the start of the history; infinite if there is none
};
static char const* shape_name[] = {"linear", "cubed", "exp", "tanh", "root", "jump", "jump and rise", "constant"};
struct Sys : adevs::ode_system<int> {
    Flow const &fl;
    std::vector<Z> z;
    long calls = 0, limit = 200000;
    Sys(Flow const &fl, std::vector<Z> const &z) : adevs::ode_system<int>(fl.n, (int)z.size()), fl(fl), z(z) {}
    void init(double*) override {}
    void der_func(double const* q, double* dq) override { fl.f(q, dq); }
    double value(int i, double const* q) const {
        Z const &x = z[i];
        double u = (q[x.var] - x.Q) / x.sc;
        switch (x.shape) {
            case 0: return x.a * u;
            case 1: return x.a * u * u * u;
            case 2: return x.a * expm1(u);
            case 3: return x.a * tanh(x.k * u);
            case 4: return x.a * (u < 0 ? -sqrt(-u) : sqrt(u));
            case 5: return x.a * (u < 0 ? -1 : u > 0 ? x.hi : x.at_zero);
            case 6: return x.a * (u < 0 ? -1 + 0.01 * u : u > 0 ? x.hi * (1 + 0.01 * u) : x.at_zero);
            default: return x.a;
        }
    }
    void state_event_func(double const* q, double* r) override {
        if (++calls > limit) FAIL("the search does not come to an end: " << limit << " evaluations of the event functions");
        for (size_t i = 0; i < z.size(); i++) r[i] = value((int)i, q);
    }
    double time_event_func(double const*) override { return adevs_inf<double>(); }
    void internal_event(double*, bool const*) override {}
    void external_event(double*, double, std::list<adevs::PinValue<int>> const &) override {}
    void confluent_event(double*, bool const*, std::list<adevs::PinValue<int>> const &) override {}
    void output_func(double const*, bool const*, std::list<adevs::PinValue<int>> &) override {}
};
static int sgn(double x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }
enum { BISECT, LINEAR, DISC, FAST, FASTI, NONE };
static char const* loc_name[] = {"bisection_event_locator", "linear_event_locator", "discontinuous_event_locator",
                                 "fast_event_locator",      "fast_event_locator, interpolating", "null_event_locator"};

static void prop(Src &s, Ctx &ctx) {
    int kind = s.weighted({3, 3, 3, 5, 4, 1});
    MonoFlow fl(s, kind != FASTI);
    Vec q = fl.start(s);
    bool jumps = kind == DISC || kind >= FAST;
    double H = s.of<double>({1, 0.5, 0.1, 0.3, 2, 1e-3, 0.7}) * (s.chance(1, 3) ? s.real(0.2, 1) : 1.0);
    int segs = (int)s.range(1, 4);
    double total = H * segs;
    double tol = s.of<double>({1e-3, 1e-2, 1e-4, 1e-6, 1e-8, 0.1});
    if (kind >= FAST) tol *= s.of<double>({1, 0.1});
    if (tol < 1e-9) tol = 1e-9;
    int nz = kind == NONE ? 0 : (int)s.size(s.chance(1, 10) ? 0 : 1, 4, 80, 320);
    std::vector<Z> z;
    double first = -1;
    for (int i = 0; i < nz; i++) {
        Z x;
        x.shape = jumps ? (int)s.of<int>({0, 5, 6, 1, 2, 3, 4, 7}) : (int)s.of<int>({0, 0, 1, 2, 3, 4, 7});
        x.var = s.coin() ? fl.time_var : (int)s.below(fl.n);
        x.a = s.of<double>({1, -1, 0.5, -3});
        x.k = s.of<double>({1, 10, 100});
        x.at_zero = (int)s.range(-1, 1);
        if (s.chance(1, 4)) x.hi = s.of<double>({1e3, 1e-3, 1e6, 10});
        switch (s.weighted({4, 2, 2, 2, 2})) {
            case 0: x.c = total * s.real(0.001, 1); break;
            case 1: x.c = H * s.range(1, segs); break;                                              // the end of a step
            case 2: x.c = total * (1 + s.real(0.001, 1)); break;                                    // beyond
            case 3: x.c = first > 0 ? first * (1 + s.of<double>({0, 1e-12, -1e-12, 1e-9, 1e-7, 1e-5, -1e-7})) : total / 2; break;  // with another
            default: x.c = H * (s.range(1, segs) + s.of<double>({1e-15, -1e-15, 1e-12, -1e-12, 1e-9, -1e-9, -1e-5})); break;
        }
        if (kind == LINEAR && x.c < H * 0.02) x.c = H * 0.02;
        if (first < 0) first = x.c;
        std::vector<L> r(fl.n);
        fl.flow(q.data(), x.c, r.data());
        x.Q = (double)r[x.var];
        fl.flow(q.data(), total, r.data());
        x.sc = (double)fabsl(r[x.var] - q[x.var]);
        if (kind <= LINEAR && x.shape == 4 && tol < 1e-4) x.shape = 0;  // beyond the precision of its argument
        if (kind == LINEAR && x.shape == 1 && tol < 1e-4) x.shape = 0;  // linear interpolation takes forever
        if (x.shape == 7) x.c = 1e300;
        z.push_back(x);
    }
    Sys sys(fl, z);
    for (int i = 0; i < nz; i++)
        if (sys.value(i, q.data()) == 0) return;
    std::unique_ptr<adevs::ode_solver<int>> sol;
    int which = fl.curved ? 0 : s.weighted({3, 1, 1});
    bool all_lin = true;
    for (int i = 0; i < fl.n; i++) all_lin = all_lin && !fl.cubic[i];
    if (which == 2 && !all_lin) which = 1;
    if (which == 0)
        sol.reset(new Exact(&sys, fl, H));
    else if (which == 1)
        sol.reset(new adevs::rk_45<int>(&sys, 1e3, H));
    else
        sol.reset(new adevs::corrected_euler<int>(&sys, 1e3, H));
    std::unique_ptr<adevs::event_locator<int>> loc;
    switch (kind) {
        case BISECT: loc.reset(new adevs::bisection_event_locator<int>(&sys, tol)); break;
        case LINEAR: loc.reset(new adevs::linear_event_locator<int>(&sys, tol)); break;
        case DISC: loc.reset(new adevs::discontinuous_event_locator<int>(&sys, tol)); break;
        case FAST: loc.reset(new adevs::fast_event_locator<int>(&sys, tol)); break;
        case FASTI: loc.reset(new adevs::fast_event_locator<int>(&sys, tol, true)); break;
        default: loc.reset(new adevs::null_event_locator<int>());
    }
    NOTE(ctx, loc_name[kind] << ", tolerance " << tol << ", " << fl.n << " variables, steps of " << H
                             << (which == 0 ? ", exact solution" : which == 1 ? ", rk_45" : ", corrected_euler") << ", q = " << show(q));
    for (int i = 0; i < nz; i++) NOTE(ctx, "  function " << i << ": " << z[i].a << " * " << shape_name[z[i].shape] << " of variable " << z[i].var << ", crosses at " << z[i].c);

    L T = 0;  // where q is
    int found = 0, shortened = 0, none = 0, several = 0, ends = 0, calls = 0;
    const Vec q00 = q;
    const long limit = 3000;
    while (T < total * (1 - 1e-9)) {
        CHECK(++calls < limit, "the event at " << first << " is not reached in " << limit << " steps");
        Vec q0 = q, qe = q;
        double lim = std::min(H, (double)(total - T));
        double h0 = sol->integrate(qe.data(), lim), h = h0;
        CHECK(h0 > 0, "a step of zero");
        Vec qe0 = qe;
        std::vector<char> evb(nz + 1, 2);
        std::vector<double> z0(nz), z1(nz);
        L slack = 1e-13L * (1 + total + size_of(q0));  // of times
        std::vector<int> changed;
        L cstar = 1e300L;
        for (int i = 0; i < nz; i++) {
            z0[i] = sys.value(i, q0.data());
            if (sgn(z0[i]) != sgn(sys.value(i, qe.data()))) {
                changed.push_back(i);
                cstar = std::min<L>(cstar, (L)z[i].c - T);
            }
        }
        // variables that move slowly tell the time less exactly
        slack *= 200;
        static bool ev[400];
        for (bool &x : ev) x = true;
        sys.calls = 0;
        bool r = loc->find_events(ev, q0.data(), qe.data(), sol.get(), h);
        CHECK(ev[nz], "the locator wrote beyond the flags of its functions");
        CHECK(std::isfinite(h) && h > 0 && h <= h0, "the event is at " << h << " in a segment of length " << h0);
        NOTE(ctx, "  from " << (double)T << " over " << h0 << ": " << (r ? "event" : "no event") << ", h = " << h << ", " << sys.calls << " evaluations");
        if (kind >= DISC && kind != NONE && nz > 0) {
            long most = 6 + (long)std::max(0.0, log2(h0 / tol));
            CHECK(sys.calls <= most * 4, sys.calls << " evaluations to find an event within " << h0 << " to " << tol);
        }
        if (changed.empty()) {
            CHECK(!r, "an event is reported but no function changes sign");
            CHECK(h == h0 && qe == qe0, "a segment without a change of sign was changed, its length from " << h0 << " to " << h);
            for (int i = 0; i < nz && kind != NONE; i++) CHECK(!ev[i], "function " << i << " is flagged without an event");
            none++;
            T += h;
            q = qe;
            continue;
        }
        CHECK(kind != NONE, "the null locator works with event functions");
        // the state is that at the time reported
        std::vector<L> x(fl.n);
        fl.flow(q0.data(), h, x.data());
        L off = dist(qe, x), sz = 1 + size_of(q0) + size_of(qe);
        CHECK(off <= (which == 0 ? 1e-14L : 1e-13L) * sz * (kind == FASTI ? 20 : 2) || off <= 1e-12L * sz, "the state reported is not that at " << h << ", off by " << (double)off);
        for (int i = 0; i < nz; i++) z1[i] = sys.value(i, qe.data());
        if (r) {
            int flags = 0;
            for (int i = 0; i < nz; i++) {
                bool c = sgn(z0[i]) != sgn(z1[i]);
                CHECK((bool)ev[i] == c, "function " << i << " goes from " << z0[i] << " to " << z1[i] << " and is " << (ev[i] ? "" : "not ") << "flagged");
                if (c && kind <= LINEAR) CHECK(fabs(z1[i]) <= tol, "function " << i << " is at " << z1[i] << ", beyond the tolerance " << tol);
                flags += c;
            }
            CHECK(flags > 0, "an event is reported and no function flagged");
            CHECK(h >= cstar - slack, "the event at " << h << " is before the first crossing at " << (double)cstar);
            if (kind == FAST || kind == FASTI)
                CHECK(h - cstar <= tol + slack, "the event is reported " << (double)(h - cstar) << " after the crossing, the tolerance is " << tol);
            if (kind == DISC) CHECK(h <= tol, "the event is " << h << " from the start of the step, the tolerance is " << tol);
            found++;
            if (flags > 1) several++;
            if (fabsl(cstar - h0) <= slack) ends++;
            T += h;
            break;
        }
        CHECK(kind <= DISC, "the crossing at " << (double)cstar << " is passed over");
        CHECK(h < h0, "the segment with a crossing at " << (double)cstar << " is reported free of events up to its end");
        CHECK(h <= cstar + slack, "the segment is cut to " << h << ", after the crossing at " << (double)cstar);
        for (int i = 0; i < nz; i++) {
            CHECK(sgn(z0[i]) == sgn(z1[i]), "function " << i << " has changed sign at " << h << " and no event is reported");
            CHECK(!ev[i], "function " << i << " is flagged without an event");
        }
        shortened++;
        T += h;
        q = qe;
    }
    ctx.nontrivial(found > 0);
    if (found) ctx.label(std::string("event, ") + loc_name[kind]);
    if (fl.curved && found) ctx.label("curved trajectory, event");
    if (nz > 20) ctx.label("many functions");
    if (fl.n > 20) ctx.label("many variables");
    if (none) ctx.label("segment without event");
    if (shortened) ctx.label("segment cut short of the event");
    if (several) ctx.label("several functions at once");
    if (ends) ctx.label("crossing at the end of the segment");
}
PBT_MAIN(prop)
