// C17: each step of the implicit integrator satisfies the trapezoidal rule, stiff systems included.
#include "adevs/solvers/trap.h"
#include "ode.h"
using pbt::Ctx;
using pbt::Src;
double adevs::double_fcmp::epsilon = 1e-9;
static const L NEWTON = 2e-5L;  // the nonlinear solver stops at a residual of the cube root of the unit roundoff, 6.1e-6

static void prop(Src &s, Ctx &ctx) {
    std::unique_ptr<Flow> fl;
    int kind = s.weighted({2, 5, 3, 3});
    bool contractive = kind == 3;
    double stiff = s.of<double>({1, 20, 1000, 1e5});
    if (kind == 0)
        fl.reset(new PolyFlow(s, 3));
    else if (kind == 1)
        fl.reset(new LinearFlow(s, s.coin() ? stiff : 1, s.coin()));
    else if (kind == 2)
        fl.reset(new NonlinFlow(s));
    else
        fl.reset(new LinearFlow(s, stiff, true));
    bool jac = s.coin();
    PlainSystem sys(*fl, jac);
    sys.hard = true;
    sys.limit = 1000000;
    int n = fl->n;
    // stable systems may take any step
    bool wide = kind == 2 && s.chance(1, 4);  // single steps too large to follow the solution
    double hm = (contractive ? s.of<double>({0.1, 1, 10, 1000}) : wide ? s.of<double>({4, 20, 60}) : s.of<double>({0.5, 0.2, 0.05, 0.01})) / fl->lip;
    if (contractive && s.coin()) hm = s.of<double>({0.01, 0.1, 1, 10});
    if (contractive && hm * fl->lip > 1e6) hm = 1e6 / fl->lip;
    if (s.chance(1, 3)) hm *= 0.3 + s.real(0, 0.7);
    double tol = s.of<double>({1e-1, 1e-3, 1e-5, 1e-7, 1e3});
    adevs::trap<int> sol(&sys, tol, hm, !s.chance(1, 50));
    Vec q = fl->start(s);
    NOTE(ctx, fl->name << " of order " << n << ", rates up to " << fl->lip << ", tolerance " << tol << ", h_max " << hm
                       << (jac ? ", with Jacobian" : ", without Jacobian"));
    NOTE(ctx, "  q = " << show(q));
    bool huge = n > 100;  // few steps, which cost the cube of the order
    int ops = (int)s.range(1, huge ? 3 : 10), steps = 0, advances = 0, zero = 0, shortened = 0, failed = 0;
    L span = 0, max_span = contractive ? 1e30L : 3 / fl->lip + (fl->linear ? 0 : 1);
    L size0 = size_of(q), taken = 0;
    Vec d0(n), d1(n);
    L planned = -1;  // the step size that the error of the last step calls for
    int controlled = 0;
    double const lip0 = fl->lip;
    for (int o = 0; o < ops && span < max_span; o++) {
        int w = s.weighted({5, wide || huge ? 0 : 2, 1, 1});
        if (huge) ctx.label("hundreds of variables");
        Vec q0 = q;
        std::vector<L> x(n);
        if (w != 1) {
            double lim = w == 3 ? 0 : w == 2 ? adevs_inf<double>() : hm * s.of<double>({2, 1, 0.5, 0.1, 0.01, 1e-4}) * (s.coin() ? 1.0 : s.real(0, 1));
            double h = sol.integrate(q.data(), lim);
            NOTE(ctx, "  integrate up to " << lim << ": took " << h << ", q = " << show(q));
            CHECK(std::isfinite(h) && h <= lim && h <= hm, "the step " << h << " exceeds the limits " << lim << " and " << hm);
            CHECK(h > 0 || (lim == 0 && h == 0), "the step is " << h << " with the limit " << lim);
            if (h == 0) {
                CHECK(q == q0, "a step of length zero changed the state to " << show(q));
                zero++;
                continue;
            }
            // the error of the step before, Euler's step against that of the trapezoidal rule, limits this one
            if (planned >= 0) {
                CHECK(h <= planned * 1.5L, "the step of " << h << " is larger than the " << (double)planned << " that the error of the last step calls for");
                if (fl->linear) CHECK(h >= std::min<L>(std::min(lim, hm), planned) * 0.5L, "the step is shortened to " << h << ", the error of the last step calls for " << (double)planned);
                if (planned < std::min(lim, hm)) controlled++;
            }
            if (o == 0 && kind <= 1) {
                if (h < std::min(lim, hm)) shortened++;
                CHECK(h >= std::min(lim, hm) * 0.999, "the first step is shortened to " << h << ", but the equations of the step are linear or explicit");
            }
            for (double v : q) CHECK(std::isfinite(v), "the state is not finite");
            // the trapezoidal rule
            fl->f(q0.data(), d0.data());
            fl->f(q.data(), d1.data());
            for (int i = 0; i < n; i++) {
                L r = (L)q[i] - q0[i] - (L)h / 2 * ((L)d0[i] + d1[i]);
                L sc = fabsl(q[i]) + fabsl(q0[i]) + h * (fabsl(d0[i]) + fabsl(d1[i]));
                CHECK(fabsl(r) <= NEWTON + 1e-13L * sc, "the step of " << h << " does not satisfy the trapezoidal rule: residual "
                                                                        << (double)r << " of variable " << i);
            }
            planned = 1e30L;
            for (int i = 0; i < n; i++) {
                L d = fabsl((L)q0[i] + (L)h * d0[i] - q[i]), floor = 1e-9L * (1 + fabsl(q[i]) + fabsl(h * d0[i]));
                if (d > floor)
                    planned = std::min(planned, sqrtl(tol / d) * h);
                else if (q[i] != q0[i] + h * d0[i] && sqrtl(tol / floor) * h <= std::min(planned, (L)hm) * 2)
                    planned = -2;
                if (planned < 0) break;
            }
            if (wide) planned = -1;
            L err, sz = std::max(size_of(q0), size_of(q)) + 1, z = fl->lip * h;
            fl->flow(q0.data(), h, x.data());
            err = dist(q, x);
            if (z <= 0.5) {  // second order
                CHECK(err <= z * z * z * sz + 2 * NEWTON, "the error " << (double)err << " of a step of " << h << " is that of a lower order");
                ctx.label("order of the step");
            }
            if (fl->time_var >= 0)
                CHECK(fabsl(q[fl->time_var] - ((L)q0[fl->time_var] + h)) <= 1e-12L * sz, "the state is not that after a step of " << h);
            span += h;
            if (wide && o == 0 && h < std::min(lim, hm) * 0.999) failed++;
            if (wide) q = fl->start(s);
            steps++;
            taken++;
        } else {
            double T = contractive ? hm * s.real(0, 6) : s.real(0, 1) * (double)max_span;
            if (s.chance(1, 10)) T = 0;
            if (s.chance(1, 4))
                T = std::max(0.0, (double)s.range(1, 6) * hm + hm * s.of<double>({0, 1e-13, 1e-11, 1e-9, 1e-7, -1e-12, -1e-9, -1e-6}));
            if (T > max_span) T = (double)max_span;
            // the solution is followed in steps of about the root of the tolerance
            T = std::min(T, 2000 * sqrt(tol) / fl->lip);
            NOTE(ctx, "  advance by " << T);
            long c0 = sys.calls;
            planned = -1;
            sol.advance(q.data(), T);
            long nst = 1 + (sys.calls - c0);  // at least one per step
            NOTE(ctx, "    q = " << show(q) << ", " << sys.calls - c0 << " derivatives");
            if (T == 0) {
                CHECK(q == q0, "an advance of length zero changed the state to " << show(q));
                zero++;
                continue;
            }
            for (double v : q) CHECK(std::isfinite(v), "the state is not finite");
            L sz = std::max(size_of(q0), size_of(q)) + 1;
            CHECK(nst * hm >= T * (1 - 1e-9), "advancing by " << T << " took " << nst << " evaluations and steps of at most " << hm);
            if (fl->time_var >= 0)
                CHECK(fabsl(q[fl->time_var] - ((L)q0[fl->time_var] + T)) <= 1e-12L * sz * (nst + 4),
                      "advancing by " << T << " changes the time variable by " << q[fl->time_var] - q0[fl->time_var]);
            fl->flow(q0.data(), T, x.data());
            L z = fl->lip * std::min(hm, T);
            if (z <= 0.5) {
                L grow = expl(std::min<L>(50, fl->lip * T)), err = dist(q, x);
                CHECK(err <= (z * z * z * sz * grow + 2 * NEWTON) * nst * grow * 1.5L,
                      "advancing by " << T << " leaves an error of " << (double)err);
            }
            span += T;
            taken += nst;
            advances++;
        }
        if (contractive) {  // no norm larger than the square root of 2 n times the start
            L bound = size0 * sqrtl(2.0L * n) + taken * NEWTON * 2;
            CHECK(size_of(q) <= bound, "a stable system has grown from " << (double)size0 << " to " << (double)size_of(q));
            ctx.label(hm * lip0 > 50 ? "stable stiff system, steps far beyond its rates" : "stable system");
        }
        if (size_of(q) > 1e4) break;
    }
    ctx.nontrivial(steps + advances >= 2);
    if (n > 15) ctx.label("many variables");
    if (zero) ctx.label("step of length zero");
    if (advances) ctx.label("advance");
    if (!fl->linear) ctx.label("nonlinear");
    if (jac) ctx.label("with Jacobian");
    if (controlled) ctx.label("step limited by the error of the last one");
    if (failed) ctx.label("step shortened until its equations have a solution");
    if (shortened) ctx.label("first step shortened");
}
PBT_MAIN(prop)
