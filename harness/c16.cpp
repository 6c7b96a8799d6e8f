// C16: the explicit integrators report the step they took, within its limits, solve
// problems of their order exactly and keep the error of each step below the tolerance.
#include "adevs/solvers/corrected_euler.h"
#include "adevs/solvers/rk_45.h"
#include "ode.h"
using pbt::Ctx;
using pbt::Src;
double adevs::double_fcmp::epsilon = 1e-9;

static void prop(Src &s, Ctx &ctx) {
    bool rk = s.coin();
    int order = rk ? 5 : 2;
    std::unique_ptr<Flow> fl;
    int kind = s.weighted({4, 4, 4});
    if (kind == 0)
        fl.reset(new PolyFlow(s, s.coin() ? order - 1 : 6));
    else if (kind == 1)
        fl.reset(new LinearFlow(s, s.chance(1, 4) ? 20 : 1, false));
    else
        fl.reset(new NonlinFlow(s));
    PlainSystem sys(*fl);
    int n = fl->n;
    bool wide = s.chance(1, 5);  // step sizes well beyond what the problem allows
    double hm = (wide ? s.of<double>({2, 10, 100}) : s.of<double>({0.5, 0.25, 0.1, 0.02})) / fl->lip;
    if (s.chance(1, 3)) hm *= 0.3 + s.real(0, 0.7);
    double tol = wide ? s.of<double>({1e-3, 1e-5, 1e-7}) : s.of<double>({1e-3, 1e-4, 1e-6, 1e-8, 1e-10, 1e3, 1e6});
    if (!rk && tol < 1e-8) tol = 1e-8;
    bool loose = tol >= 1;  // no error control: the step is what the limits say
    std::unique_ptr<adevs::ode_solver<int>> sol;
    if (rk)
        sol.reset(new adevs::rk_45<int>(&sys, tol, hm));
    else
        sol.reset(new adevs::corrected_euler<int>(&sys, tol, hm));
    Vec q = fl->start(s);
    NOTE(ctx, (rk ? "rk_45, " : "corrected_euler, ") << fl->name << " of order " << n << ", rates up to " << fl->lip << ", tolerance "
                                                     << tol << ", h_max " << hm);
    NOTE(ctx, "  q = " << show(q));
    int ops = (int)s.range(1, 10), steps = 0, advances = 0, rejected = 0, limited = 0;
    L span = 0;  // of time passed
    double max_span = 3 / fl->lip + (fl->linear ? 0 : 1);
    for (int o = 0; o < ops && span < max_span; o++) {
        int w = s.weighted({5, 3, 1, 1});
        Vec q0 = q;
        std::vector<L> x(n);
        if (w == 0 || w == 2) {
            double lim = w == 2 ? adevs_inf<double>() : hm * s.of<double>({2, 1, 0.5, 0.1, 0.01, 1e-4, 0}) * (s.coin() ? 1.0 : s.real(0, 1));
            long c0 = sys.calls;
            double h = sol->integrate(q.data(), lim);
            NOTE(ctx, "  integrate up to " << lim << ": took " << h << ", q = " << show(q));
            CHECK(std::isfinite(h) && h <= lim && h <= hm, "the step " << h << " exceeds the limits " << lim << " and " << hm);
            CHECK(h > 0 || (lim == 0 && h == 0), "the step is " << h << " with the limit " << lim);
            if (sys.calls - c0 > (rk ? 6 : 2)) rejected++;
            if (h == lim) limited++;
            if (loose && kind != 0) CHECK(h >= std::min(lim, hm) * (1 - 1e-12) || h > 0, "the step " << h << " is short");
            fl->flow(q0.data(), h, x.data());
            L err = dist(q, x), sz = std::max(size_of(q0), size_of(q)) + 1;
            L z = fl->lip * h;
            if (fl->degree >= 0 && fl->degree <= order) {
                CHECK(err <= 1e-13L * sz * (1 + z), "a solution of degree " << fl->degree << " is off by " << (double)err << " after a step of " << h);
                ctx.label(rk ? "rk_45 exact" : "corrected_euler exact");
            }
            // the order of the method, where the step is small
            if (z <= 0.5) {
                L bound = powl(z, order + 1) * sz * (rk ? 0.5L : 1.0L) + 1e-14L * sz;
                CHECK(err <= bound, "the error " << (double)err << " of a step of " << h << " exceeds that of order " << order << ", "
                                                 << (double)bound);
                ctx.label(rk ? "rk_45 order" : "corrected_euler order");
            }
            // the tolerance
            // (of other systems the error estimate can vanish by accident)
            if (!loose && fl->linear && z <= 1) CHECK(err <= (z <= 0.3 ? 2 : 10) * tol + 1e-13L * sz, "the error " << (double)err << " of a step exceeds the tolerance " << tol);
            if (fl->time_var >= 0)
                CHECK(fabsl(q[fl->time_var] - ((L)q0[fl->time_var] + h)) <= 1e-15L * sz * 4, "the state is not that after a step of " << h);
            span += h;
            steps++;
        } else {
            double T = (w == 3 ? 1.0 : 0.3) * s.real(0, 1) * max_span;
            if (s.chance(1, 10)) T = 0;
            // just beyond, or just short of, a number of whole steps
            if (s.chance(1, 4))
                T = std::max(0.0, (double)s.range(1, 6) * hm + hm * s.of<double>({0, 1e-13, 1e-11, 1e-9, 1e-7, -1e-12, -1e-9, -1e-6}));
            if (T > max_span) T = max_span;
            NOTE(ctx, "  advance by " << T);
            long c0 = sys.calls;
            sol->advance(q.data(), T);
            NOTE(ctx, "    q = " << show(q) << ", " << sys.calls - c0 << " derivatives");
            fl->flow(q0.data(), T, x.data());
            L sz = std::max(size_of(q0), size_of(q)) + 1;
            L nst = 1 + (sys.calls - c0) / (rk ? 6.0L : 2.0L);
            CHECK(nst * hm >= T * (1 - 1e-9), "advancing by " << T << " took " << (double)nst << " steps of at most " << hm);
            if (fl->time_var >= 0)
                CHECK(fabsl(q[fl->time_var] - ((L)q0[fl->time_var] + T)) <= 3e-16L * sz * (nst + 4),
                      "advancing by " << T << " changes the time variable by " << q[fl->time_var] - q0[fl->time_var]);
            L grow = expl(std::min<L>(50, fl->lip * T)), err = dist(q, x);
            L local = fl->linear ? 10 * tol : 1e30L;
            if (loose || !wide) local = std::min<L>(local, powl(fl->lip * std::min(hm, T), order + 1) * sz * grow);
            if (!wide || !loose)
                CHECK(err <= (local + 4e-16L * sz * 10) * nst * grow * 1.5L + 1e-14L * sz,
                      "advancing by " << T << " in " << (double)nst << " steps leaves an error of " << (double)err << " with the tolerance " << tol);
            span += T;
            advances++;
        }
        for (double v : q) CHECK(std::isfinite(v), "the state is not finite");
        if (size_of(q) > 1e6) break;
    }
    ctx.nontrivial(steps + advances >= 2);
    if (n > 15) ctx.label("many variables");
    if (rejected) ctx.label("step rejected by the error control");
    if (limited) ctx.label("step limited by the caller");
    if (advances) ctx.label("advance");
    if (wide) ctx.label("step sizes beyond the problem");
}
PBT_MAIN(prop)
