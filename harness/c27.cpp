// C27: the trajectory interpolant is the Hermite cubic of its end states and slopes.
#include "adevs/adevs.h"
#include "adevs/solvers/hybrid.h"
#include "adevs/solvers/spline.h"
#include "pbt.h"
using pbt::Ctx;
using pbt::Src;
double adevs::double_fcmp::epsilon = 1e-9;
typedef long double L;

struct Cubic {
    L a, b, c, d;
    L at(L t) const { return ((a * t + b) * t + c) * t + d; }
    L slope(L t) const { return (3 * a * t + 2 * b) * t + c; }
};
static double num(Src &s) {
    double m = s.chance(1, 8) ? 0.0 : s.real(-1, 1);
    static double const sc[] = {1, 1, 10, 1e3, 1e6, 1e-3, 1e-6, 1e12};
    return m * sc[s.below(8)];
}
static void prop(Src &s, Ctx &ctx) {
    int n = (int)s.size(1, 6, 100, 400), inits = (int)s.range(1, 4);
    adevs::spline sp(n);
    std::vector<std::unique_ptr<adevs::spline>> one;
    for (int i = 0; i < n; i++) one.emplace_back(new adevs::spline(1));
    bool again = false, inner = false, cubic_case = false, zero_slope = false;
    for (int k = 0; k < inits; k++) {
        static double const hs[] = {1, 0.5, 1e-3, 1e-6, 1e3, 1e6, 1e-9, 3};
        double h = hs[s.below(8)] * (s.coin() ? 1.0 : 0.1 + s.real(0, 1));
        std::vector<double> q0(n), d0(n), qh(n), dh(n);
        std::vector<Cubic> want(n);
        std::vector<L> scale(n);
        for (int i = 0; i < n; i++) {
            bool poly = s.coin();
            if (poly) {  // a cubic given by its coefficients over [0,h]
                Cubic p{num(s) / ((L)h * h * h), num(s) / ((L)h * h), num(s) / (L)h, num(s)};
                q0[i] = (double)p.d;
                d0[i] = (double)p.c;
                qh[i] = (double)p.at(h);
                dh[i] = (double)p.slope(h);
                cubic_case = true;
            } else {
                q0[i] = num(s);
                d0[i] = num(s) / (s.coin() ? h : 1.0);
                qh[i] = num(s);
                dh[i] = num(s) / (s.coin() ? h : 1.0);
            }
            if (d0[i] == 0 && dh[i] == 0) zero_slope = true;
            // the Hermite form
            L D = ((L)qh[i] - q0[i]) / h;
            Cubic w;
            w.d = q0[i];
            w.c = d0[i];
            w.b = (3 * D - 2 * (L)d0[i] - dh[i]) / h;
            w.a = ((L)d0[i] + dh[i] - 2 * D) / ((L)h * h);
            want[i] = w;
            scale[i] = fabsl(q0[i]) + fabsl(qh[i]) + (fabsl(d0[i]) + fabsl(dh[i])) * h;
        }
        NOTE(ctx, "h = " << h);
        for (int i = 0; i < n; i++)
            NOTE(ctx, "  var " << i << ": q0 " << q0[i] << " dq0 " << d0[i] << " qh " << qh[i] << " dqh " << dh[i]);
        auto a0 = q0, a1 = d0, a2 = qh, a3 = dh;
        sp.init(q0.data(), d0.data(), qh.data(), dh.data(), h);
        for (int i = 0; i < n; i++) one[i]->init(&q0[i], &d0[i], &qh[i], &dh[i], h);
        CHECK(a0 == q0 && a1 == d0 && a2 == qh && a3 == dh, "init() changes its arguments");
        if (k > 0) again = true;
        int ev = (int)s.range(1, 8);
        for (int e = 0; e < ev; e++) {
            int w = s.weighted({2, 2, 5, 1});
            double t = w == 0 ? 0.0 : w == 1 ? h : w == 2 ? h * s.real(0, 1) : h / 2;
            if (t > 0 && t < h) inner = true;
            std::vector<double> q(n, 1e300);
            sp.interpolate(q.data(), t);
            NOTE(ctx, "  at " << t);
            for (int i = 0; i < n; i++) {
                L x = t == h ? (L)qh[i] : want[i].at(t);
                L tol = 64 * 2.3e-16L * scale[i];
                CHECK(fabsl(q[i] - x) <= tol, "variable " << i << " at " << t << " of " << h << " is " << q[i] << ", not "
                                                         << (double)x << " (tolerance " << (double)tol << ")");
                double r = 0;
                one[i]->interpolate(&r, t);
                CHECK(fabsl((L)q[i] - r) <= tol, "variable " << i << " depends on the others: " << q[i] << " and alone " << r);
            }
            if (w == 0 || w == 1) {  // the slope there, by a symmetric difference of a cubic: exact up to its third order term
                double dt = h / 64;
                std::vector<double> p(n), m(n);
                sp.interpolate(p.data(), t + dt);
                sp.interpolate(m.data(), t - dt);
                for (int i = 0; i < n; i++) {
                    L g = ((L)p[i] - m[i]) / (2 * (L)dt) - want[i].a * dt * dt;
                    L x = w == 0 ? d0[i] : dh[i];
                    CHECK(fabsl(g - x) <= 64 * 64 * 2.3e-16L * 4 * scale[i] / h,
                          "the slope of variable " << i << " at " << t << " is " << (double)g << ", not " << (double)x);
                }
            }
        }
    }
    ctx.nontrivial(inner && n >= 2);
    if (n > 20) ctx.label("many variables");
    if (again) ctx.label("used again");
    if (cubic_case) ctx.label("samples of a cubic");
    if (zero_slope) ctx.label("flat ends");
}
PBT_MAIN(prop)
