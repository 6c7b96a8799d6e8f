// C12: tolerance compared time against its rule.
#include <cfloat>
#include "adevs/adevs.h"
#include "pbt.h"
using pbt::Ctx;
using pbt::Src;
using F = adevs::double_fcmp;
double F::epsilon = 0;

static double value(Src &s) {
    double v;
    switch (s.weighted({1, 4, 4, 3, 1, 1})) {
        case 0: v = 0; break;
        case 1: v = (double)s.range(0, 64) * 0.25; break;
        case 2: v = ldexp(1.0, (int)s.range(-60, 60)); break;
        case 3: v = ldexp(1.0 + s.real(0, 1), (int)s.range(-200, 200)); break;
        case 4: v = s.of<double>({DBL_MAX, DBL_MIN, DBL_MIN / 1024, 4.9e-324, 1e300, DBL_MAX / 2}); break;
        default: v = (double)s.range(0, 1L << 53);
    }
    return s.chance(1, 4) ? -v : v;
}
// 1 greater, -1 less, 0 equal, 2 too close to the edge to tell
static int rule(double a, double b, double eps) {
    if (a == b) return 0;
    int e;
    double big = fabs(a) > fabs(b) ? fabs(a) : fabs(b);
    frexp(big, &e);
    long double delta = ldexpl((long double)eps, e), diff = (long double)a - (long double)b;
    long double m = fabsl(diff) > delta ? fabsl(diff) : delta;
    if (big < 1e-290 && eps != 0) return 2;
    if (eps != 0 && fabsl(fabsl(diff) - delta) <= 1e-14L * m + 2.3e-16L * big * (fabsl(diff) > 0.5L * big ? 1 : 0)) return 2;
    if (diff > delta) return 1;
    if (diff < -delta) return -1;
    return 0;
}
static void prop(Src &s, Ctx &ctx) {
    double eps = s.of<double>({0.0, 1e-9, 1e-12, 1e-3, 0.05, DBL_EPSILON, 0.125, 1e-15});
    F::epsilon = eps;
    double a = value(s), b;
    switch (s.weighted({2, 5, 1, 1})) {
        case 0: b = value(s); break;
        case 1: {  // around the edge of the neighbourhood
            int e;
            frexp(a, &e);
            double f = s.of<double>({1.0, 0.5, 0.9, 1.1, 2.0, 0.99, 1.01, 0.999999, 1.000001, 0.25, 4.0});
            double d = ldexp(eps, e) * f;
            b = s.coin() ? a + d : a - d;
            break;
        }
        case 2: b = s.coin() ? a : -a; break;
        default: b = nextafter(a, s.coin() ? 1e300 : -1e300);
    }
    if (!std::isfinite(b)) b = a;
    F x(a), y(b);
    int r = F::fcmp(a, b, eps), q = F::fcmp(b, a, eps);
    NOTE(ctx, std::hexfloat << "a=" << a << " b=" << b << std::defaultfloat << " (" << a << ", " << b << ") tolerance " << eps << ": " << r);
    CHECK(r == 1 || r == 0 || r == -1, "fcmp returns " << r);
    CHECK(r == -q, "comparison is not antisymmetric: " << r << " and " << q << " for " << a << ", " << b);
    CHECK(F::fcmp(a, a, eps) == 0 && x == x && !(x < x) && !(x > x) && x <= x && x >= x, "a time is not equal to itself");
    int w = rule(a, b, eps);
    if (w != 2) CHECK(r == w, "comparing " << a << " with " << b << " under tolerance " << eps << " gives " << r << ", the rule gives " << w);
    if (eps == 0) CHECK(r == (a > b ? 1 : a < b ? -1 : 0), "zero tolerance is not exact comparison");
    CHECK((x == y) == (r == 0), "== disagrees with fcmp");
    CHECK((x < y) == (r < 0), "< disagrees with fcmp");
    CHECK((x > y) == (r > 0), "> disagrees with fcmp");
    CHECK((x <= y) == (r <= 0), "<= disagrees with fcmp");
    CHECK((x >= y) == (r >= 0), ">= disagrees with fcmp");
    CHECK((x < b) == (r < 0), "< with a plain number disagrees with fcmp");
    CHECK((x == b) == (r == 0), "== with a plain number disagrees with fcmp");
    CHECK((x != y) == (r != 0), "!= disagrees with ==");
    CHECK((x != b) == (r != 0), "!= with a plain number disagrees with ==");
    // arithmetic is that of the values
    auto same = [](F f, double v) { double d = f; return d == v || (d != d && v != v); };
    CHECK(same(x + y, a + b) && same(x - y, a - b), "sum or difference is not that of the values");
    F z(x);
    F const &zr = (z += y);
    CHECK(same(z, a + b) && &zr == &z, "+= is not +");
    z = x;
    F const &zs = (z -= y);
    CHECK(same(z, a - b) && &zs == &z, "-= is not -");
    z = b;
    CHECK(same(z, b) && same(F(), 0) && same(x, a) && same(y, b), "assignment or conversion changes the value");
    CHECK(F::epsilon == eps, "the tolerance changes");
    // the same decision with other tolerances passed directly
    double e2 = s.of<double>({0.0, 1e-6, 0.05, 1e-13});
    int w2 = rule(a, b, e2), r2 = F::fcmp(a, b, e2);
    if (w2 != 2) CHECK(r2 == w2, "comparing " << a << " with " << b << " under tolerance " << e2 << " gives " << r2 << ", the rule gives " << w2);
    ctx.nontrivial(a != b && eps != 0);
    if (r == 0 && a != b) ctx.label("equal within the tolerance");
    if (r != 0 && eps != 0 && w != 2 && fabs(a - b) < 1e-2 * std::max(fabs(a), fabs(b))) ctx.label("close but different");
    if (w == 2) ctx.label("on the edge: only consistency is judged");
    if (a < 0 || b < 0) ctx.label("negative");
    if (eps == 0) ctx.label("zero tolerance");
}
PBT_MAIN(prop)
