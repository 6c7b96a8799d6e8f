// C11: order and arithmetic laws of super-dense time.
#include <cmath>
#include <limits>
#include <sstream>
#include "adevs/adevs.h"
#include "pbt.h"
using pbt::Ctx;
using pbt::Src;

template <class B>
static B real_of(Src &s, bool wide) {
    // magnitudes so different that sums round or absorb the smaller number
    if (wide) return (B)std::ldexp(s.real(-1, 1), (int)s.range(-70, 80));
    int c = s.weighted({3, 4, 3, 2, 1});
    long n = c == 0 ? 0 : c == 1 ? s.range(0, 4) : c == 2 ? s.range(0, 400) : c == 3 ? s.range(0, 1000000) : s.range(0, 1L << 40);
    if (std::is_same<B, int>::value) n %= 100000000;
    if (std::is_same<B, float>::value) n %= 1000000;
    if (s.chance(1, 4)) n = -n;
    return std::is_integral<B>::value ? (B)n : (B)((B)n * (B)0.25);
}
template <class B>
static void run(Src &s, Ctx &ctx, char const* name) {
    using T = adevs::sd_time<B>;
    bool const wide_real = std::is_floating_point<B>::value && s.chance(1, 3);
    auto gen = [&](T const* near) {
        if (near && s.chance(1, 2)) {  // close to another one
            B r = near->real();
            int k = (int)near->integer();
            if (s.coin()) r = r + (B)s.range(-1, 1);
            return T(r, k + (int)s.range(-1, 1));
        }
        B r = real_of<B>(s, wide_real);
        return T(r, s.chance(1, 3) ? 0 : (int)s.range(-3, 6) * (s.chance(1, 6) ? 100000 : 1));
    };
    T a = gen(nullptr), b = gen(&a), h = gen(nullptr);
    B ar = a.real(), br = b.real(), hr = h.real();
    int ak = (int)a.integer(), bk = (int)b.integer(), hk = (int)h.integer();
    T const zero = adevs_zero<T>(), eps = adevs_epsilon<T>(), inf = adevs_inf<T>(), sen = adevs_sentinel<T>();
    NOTE(ctx, name << " a=(" << (double)ar << "," << ak << ") b=(" << (double)br << "," << bk << ") h=(" << (double)hr << "," << hk << ")");
    // order
    int c = ar < br ? -1 : ar > br ? 1 : ak < bk ? -1 : ak > bk ? 1 : 0;
    CHECK((a == b) == (c == 0), "== is not the lexicographic order");
    CHECK((a != b) == (c != 0), "!= is not the lexicographic order");
    CHECK((a < b) == (c < 0), "< is not the lexicographic order");
    CHECK((a <= b) == (c <= 0), "<= is not the lexicographic order");
    CHECK((a > b) == (c > 0), "> is not the lexicographic order");
    CHECK((a >= b) == (c >= 0), ">= is not the lexicographic order");
    CHECK(a == a && a <= a && a >= a && !(a < a) && !(a > a) && !(a != a), "a time is not equal to itself");
    // advance
    auto same = [](T const &x, B r, int k) { return x.real() == r && (int)x.integer() == k; };
    T sum = a + h;
    if (ar + hr == ar)
        CHECK(same(sum, ar, ak + hk), "advancing by an interval that does not change the real part");
    else
        CHECK(same(sum, ar + hr, hk), "advancing by an interval that changes the real part");
    if (hr >= 0 && hk >= 0) CHECK(sum >= a, "advancing goes back in time");
    CHECK(same(a, ar, ak) && same(h, hr, hk), "+ changes its operands");
    T x(a);
    T const &ref = (x += h);
    CHECK(x == sum && &ref == &x, "+= differs from +");
    // interval
    T d = a - b;
    if (ar == br)
        CHECK(same(d, 0, ak - bk), "interval within one real time");
    else
        CHECK(same(d, ar - br, ak), "interval between different real times");
    CHECK(same(a, ar, ak) && same(b, br, bk), "- changes its operands");
    T y(a);
    T const &ref2 = (y -= b);
    CHECK(y == d && &ref2 == &y, "-= differs from -");
    // laws that rounding can break hold whenever the sums are exact
    bool const ab_exact = br + (ar - br) == ar && ar + (br - ar) == br && (ar - br != 0 || ar == br);
    bool const ah_exact = (ar + hr) - ar == hr;
    if (ab_exact) CHECK(b + (a - b) == a, "the interval does not lead from the first time to the second");
    if (ab_exact) CHECK(a + (b - a) == b, "the interval does not lead from the second time to the first");
    if (ah_exact) CHECK((a + h) - a == h, "the interval between a time and its advance is not the interval advanced by");
    {  // operands that are the same object
        T z(h);
        z += z;
        CHECK(z == h + h, "z += z differs from h + h");
        z = h;
        z -= z;
        CHECK(same(z, 0, 0), "z -= z is not zero");
        T u(b);
        u = h;
        u = *&u;
        CHECK(u == h, "assignment");
    }
    // constants
    CHECK(same(T(), 0, 0) && T() == zero, "default and zero");
    CHECK(a + zero == a && zero + a == a && a - zero == a && a - a == zero, "zero is not the identity");
    CHECK(zero < eps && !(zero < a && a < eps), "epsilon is not the least positive interval");
    CHECK(a < a + eps && !(a < b && b < a + eps), "advancing by epsilon is not the next time");
    CHECK(a < inf && inf > a && a != inf && inf == inf && a <= inf, "infinity is not above every time");
    if (a >= zero) CHECK(sen < a && sen != a, "the sentinel is not below every time");
    CHECK(sen < zero && sen < eps && sen < inf, "the sentinel is not below zero");
    if (h > zero && (hr == 0 || ar + hr > ar)) CHECK(a + h > a, "a positive interval does not advance time");
    if (hr > 0 && c < 0 && bk >= 0) CHECK(a + h <= b + h, "advancing does not keep the order");
    // printing
    bool wide = s.coin();
    std::ostringstream o;
    if (wide || !((double)ar < 100000 && (double)ar > -100000 && (double)br < 100000 && (double)br > -100000)) o.precision(std::numeric_limits<B>::max_digits10);
    o.precision(wide ? std::numeric_limits<long double>::max_digits10 : std::max<long>(o.precision(), 17));
    o << a;
    bool space = s.coin();
    if (space) o << " ";
    o << b << h;
    std::istringstream i(o.str());
    T ra(T(77, 77)), rb(T(77, 77)), rh(T(77, 77));
    i >> ra >> rb >> rh;
    CHECK(!i.fail(), "reading " << o.str() << " fails");
    CHECK(ra == a && rb == b && rh == h, "reading " << o.str() << " yields other times");
    ctx.nontrivial(hr != 0 || ar != br);
    if (c == 0) ctx.label("equal");
    if (ar == br && ak != bk) ctx.label("equal real part, different integer part");
    if (hr == 0 && hk != 0) ctx.label("advance within one real time");
    if (hr != 0 && ar + hr == ar) ctx.label("step absorbed by the real part");
    if (ar < 0 || br < 0) ctx.label("negative real part");
}
static void prop(Src &s, Ctx &ctx) {
    switch (s.below(3)) {
        case 0: return run<double>(s, ctx, "double");
        case 1: return run<int>(s, ctx, "int");
        default: return run<long>(s, ctx, "long");
    }
}
PBT_MAIN(prop)
