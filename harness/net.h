// Generated networks of atomic models, a reference simulator for them written
// from the documented algorithm, and the adapters that run the same network
// on adevs and record everything its models observe.
#ifndef NET_H
#define NET_H
#include <algorithm>
#include <cmath>
#include <cstring>
#include <any>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "adevs/adevs.h"
#include "pbt.h"

using pbt::Ctx;
using pbt::Src;

// The values that models send. A value that was moved from can be told, as it
// could with strings, containers or std::any.
struct Val {
    long v;
    Val(long v = 0) : v(v) {}
    Val(Val const &x) : v(x.v) {}
    Val(Val &&x) : v(x.v) { x.v = -0x6d6f766564; }
    Val &operator=(Val const &x) {
        v = x.v;
        return *this;
    }
    Val &operator=(Val &&x) {
        long n = x.v;
        x.v = -0x6d6f766564;
        v = n;
        return *this;
    }
    operator long() const { return v; }
};

// ------------------------------------------------------------ reference time
// Time of the reference: n quanta, k logical ticks (super dense time only).
// A quantum is 1/4 for real valued time types and 1 for integers.
// With -DROUND it is 1/10, and the reference calculates as the real type does:
// sums and differences are rounded, and a small step can be absorbed.
#ifdef ROUND
typedef ROUND Num;
constexpr Num quantum = (Num)0.1L;
#else
typedef long Num;
constexpr Num quantum = 1;
#endif
struct RT {
    Num n = 0;
    long k = 0;
    bool inf = false;
};
inline RT raw(Num n, long k = 0) {
    RT r;
    r.n = n;
    r.k = k;
    return r;
}
inline RT rt(long n, long k = 0) { return raw(n * quantum, k); }
inline RT rinf() {
    RT r;
    r.inf = true;
    return r;
}
inline bool operator==(RT const &a, RT const &b) {
    return a.inf == b.inf && (a.inf || (a.n == b.n && a.k == b.k));
}
inline bool operator!=(RT const &a, RT const &b) { return !(a == b); }
inline bool operator<(RT const &a, RT const &b) {
    if (a.inf) return false;
    if (b.inf) return true;
    return a.n < b.n || (a.n == b.n && a.k < b.k);
}
inline RT radd(RT a, RT b) {
    if (a.inf || b.inf) return rinf();
    return a.n + b.n == a.n ? raw(a.n, a.k + b.k) : raw(a.n + b.n, b.k);
}
inline RT rsub(RT a, RT b) { return a.n == b.n ? raw(0, a.k - b.k) : raw(a.n - b.n, a.k); }
inline std::ostream &operator<<(std::ostream &o, RT const &t) {
    if (t.inf) return o << "inf";
    o << t.n << "q";
    if (t.k) o << "+" << t.k << "k";
    return o;
}

template <class T>
struct Conv;
#ifdef ROUND
template <class T>
struct RealConv {
    static constexpr bool sd = false;
    static T to(RT t) { return t.inf ? adevs_inf<T>() : T(t.n); }
    static RT from(T t) { return t == adevs_inf<T>() ? rinf() : raw((Num)t); }
};
#else
template <class T>
struct RealConv {
    static constexpr bool sd = false;
    static T to(RT t) { return t.inf ? adevs_inf<T>() : T((double)t.n * 0.25); }
    static RT from(T t) {
        T x = t;
        if (x == adevs_inf<T>()) return rinf();
        double d = (double)x * 4.0;
        long n = std::lround(d);
        // a value off the grid can never be right; make it compare different
        if ((double)n != d) return rt(n, 777777);
        return rt(n);
    }
};
#endif
template <>
struct Conv<double> : RealConv<double> {};
template <>
struct Conv<float> : RealConv<float> {};
template <>
struct Conv<long double> : RealConv<long double> {};
#ifdef TENTHS
// Tenths cannot be represented, but the tolerance hides what was rounded: the
// reference calculates exactly, and results are the same.
template <>
struct Conv<adevs::double_fcmp> {
    static constexpr bool sd = false;
    static adevs::double_fcmp to(RT t) { return t.inf ? adevs_inf<adevs::double_fcmp>() : adevs::double_fcmp((double)t.n * 0.1); }
    static RT from(adevs::double_fcmp t) {
        double d = (double)t * 10;
        if (d > 1e300) return rinf();
        long n = std::lround(d);
        return std::fabs(n - d) < 1e-8 ? rt(n) : rt(n, 777777);
    }
};
#else
template <>
struct Conv<adevs::double_fcmp> : RealConv<adevs::double_fcmp> {};
#endif
template <class T>
struct IntConv {
    static constexpr bool sd = false;
    static T to(RT t) { return t.inf ? adevs_inf<T>() : (T)t.n; }
    static RT from(T t) { return t == adevs_inf<T>() ? rinf() : rt((long)t); }
};
template <>
struct Conv<int> : IntConv<int> {};
template <>
struct Conv<long> : IntConv<long> {};
template <class B>
struct SdConv {
    using T = adevs::sd_time<B>;
    static constexpr bool sd = true;
    static T to(RT t) {
        return t.inf ? adevs_inf<T>() : T(Conv<B>::to(raw(t.n)), (int)t.k);
    }
    static RT from(T t) {
        if (t.real() == std::numeric_limits<B>::max()) return rinf();
        RT r = Conv<B>::from(t.real());
        r.k += (long)t.integer();
        return r;
    }
};
template <>
struct Conv<adevs::sd_time<double>> : SdConv<double> {};
template <>
struct Conv<adevs::sd_time<int>> : SdConv<int> {};
template <>
struct Conv<adevs::sd_time<long>> : SdConv<long> {};

// ------------------------------------------------------------ model behaviour
typedef std::vector<std::pair<int, long>> Bag;  // (pin index, value), sorted

struct Spec {
    bool mealy = false;
    int ns = 1;
    RT ta[4];
    std::vector<int> outs[4];   // pins written by the (internal) output function
    int nint[4] = {0, 0, 0, 0};
    int next[4] = {0, 0, 0, 0};
    std::vector<int> mext[4], mconf[4];
    int mmode = 0;
    std::set<int> pins() const {
        std::set<int> p;
        for (int s = 0; s < ns; s++) {
            for (int x : outs[s]) p.insert(x);
            for (int x : mext[s]) p.insert(x);
            for (int x : mconf[s]) p.insert(x);
        }
        return p;
    }
};
struct State {
    int s = 0;
    uint64_t acc = 0;
};
inline bool operator==(State const &a, State const &b) { return a.s == b.s && a.acc == b.acc; }

inline uint64_t bag_hash(Bag const &b) {
    uint64_t h = b.size();
    for (auto const &x : b) h += pbt::mix(x.first + 1, (uint64_t)x.second);
    return h;
}
inline uint64_t bits(long n) { return (uint64_t)n; }
inline uint64_t bits(double n) {
    uint64_t b;
    memcpy(&b, &n, sizeof b);
    return b;
}
inline uint64_t time_hash(RT e) { return pbt::mix(bits(e.n), (uint64_t)e.k + (e.inf ? 99 : 0)); }
inline void f_int(Spec const &p, State &q) {
    q.acc = pbt::mix(q.acc, 1);
    q.s = p.nint[q.s];
}
inline void f_ext(Spec const &p, State &q, RT e, Bag const &b) {
    q.acc = pbt::mix(pbt::mix(q.acc, 2), pbt::mix(time_hash(e), bag_hash(b)));
    q.s = (p.next[q.s] + (int)(bag_hash(b) & 1)) % p.ns;
}
inline void f_conf(Spec const &p, State &q, Bag const &b) {
    q.acc = pbt::mix(pbt::mix(q.acc, 3), bag_hash(b));
    q.s = (p.next[q.s] + p.nint[q.s] + (int)(bag_hash(b) & 1)) % p.ns;
}
inline Bag out_moore(Spec const &p, State const &q) {
    Bag y;
    for (size_t j = 0; j < p.outs[q.s].size(); j++)
        y.push_back({p.outs[q.s][j], (long)(pbt::mix(q.acc, 10 + j) >> 40)});
    return y;
}
// kind: 0 internal 1 external 2 confluent
inline Bag out_mealy(Spec const &p, State const &q, int kind, RT e, Bag const &b) {
    Bag y;
    if (kind == 0) return out_moore(p, q);
    std::vector<int> const &o = kind == 1 ? p.mext[q.s] : p.mconf[q.s];
    uint64_t h = bag_hash(b);
    size_t n = o.size();
    if (p.mmode == 1 && (h & 1)) n = 0;           // silent for some inputs
    if (p.mmode == 2 && b.size() < 2) n = 0;      // silent until a second input
    if (p.mmode == 3 && b.size() >= 2) n = 0;     // silent after a second input
    if (p.mmode == 4) n = std::min(n, b.size());  // one output per input
    for (size_t j = 0; j < n; j++) {
        int pin = o[j];
        if (p.mmode == 5) pin = o[(j + h) % o.size()];  // pin depends on input
        y.push_back({pin, (long)(pbt::mix(pbt::mix(q.acc, 20 + j + kind),
                                          pbt::mix(kind == 1 ? time_hash(e) : 5, h)) >>
                                 40)});
    }
    return y;
}

// ------------------------------------------------------------ network
struct Net {
    int npins = 0;
    std::vector<Spec> models;
    std::map<std::pair<int, int>, int> pp, pm;  // edges with instance counts
    std::vector<int> count;                     // instances of each model

    std::vector<std::pair<int, int>> route(int pin) const {  // (last pin, model) per path
        std::vector<std::pair<int, int>> r;
        route(pin, r);
        return r;
    }
    void route(int pin, std::vector<std::pair<int, int>> &r) const {
        for (auto i = pm.lower_bound({pin, -1}); i != pm.end() && i->first.first == pin; i++)
            r.push_back({pin, i->first.second});
        for (auto i = pp.lower_bound({pin, -1}); i != pp.end() && i->first.first == pin; i++)
            route(i->first.second, r);
    }
    bool pin_reaches(int a, int b) const {
        if (a == b) return true;
        for (auto i = pp.lower_bound({a, -1}); i != pp.end() && i->first.first == a; i++)
            if (pin_reaches(i->first.second, b)) return true;
        return false;
    }
    long paths(int pin) const {
        std::vector<long> memo(npins, -1);
        return paths(pin, memo);
    }
    long paths(int pin, std::vector<long> &memo) const {
        if (memo[pin] >= 0) return memo[pin];
        long c = 0;
        for (auto i = pm.lower_bound({pin, -1}); i != pm.end() && i->first.first == pin; i++) c++;
        for (auto i = pp.lower_bound({pin, -1}); i != pp.end() && i->first.first == pin; i++)
            c += paths(i->first.second, memo);
        return memo[pin] = c;
    }
    // Mealy models that can receive directly what model m may send
    std::set<int> mealy_successors(int m) const {
        std::set<int> s;
        for (int p : models[m].pins())
            for (auto const &x : route(p))
                if (models[x.second].mealy) s.insert(x.second);
        return s;
    }
    // Topological order of the Mealy models; empty optional when cyclic
    bool mealy_order(std::vector<int> &order) const {
        int n = (int)models.size();
        std::vector<int> mark(n, 0);
        order.clear();
        bool ok = true;
        std::function<void(int)> dfs = [&](int m) {
            mark[m] = 1;
            for (int s : mealy_successors(m)) {
                if (mark[s] == 1) ok = false;
                if (mark[s] == 0) dfs(s);
            }
            mark[m] = 2;
            order.push_back(m);
        };
        for (int i = 0; i < n; i++)
            if (models[i].mealy && mark[i] == 0) dfs(i);
        std::reverse(order.begin(), order.end());
        return ok;
    }
    // Worst case number of paths in the graph of Mealy models from each model
    long mealy_paths() const {
        std::vector<int> order;
        if (!mealy_order(order)) return -1;
        std::map<int, long> c;
        long mx = 0;
        for (auto i = order.rbegin(); i != order.rend(); i++) {
            long t = 1;
            for (int s : mealy_successors(*i)) t += c[s];
            c[*i] = t;
            mx = std::max(mx, t);
        }
        return mx;
    }
};

inline std::string show(Bag const &b) {
    std::ostringstream o;
    o << "{";
    for (auto const &x : b) o << " p" << x.first << "=" << x.second;
    o << " }";
    return o.str();
}
inline std::string show(Net const &n) {
    std::ostringstream o;
    o << n.models.size() << " models, " << n.npins << " pins\n";
    for (size_t i = 0; i < n.models.size() && i < 12; i++) {
        Spec const &m = n.models[i];
        o << "  m" << i << (m.mealy ? " mealy" : " moore");
        if (m.mealy) o << " mode " << m.mmode;
        for (int s = 0; s < m.ns; s++) {
            o << " | s" << s << " ta=" << m.ta[s] << " int->s" << m.nint[s] << " ext->s" << m.next[s]
              << " out:";
            for (int p : m.outs[s]) o << " p" << p;
            if (m.mealy) {
                o << " ext:";
                for (int p : m.mext[s]) o << " p" << p;
                o << " conf:";
                for (int p : m.mconf[s]) o << " p" << p;
            }
        }
        o << "\n";
    }
    o << "  edges:";
    int c = 0;
    for (auto const &e : n.pp)
        if (c++ < 40) o << " p" << e.first.first << "->p" << e.first.second << "x" << e.second;
    for (auto const &e : n.pm)
        if (c++ < 80) o << " p" << e.first.first << "->m" << e.first.second << "x" << e.second;
    return o.str();
}

struct GenOpt {
    int max_models = 7;
    int max_pins = 7;
    int mealy_num = 0, mealy_den = 1;  // fraction of Mealy models
    bool sd = false;                   // super dense time advances
    bool allow_mealy_loops = false;
    int zero_weight = 2;
    bool dense = false;
};

inline RT gen_ta(Src &s, GenOpt const &g) {
#ifdef ROUND
    if (s.chance(1, 6)) return raw(s.of<Num>({(Num)1e-30, (Num)1e-9, (Num)1e-16, (Num)1 / 3, (Num)1e5, (Num)0.7}));
#endif
    switch (s.weighted({3, g.zero_weight, 4, 2, 2})) {
        case 0:
            return rinf();
        case 1:
            return g.sd && s.chance(1, 2) ? rt(0, (long)s.range(1, 3)) : rt(0);
        case 2:
            return g.sd && s.chance(1, 4) ? rt(s.range(1, 4), s.range(0, 2)) : rt(s.range(1, 4));
        case 3:
            return rt(4 * s.range(1, 3));
        default:
            return rt(s.range(1, 40));
    }
}
inline std::vector<int> gen_outs(Src &s, Net const &n, int hi) {
    std::vector<int> o;
    if (n.npins == 0) return o;
    int c = (int)s.range(0, hi);
    for (int i = 0; i < c; i++) o.push_back((int)s.below(n.npins));
    return o;
}
inline Spec gen_spec(Src &s, Net const &n, GenOpt const &g) {
    Spec m;
    m.mealy = s.chance(g.mealy_num, g.mealy_den);
    m.ns = (int)s.range(1, 3);
    for (int i = 0; i < m.ns; i++) {
        m.ta[i] = gen_ta(s, g);
        m.outs[i] = gen_outs(s, n, 2);
        m.nint[i] = (int)s.below(m.ns);
        m.next[i] = (int)s.below(m.ns);
        if (m.mealy) {
            m.mext[i] = gen_outs(s, n, 2);
            m.mconf[i] = gen_outs(s, n, 2);
        }
    }
    if (m.mealy) m.mmode = (int)s.range(0, 5);
    return m;
}
inline bool net_ok(Net const &n, GenOpt const &g, int pin) {
    (void)pin;
    for (int p = 0; p < n.npins; p++)
        if (n.paths(p) > 48) return false;
    if (g.mealy_num > 0 && !g.allow_mealy_loops) {
        long c = n.mealy_paths();
        if (c < 0 || c > 40) return false;
    }
    return true;
}
inline Net gen_net(Src &s, GenOpt const &g) {
    Net n;
    n.npins = (int)s.range(1, g.max_pins);
    int nm = (int)s.range(1, g.max_models);
    for (int i = 0; i < nm; i++) {
        n.models.push_back(gen_spec(s, n, g));
        n.count.push_back(1);
    }
    int ne = (int)s.range(0, g.dense ? 3 * (nm + n.npins) : 2 * nm + n.npins / 2 + 1);
    for (int i = 0; i < ne; i++) {
        if (s.chance(2, 3) || n.npins < 2) {  // pin to model is the complex choice
            std::pair<int, int> e((int)s.below(n.npins), (int)s.below(nm));
            n.pm[e]++;
            if (!net_ok(n, g, e.first) && --n.pm[e] == 0) n.pm.erase(e);
        } else {
            int a = (int)s.below(n.npins - 1), b = (int)s.range(a + 1, n.npins - 1);
            std::pair<int, int> e(a, b);
            n.pp[e]++;
            if (!net_ok(n, g, a) && --n.pp[e] == 0) n.pp.erase(e);
        }
    }
    return n;
}
// A network whose Mealy models form layers with reconvergent paths
inline Net gen_mealy_net(Src &s, GenOpt const &g) {
    Net n;
    int nm = (int)s.range(2, 6), no = (int)s.range(1, 3);
    n.npins = 2 * nm + 2;
    std::vector<int> ord = s.perm(nm + no);  // position -> model index
    n.models.resize(nm + no);
    n.count.assign(nm + no, 1);
    auto outs = [&](int i, int hi) {
        std::vector<int> o;
        int c = (int)s.range(0, hi);
        for (int k = 0; k < c; k++) o.push_back(s.chance(1, 8) ? (int)s.range(2 * i, n.npins - 1) : 2 * i + (int)s.below(2));
        return o;
    };
    for (int i = 0; i < nm + no; i++) {
        Spec m;
        m.mealy = i < nm;
        m.ns = (int)s.range(1, 2);
        for (int q = 0; q < m.ns; q++) {
            m.ta[q] = gen_ta(s, g);
            m.nint[q] = (int)s.below(m.ns);
            m.next[q] = (int)s.below(m.ns);
            if (m.mealy) {
                m.outs[q] = outs(i, 2);
                m.mext[q] = outs(i, 2);
                m.mconf[q] = outs(i, 2);
                if (m.mext[q].empty() && s.chance(2, 3)) m.mext[q].push_back(2 * i);
            } else
                m.outs[q] = gen_outs(s, n, 3);
        }
        if (m.mealy) m.mmode = s.coin() ? 0 : (int)s.range(1, 5);
        n.models[ord[i]] = m;
    }
    int ne = (int)s.range(1, 3 * nm + 3);
    for (int k = 0; k < ne; k++) {
        int p = (int)s.below(n.npins);
        std::pair<int, int> e;
        if (s.chance(1, 6) && p + 1 < n.npins) {
            e = {p, (int)s.range(p + 1, n.npins - 1)};
            n.pp[e]++;
            if (!net_ok(n, g, p) && --n.pp[e] == 0) n.pp.erase(e);
        } else {
            int lo = std::min(p / 2 + 1, nm);
            int d = s.chance(1, 4) ? (int)s.range(nm, nm + no - 1) : (int)s.range(std::min(lo, nm + no - 1), std::min(lo + 2, nm + no - 1));
            e = {p, ord[d]};
            n.pm[e]++;
            if (!net_ok(n, g, p) && --n.pm[e] == 0) n.pm.erase(e);
        }
    }
    return n;
}
// A long chain of Mealy models, each driving the next, with an ordinary model
// at its end, and models here and there that begin by themselves
inline Net gen_mealy_chain(Src &s, int len, bool always) {
    Net n;
    n.npins = len + 1;
    std::vector<int> ord = s.perm(len + 1);
    n.models.resize(len + 1);
    n.count.assign(len + 1, 1);
    int starts = (int)s.range(0, 3);
    for (int i = 0; i <= len; i++) {
        Spec m;
        m.mealy = i < len;
        m.ns = 1;
        m.ta[0] = rinf();
        if (m.mealy) {
            m.outs[0] = m.mext[0] = m.mconf[0] = {i};
            m.mmode = always || i % 3 == 0 ? 0 : i % 3 == 1 ? 4 : 5;
            n.pm[{i, ord[i + 1]}] = 1;
        }
        n.models[ord[i]] = m;
    }
    n.pm[{len, ord[0]}] = 1;  // an entry
    for (; starts > 0; starts--) n.models[ord[s.below(len)]].ta[0] = rt(s.range(1, 4));
    return n;
}
// A network of hundreds of models with many distinct event times and a few couplings
inline Net gen_big_net(Src &s, GenOpt const &g) {
    Net n;
    n.npins = 6;
    bool huge = s.chance(1, 30);
    int nm = huge ? (int)s.range(1000, 3000) : (int)s.range(90, 330);
    uint64_t h = s.below(1u << 30);
    int spread = huge ? (int)s.range(1, 3) : (int)s.range(1, 200);
    for (int i = 0; i < nm; i++) {
        Spec m;
        m.ns = 2;
        for (int q = 0; q < 2; q++) {
            uint64_t r = pbt::mix(h, i * 2 + q);
            m.ta[q] = r % 11 == 0 ? rinf() : rt((long)((r >> 8) % spread) + 1);
            m.nint[q] = (int)((r >> 30) & 1);
            m.next[q] = (int)((r >> 31) & 1);
            if ((r >> 40) % 5 == 0) m.outs[q].push_back((int)((r >> 45) % n.npins));
        }
        n.models.push_back(m);
        n.count.push_back(1);
    }
    for (int p = 0; p < n.npins; p++)
        for (int k = 0; k < 4; k++) n.pm[{p, (int)(pbt::mix(h, 1000 + p * 4 + k) % nm)}] = 1;
    (void)g;
    return n;
}

// ------------------------------------------------------------ structure changes
struct Op {
    enum Kind { ADD, REMOVE, CONNECT_PM, DISCONNECT_PM, CONNECT_PP, DISCONNECT_PP, REMOVE_PIN } kind;
    int a = 0, b = 0;  // model / pin,model / pin,pin / pin
};
inline std::ostream &operator<<(std::ostream &o, Op const &x) {
    switch (x.kind) {
        case Op::ADD: return o << "add m" << x.a;
        case Op::REMOVE: return o << "remove m" << x.a;
        case Op::CONNECT_PM: return o << "connect p" << x.a << "->m" << x.b;
        case Op::DISCONNECT_PM: return o << "disconnect p" << x.a << "->m" << x.b;
        case Op::CONNECT_PP: return o << "connect p" << x.a << "->p" << x.b;
        case Op::DISCONNECT_PP: return o << "disconnect p" << x.a << "->p" << x.b;
        default: return o << "remove p" << x.a;
    }
}
inline void less_one(std::map<std::pair<int, int>, int> &m, std::pair<int, int> e) {
    auto i = m.find(e);
    if (i != m.end() && --i->second == 0) m.erase(i);
}
// The effect of one operation on the multigraph
inline void apply(Net &n, Op const &x) {
    switch (x.kind) {
        case Op::ADD:
            n.count[x.a]++;
            break;
        case Op::REMOVE:
            if (--n.count[x.a] == 0)
                for (auto i = n.pm.begin(); i != n.pm.end();)
                    i = i->first.second == x.a ? n.pm.erase(i) : std::next(i);
            break;
        case Op::CONNECT_PM:
            n.pm[{x.a, x.b}]++;
            break;
        case Op::DISCONNECT_PM:
            less_one(n.pm, {x.a, x.b});
            break;
        case Op::CONNECT_PP:
            n.pp[{x.a, x.b}]++;
            break;
        case Op::DISCONNECT_PP:
            less_one(n.pp, {x.a, x.b});
            break;
        case Op::REMOVE_PIN: {
            std::vector<std::pair<int, int>> a, b;
            for (auto const &e : n.pm)
                if (e.first.first == x.a) a.push_back(e.first);
            for (auto const &e : n.pp)
                if (e.first.first == x.a || e.first.second == x.a) b.push_back(e.first);
            for (auto const &e : a) less_one(n.pm, e);
            for (auto const &e : b) less_one(n.pp, e);
        }
    }
}

// ------------------------------------------------------------ what models see
struct Rec {
    int m;
    char kind;  // 'i' 'e' 'c'
    RT e;
    Bag bag;
};
inline bool operator<(Rec const &a, Rec const &b) {
    return std::tie(a.m, a.kind, a.e.n, a.e.k, a.bag) < std::tie(b.m, b.kind, b.e.n, b.e.k, b.bag);
}
inline bool operator==(Rec const &a, Rec const &b) {
    return a.m == b.m && a.kind == b.kind && a.e == b.e && a.bag == b.bag;
}
inline std::string show(Rec const &r) {
    std::ostringstream o;
    o << "m" << r.m << (r.kind == 'i' ? " internal" : r.kind == 'e' ? " external" : " confluent");
    if (r.kind == 'e') o << " e=" << r.e;
    if (r.kind != 'i') o << " " << show(r.bag);
    return o.str();
}
inline std::string show(std::vector<Rec> const &v) {
    std::ostringstream o;
    for (auto const &r : v) o << "\n      " << show(r);
    if (v.empty()) o << " nothing";
    return o.str();
}

// ------------------------------------------------------------ reference simulator
struct RefSim {
    Net net;
    bool sd;
    std::vector<State> q;
    std::vector<RT> tL, tN;
    RT tNext;
    RT now;
    Bag ext;  // injected, in order
    std::function<void(RT)> at_end;
    std::vector<Op> pending;  // structure changes requested since the last cycle
    std::vector<int> forced_order;  // order of the Mealy models, when the structure does not give one
    struct Out {
        bool computed = false;
        std::vector<Bag> bag, out;
        std::vector<char> due;
    } cur;

    RefSim(Net const &n, bool sd) : net(n), sd(sd) {
        q.resize(n.models.size());
        for (size_t i = 0; i < q.size(); i++) q[i].acc = pbt::mix(i + 1);
        tL.assign(q.size(), rt(0));
        tN.assign(q.size(), rt(0));
        for (size_t i = 0; i < q.size(); i++) plan((int)i, rt(0));
        now = rt(0);
        tNext = min();
    }
    void plan(int m, RT t) {
        tL[m] = t;
        tN[m] = net.models[m].ta[q[m].s].inf ? rinf() : radd(t, net.models[m].ta[q[m].s]);
    }
    RT min() const {
        RT t = rinf();
        for (size_t i = 0; i < q.size(); i++)
            if (net.count[i] > 0 && tN[i] < t) t = tN[i];
        return t;
    }
    void send(Bag const &y) {
        for (auto const &v : y)
            for (auto const &d : net.route(v.first)) cur.bag[d.second].push_back({d.first, v.second});
    }
    void output() {
        int n = (int)q.size();
        cur.computed = true;
        cur.bag.assign(n, Bag());
        cur.out.assign(n, Bag());
        cur.due.assign(n, 0);
        send(ext);
        ext.clear();
        for (int i = 0; i < n; i++) {
            cur.due[i] = net.count[i] > 0 && !tNext.inf && tN[i] == tNext;
            if (cur.due[i] && !net.models[i].mealy) {
                cur.out[i] = out_moore(net.models[i], q[i]);
                send(cur.out[i]);
            }
        }
        std::vector<int> order;
        if (forced_order.empty())
            net.mealy_order(order);
        else
            order = forced_order;
        for (int i : order) {
            Bag &b = cur.bag[i];
            std::sort(b.begin(), b.end());
            if (b.empty() && !cur.due[i]) continue;
            if (net.count[i] == 0) continue;
            int kind = b.empty() ? 0 : cur.due[i] ? 2 : 1;
            cur.out[i] = out_mealy(net.models[i], q[i], kind, kind == 1 ? rsub(tNext, tL[i]) : rt(0), b);
            send(cur.out[i]);
        }
        for (auto &b : cur.bag) std::sort(b.begin(), b.end());
    }
    std::vector<Rec> state() {
        std::vector<Rec> v;
        RT t = sd ? radd(tNext, rt(0, 1)) : tNext;
        if (cur.computed)
            for (size_t i = 0; i < q.size(); i++) {
                Rec r;
                r.m = (int)i;
                r.bag = cur.bag[i];
                r.e = rt(0);
                if (cur.due[i] && r.bag.empty()) {
                    r.kind = 'i';
                    f_int(net.models[i], q[i]);
                } else if (cur.due[i]) {
                    r.kind = 'c';
                    f_conf(net.models[i], q[i], r.bag);
                } else if (!r.bag.empty()) {
                    r.kind = 'e';
                    r.e = rsub(tNext, tL[i]);
                    f_ext(net.models[i], q[i], r.e, r.bag);
                } else
                    continue;
                v.push_back(r);
                plan((int)i, t);
            }
        cur.computed = false;
        now = t;
        for (auto const &x : pending) {
            apply(net, x);
            if (x.kind == Op::ADD && net.count[x.a] == 1) plan(x.a, t);
        }
        pending.clear();
        if (at_end) at_end(t);
        tNext = min();
        return v;
    }
};

// Places models in one block at permuted positions, so that address order is
// chosen by the generator.
struct Arena {
    std::vector<char> mem;
    size_t slot;
    Arena(size_t n, size_t slot) : mem((n + 1) * ((slot + 63) / 64 * 64)), slot((slot + 63) / 64 * 64) {}
    void* at(int i) {
        uintptr_t b = ((uintptr_t)mem.data() + 63) / 64 * 64;
        return (void*)(b + i * slot);
    }
};

// ------------------------------------------------------------ the network on adevs
template <class T>
struct World;

template <class T>
struct Cell {  // what both kinds of model share
    World<T>* w = nullptr;
    int idx = 0;
    Spec const* spec = nullptr;
    State q;
};

struct LEvent {
    char kind;  // 'o' 'i' 's'
    int m;
    int pin;
    long val;
    RT t;
    int pos;  // number of transitions completed when notified
};
inline bool operator<(LEvent const &a, LEvent const &b) {
    return std::tie(a.kind, a.m, a.pin, a.val, a.t.n, a.t.k) <
           std::tie(b.kind, b.m, b.pin, b.val, b.t.n, b.t.k);
}
inline bool operator==(LEvent const &a, LEvent const &b) { return !(a < b) && !(b < a); }

template <class T>
struct World {
    using A = adevs::Atomic<Val, T>;
    using PV = adevs::PinValue<Val>;
    std::unique_ptr<Arena> arena;  // outlives the models
    Net net;                       // initial network
    std::vector<adevs::pin_t> pins;
    std::map<adevs::pin_t, int> pin_idx;
    std::vector<std::shared_ptr<A>> models;
    std::vector<Cell<T>*> cells;
    std::map<A*, int> idx;
    std::vector<Rec> trace;        // transitions since last cleared
    std::vector<int> outputs;      // calls to the output function of each model
    std::function<void(int)> on_transition;
    std::function<void(int)> on_output;
    std::function<void(int)> after_output;  // when the values are in the list
    int bad = -1;                           // the model whose time advance is negative

    T ta_of(int i, State const &q) { return Conv<T>::to(i == bad ? rt(-1) : net.models[i].ta[q.s]); }
    int pin_of(adevs::pin_t const &p) {
        auto i = pin_idx.find(p);
        if (i == pin_idx.end()) FAIL("a value arrived on a pin that is not part of the network");
        return i->second;
    }
    Bag bag_of(std::list<PV> const &xb) {
        Bag b;
        for (auto const &x : xb) b.push_back({pin_of(x.pin), x.value});
        std::sort(b.begin(), b.end());
        return b;
    }
    void put(int i, Bag const &y, std::list<PV> &yb) {
        for (auto const &v : y) yb.push_back(PV(pins[v.first], v.second));
        if (after_output) after_output(i);
    }
    void record(Cell<T> &c, char kind, RT e, Bag const &b) {
        trace.push_back(Rec{c.idx, kind, e, b});
        if (on_transition) on_transition(c.idx);
    }
};

template <class T>
struct MooreModel : adevs::Atomic<Val, T>, Cell<T> {
    using PV = adevs::PinValue<Val>;
    void delta_int() {
        f_int(*this->spec, this->q);
        this->w->record(*this, 'i', rt(0), Bag());
    }
    void delta_ext(T e, std::list<PV> const &xb) {
        Bag b = this->w->bag_of(xb);
        RT r = Conv<T>::from(e);
        f_ext(*this->spec, this->q, r, b);
        this->w->record(*this, 'e', r, b);
    }
    void delta_conf(std::list<PV> const &xb) {
        Bag b = this->w->bag_of(xb);
        f_conf(*this->spec, this->q, b);
        this->w->record(*this, 'c', rt(0), b);
    }
    void output_func(std::list<PV> &yb) {
        this->w->outputs[this->idx]++;
        if (!yb.empty()) FAIL("the output function of m" << this->idx << " is given a non-empty list");
        if (this->w->on_output) this->w->on_output(this->idx);
        this->w->put(this->idx, out_moore(*this->spec, this->q), yb);
    }
    T ta() { return this->w->ta_of(this->idx, this->q); }
};
template <class T>
struct MealyModel : adevs::MealyAtomic<Val, T>, Cell<T> {
    using PV = adevs::PinValue<Val>;
    void delta_int() {
        f_int(*this->spec, this->q);
        this->w->record(*this, 'i', rt(0), Bag());
    }
    void delta_ext(T e, std::list<PV> const &xb) {
        Bag b = this->w->bag_of(xb);
        RT r = Conv<T>::from(e);
        f_ext(*this->spec, this->q, r, b);
        this->w->record(*this, 'e', r, b);
    }
    void delta_conf(std::list<PV> const &xb) {
        Bag b = this->w->bag_of(xb);
        f_conf(*this->spec, this->q, b);
        this->w->record(*this, 'c', rt(0), b);
    }
    void start(std::list<PV> &yb) {
        this->w->outputs[this->idx]++;
        if (!yb.empty()) FAIL("the output function of m" << this->idx << " is given a non-empty list");
        if (this->w->on_output) this->w->on_output(this->idx);
    }
    void output_func(std::list<PV> &yb) {
        start(yb);
        this->w->put(this->idx, out_mealy(*this->spec, this->q, 0, rt(0), Bag()), yb);
    }
    void external_output_func(T e, std::list<PV> const &xb, std::list<PV> &yb) {
        start(yb);
        this->w->put(this->idx, out_mealy(*this->spec, this->q, 1, Conv<T>::from(e), this->w->bag_of(xb)), yb);
    }
    void confluent_output_func(std::list<PV> const &xb, std::list<PV> &yb) {
        start(yb);
        this->w->put(this->idx, out_mealy(*this->spec, this->q, 2, rt(0), this->w->bag_of(xb)), yb);
    }
    T ta() { return this->w->ta_of(this->idx, this->q); }
};

// pins that several networks use, or none
inline std::vector<adevs::pin_t> const* &common_pins() {
    static std::vector<adevs::pin_t> const* p = nullptr;
    return p;
}
template <class T>
void make_models(World<T> &w, Net const &n, bool in_arena, std::vector<int> const &pos,
                 std::vector<int> const &order, std::vector<int> const &pinorder) {
    using A = adevs::Atomic<Val, T>;
    w.net = n;
    int nm = (int)n.models.size();
    if (in_arena)
        w.arena.reset(new Arena(nm, std::max(sizeof(MooreModel<T>), sizeof(MealyModel<T>))));
    Arena* arena = w.arena.get();
    w.pins.resize(n.npins);
    auto* common = common_pins();
    for (int i : pinorder) w.pins[i] = common && i < (int)common->size() ? (*common)[i] : adevs::pin_t();
    for (int i = 0; i < n.npins; i++) w.pin_idx[w.pins[i]] = i;
    w.models.resize(nm);
    w.cells.resize(nm);
    w.outputs.assign(nm, 0);
    for (int i : order) {
        Cell<T>* c;
        A* a;
        if (n.models[i].mealy) {
            auto* m = arena ? new (arena->at(pos[i])) MealyModel<T>() : new MealyModel<T>();
            c = m;
            a = m;
        } else {
            auto* m = arena ? new (arena->at(pos[i])) MooreModel<T>() : new MooreModel<T>();
            c = m;
            a = m;
        }
        c->w = &w;
        c->idx = i;
        c->spec = &w.net.models[i];
        c->q.acc = pbt::mix(i + 1);
        w.cells[i] = c;
        w.idx[a] = i;
        if (arena)
            w.models[i] = std::shared_ptr<A>(a, [](A* x) { x->~A(); });
        else
            w.models[i] = std::shared_ptr<A>(a);
    }
}
// The edges one instance at a time, in the order of perm when it is given
struct Edge {
    bool to_model;
    int src, dst;
};
inline std::vector<Edge> edges_of(Net const &n, Src* s) {
    std::vector<Edge> e, r;
    for (auto const &x : n.pp)
        for (int c = 0; c < x.second; c++) e.push_back(Edge{false, x.first.first, x.first.second});
    for (auto const &x : n.pm)
        for (int c = 0; c < x.second; c++) e.push_back(Edge{true, x.first.first, x.first.second});
    if (!s) return e;
    for (int i : s->perm((int)e.size())) r.push_back(e[i]);
    return r;
}
template <class T>
std::shared_ptr<adevs::Graph<Val, T>> make_graph(World<T> &w, std::vector<int> const &order, Src* s = nullptr) {
    auto g = std::make_shared<adevs::Graph<Val, T>>();
    for (int i : order)
        for (int c = 0; c < w.net.count[i]; c++) g->add_atomic(w.models[i]);
    for (auto const &e : edges_of(w.net, s))
        if (e.to_model)
            g->connect(w.pins[e.src], w.models[e.dst]);
        else
            g->connect(w.pins[e.src], w.pins[e.dst]);
    return g;
}
template <class T>
std::shared_ptr<adevs::Coupled<Val, T>> make_coupled(World<T> &w, std::vector<int> const &order) {
    auto g = std::make_shared<adevs::Coupled<Val, T>>();
    for (int i : order) g->add_atomic(w.models[i]);
    for (auto const &e : w.net.pm) g->create_coupling(w.pins[e.first.first], w.models[e.first.second]);
    for (auto const &e : w.net.pp) g->create_coupling(w.pins[e.first.first], w.pins[e.first.second]);
    return g;
}

template <class T>
struct Recorder : adevs::EventListener<Val, T> {
    World<T>* w;
    std::vector<LEvent> ev;
    Recorder(World<T>* w) : w(w) {}
    int of(adevs::Atomic<Val, T> &m) {
        auto i = w->idx.find(&m);
        if (i == w->idx.end()) FAIL("a listener is told of a model that does not exist");
        return i->second;
    }
    void outputEvent(adevs::Atomic<Val, T> &m, adevs::PinValue<Val> &v, T t) {
        ev.push_back(LEvent{'o', of(m), w->pin_of(v.pin), v.value, Conv<T>::from(t), (int)w->trace.size()});
    }
    void inputEvent(adevs::Atomic<Val, T> &m, adevs::PinValue<Val> &v, T t) {
        ev.push_back(LEvent{'i', of(m), w->pin_of(v.pin), v.value, Conv<T>::from(t), (int)w->trace.size()});
    }
    void stateChange(adevs::Atomic<Val, T> &m, T t) {
        ev.push_back(LEvent{'s', of(m), -1, 0, Conv<T>::from(t), (int)w->trace.size()});
    }
};
inline std::string show(std::vector<LEvent> const &v) {
    std::ostringstream o;
    for (auto const &e : v) {
        o << "\n      " << (e.kind == 'o' ? "output" : e.kind == 'i' ? "input" : "state change") << " m"
          << e.m;
        if (e.kind != 's') o << " p" << e.pin << "=" << e.val;
        o << " at " << e.t;
    }
    if (v.empty()) o << " nothing";
    return o.str();
}

// ------------------------------------------------------------ lock step execution
// Drives adevs and the reference together and compares after every step.
template <class T>
struct Lockstep {
    Ctx &ctx;
    World<T> &w;
    adevs::Simulator<Val, T> &sim;
    RefSim &ref;
    bool cmp_time = true, cmp_trace = true, cmp_state = true, cmp_output_calls = true;
    std::vector<std::shared_ptr<Recorder<T>>> listeners;
    bool cmp_listener_outputs = false, cmp_listener_all = false;
    bool any_due_state = true;
    int cycles = 0, events = 0, conf = 0, exts = 0, ints = 0, simult = 0, multi_input = 0;

    Lockstep(Ctx &c, World<T> &w_, adevs::Simulator<Val, T> &s, RefSim &r)
        : ctx(c), w(w_), sim(s), ref(r) {
        check_next("after construction");
        w.on_output = [this](int m) {
            bool due = !ref.tNext.inf && ref.net.count[m] > 0 && ref.tN[m] == ref.tNext;
            if (!cmp_output_calls) return;
            if (!w.net.models[m].mealy && !due)
                FAIL("the output function of m" << m << " is called at " << ref.tNext
                                                << " but its next event is at " << ref.tN[m]);
            if (!(w.cells[m]->q == ref.q[m]))
                FAIL("the output function of m" << m << " is called after its state changed");
        };
    }
    void check_next(char const* when) {
        if (!cmp_time) return;
        RT t = Conv<T>::from(sim.nextEventTime());
        CHECK(t == ref.tNext, "next event time " << when << " is " << t << ", expected " << ref.tNext);
    }
    void inject(int pin, long val) {
        adevs::PinValue<Val> x(w.pins[pin], val);
        NOTE(ctx, "inject p" << pin << "=" << val);
        sim.injectInput(x);
        ref.ext.push_back({pin, val});
    }
    void clear() {
        NOTE(ctx, "clear injected input");
        sim.clearInjectedInput();
        ref.ext.clear();
    }
    void set_next(RT t) {
        NOTE(ctx, "set next time " << t);
        sim.setNextTime(Conv<T>::to(t));
        ref.tNext = t;
        check_next("after setting it");
    }
    // Compares what a listener was told during an output computation
    void listener_outputs(std::vector<LEvent> got, int l) {
        std::vector<LEvent> want;
        for (size_t i = 0; i < ref.cur.out.size(); i++)
            for (auto const &v : ref.cur.out[i])
                want.push_back(LEvent{'o', (int)i, v.first, v.second, ref.tNext, 0});
        std::sort(got.begin(), got.end());
        std::sort(want.begin(), want.end());
        CHECK(got == want, "listener " << l << " is told, computing output at " << ref.tNext << ":" << show(got)
                                       << "\n    expected:" << show(want));
    }
    // Compares what a listener was told during a state computation
    void listener_states(std::vector<LEvent> got, int l, std::vector<Rec> const &done, RT t0) {
        std::vector<LEvent> want;
        std::map<int, int> at;
        for (size_t i = 0; i < w.trace.size(); i++) at[w.trace[i].m] = (int)i;
        for (auto const &r : done) {
            for (auto const &v : r.bag) want.push_back(LEvent{'i', r.m, v.first, v.second, t0, 0});
            want.push_back(LEvent{'s', r.m, -1, 0, t0, 0});
        }
        for (auto const &e : got) {
            if (e.kind == 'i' && at.count(e.m))
                CHECK(e.pos <= at[e.m], "listener " << l << " is told of an input to m" << e.m
                                                    << " after the model processed it");
            if (e.kind == 's' && at.count(e.m))
                CHECK(e.pos > at[e.m], "listener " << l << " is told of a state change of m" << e.m
                                                   << " before the model changed state");
        }
        std::sort(got.begin(), got.end());
        std::sort(want.begin(), want.end());
        CHECK(got == want, "listener " << l << " is told, computing states at " << t0 << ":" << show(got)
                                       << "\n    expected:" << show(want));
    }
    void count_output() {
        int due = 0;
        for (char d : ref.cur.due) due += d;
        if (due > 1) simult++;
        for (auto const &b : ref.cur.bag)
            if (b.size() > 1) multi_input++;
    }
    std::vector<int> calls0;
    int recalc = 0;  // cycles in which a model's output was computed more than once
    void count_recalc() {
        for (size_t i = 0; i < calls0.size(); i++)
            if (w.outputs[i] > calls0[i] + 1) {
                recalc++;
                return;
            }
    }
    void begin() {
        calls0 = w.outputs;
        w.trace.clear();
        for (auto &l : listeners) l->ev.clear();
    }
    void output() {
        NOTE(ctx, "compute output at " << ref.tNext);
        begin();
        // The reference goes second: output functions are judged against the
        // state before the cycle.
        sim.computeNextOutput();
        count_recalc();
        ref.output();
        CHECK(!cmp_trace || w.trace.empty(), "computing output changed the state of m" << w.trace[0].m);
        check_next("after computing output");
        if (cmp_listener_outputs || cmp_listener_all)
            for (int l = 0; l < (int)listeners.size(); l++) {
                if (cmp_listener_all)
                    for (auto &e : listeners[l]->ev)
                        CHECK(e.kind == 'o', "a listener is told of more than output while output is computed");
                listener_outputs(listeners[l]->ev, l);
            }
        count_output();
    }
    T state() {
        NOTE(ctx, "compute state at " << ref.tNext);
        begin();
        RT t0 = ref.tNext;
        T t = sim.computeNextState();
        std::vector<Rec> want = ref.state();
        check_cycle(t, want, t0);
        if (cmp_listener_all)
            for (int l = 0; l < (int)listeners.size(); l++) listener_states(listeners[l]->ev, l, want, t0);
        return t;
    }
    T exec() {
        NOTE(ctx, "execute next event at " << ref.tNext);
        begin();
        RT t0 = ref.tNext;
        T t = sim.execNextEvent();
        count_recalc();
        ref.output();
        count_output();
        for (int l = 0; l < (int)listeners.size(); l++) {
            std::vector<LEvent> o, r;
            for (auto &e : listeners[l]->ev) (e.kind == 'o' ? o : r).push_back(e);
            if (cmp_listener_all)
                for (auto &e : o)
                    CHECK(e.pos == 0, "an output of m" << e.m
                                                       << " is notified after a state change of the same cycle");
            if (cmp_listener_outputs || cmp_listener_all) listener_outputs(o, l);
            listeners[l]->ev = r;
        }
        std::vector<Rec> want = ref.state();
        check_cycle(t, want, t0);
        if (cmp_listener_all)
            for (int l = 0; l < (int)listeners.size(); l++) listener_states(listeners[l]->ev, l, want, t0);
        return t;
    }
    void check_cycle(T t, std::vector<Rec> const &want, RT t0) {
        std::vector<Rec> got = w.trace;
        std::sort(got.begin(), got.end());
        std::vector<Rec> ws = want;
        std::sort(ws.begin(), ws.end());
        cycles++;
        events += (int)ws.size();
        for (auto const &r : ws) (r.kind == 'i' ? ints : r.kind == 'e' ? exts : conf)++;
        NOTE(ctx, "  cycle at " << t0 << ":" << show(ws));
        if (cmp_time) {
            RT rt_ = Conv<T>::from(t);
            CHECK(rt_ == ref.now, "the cycle at " << t0 << " returns time " << rt_ << ", expected " << ref.now);
        }
        if (cmp_trace)
            CHECK(got == ws, "in the cycle at " << t0 << " adevs executed:" << show(got)
                                                << "\n    expected:" << show(ws));
        if (cmp_state)
            for (auto const &r : ws)
                CHECK(w.cells[r.m]->q == ref.q[r.m], "state of m" << r.m << " differs after the cycle at " << t0);
        check_next("after the cycle");
    }
};
// How many values to inject at once: usually a few, now and then a flood, so
// that nothing may be sized for the ordinary case.
inline int burst(Src &s, int usual) {
    if (s.chance(1, 40)) return (int)s.range(usual, 300);
    return (int)s.range(1, usual);
}
#endif
