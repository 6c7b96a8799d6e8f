// C14: a negative time advance is reported in the very call, naming the model;
// no other time advance is.
#include <limits>
#include "adevs/adevs.h"
#include "pbt.h"
using pbt::Ctx;
using pbt::Src;
double adevs::double_fcmp::epsilon = 1e-9;

template <class T>
struct Gen;
template <>
struct Gen<double> {
    static double neg(Src &s) {
        return s.of<double>({-1.0, -0.25, -1e-9, -1e-300, -std::numeric_limits<double>::denorm_min(), -1e30,
                             -std::numeric_limits<double>::max(), -std::numeric_limits<double>::infinity()});
    }
    static double pos(Src &s) {
        return s.of<double>({0.0, -0.0, 1.0, 0.5, 2.0, 1e-9, std::numeric_limits<double>::denorm_min(), 1e20, 0.25});
    }
};
template <>
struct Gen<float> {
    static float neg(Src &s) { return s.of<float>({-1.0f, -1e-9f, -std::numeric_limits<float>::denorm_min(), -std::numeric_limits<float>::max(), -std::numeric_limits<float>::infinity()}); }
    static float pos(Src &s) { return s.of<float>({0.0f, 1.0f, -0.0f, 0.5f, 2.0f, 1e-30f, 1e10f}); }
};
template <>
struct Gen<adevs::double_fcmp> {
    static adevs::double_fcmp neg(Src &s) { return s.of<double>({-1.0, -0.25, -1e-12, -1e-300, -1e30}); }
    static adevs::double_fcmp pos(Src &s) { return s.of<double>({0.0, 1.0, -0.0, 0.5, 2.0, 1e-12, 1e15}); }
};
template <>
struct Gen<int> {
    static int neg(Src &s) { return s.of<int>({-1, -2, -1000000, std::numeric_limits<int>::min()}); }
    static int pos(Src &s) { return s.of<int>({0, 1, 2, 7, 100000}); }
};
template <>
struct Gen<long> {
    static long neg(Src &s) { return s.of<long>({-1, -2, -4294967296L, -4294967295L, std::numeric_limits<long>::min()}); }
    static long pos(Src &s) { return s.of<long>({0, 1, 2, 7, 4294967296L}); }
};
template <class B>
struct SdGen {
    using T = adevs::sd_time<B>;
    static T neg(Src &s) { return s.of<T>({T(-1, 0), T(0, -1), T(-1, 5), T(0, -7), T(-3, -1)}); }
    static T pos(Src &s) { return s.of<T>({T(0, 0), T(1, 0), T(0, 1), T(2, 0), T(1, 3), T(0, 4), T(1, -1)}); }
};
template <>
struct Gen<adevs::sd_time<double>> : SdGen<double> {};
template <>
struct Gen<adevs::sd_time<int>> : SdGen<int> {};
template <>
struct Gen<adevs::sd_time<long>> : SdGen<long> {};

template <class T>
static bool big_time(T t) { return !(t < T(1000000)); }
template <class B>
static bool big_time(adevs::sd_time<B> t) { return !(t < adevs::sd_time<B>(1000000, 0)); }

template <class T>
struct Net;
template <class T, class Base>
struct Model : Base {
    using PV = adevs::PinValue<int>;
    Net<T>* n;
    int idx;
    void step();
    void delta_int() { step(); }
    void delta_ext(T, std::list<PV> const &) { step(); }
    void delta_conf(std::list<PV> const &) { step(); }
    void output_func(std::list<PV> &yb) { out(yb); }
    void external_output_func(T, std::list<PV> const &, std::list<PV> &yb) { out(yb); }
    void confluent_output_func(std::list<PV> const &, std::list<PV> &yb) { out(yb); }
    void out(std::list<PV> &yb);
    T ta();
};
template <class T>
struct Net {
    struct Script {
        std::vector<T> ta;
        std::vector<char> bad;
        int pos = 0;
        bool output = false;
        int spawn = -1, spawn_at = -1;
        bool touched = false;  // has to be scheduled in the running call
    };
    std::vector<Script> sc;
    std::vector<std::shared_ptr<adevs::Atomic<int, T>>> m;
    std::shared_ptr<adevs::Graph<int, T>> g;
    std::shared_ptr<adevs::Coupled<int, T>> co, top;  // instead of the graph
    std::vector<adevs::pin_t> pins;
    bool now_bad(int i) { return sc[i].bad[sc[i].pos]; }
};
template <class T, class B>
void Model<T, B>::step() {
    auto &x = n->sc[idx];
    if (x.pos + 1 < (int)x.ta.size()) x.pos++;
    x.touched = true;
    if (x.spawn >= 0 && x.pos == x.spawn_at) {
        if (n->g) {
            n->g->add_atomic(n->m[x.spawn]);
            n->g->connect(n->pins[0], n->m[x.spawn]);
        } else {
            n->co->add_atomic(n->m[x.spawn]);
            n->co->create_coupling(n->pins[0], n->m[x.spawn]);
        }
        n->sc[x.spawn].touched = true;
        x.spawn = -1;
    }
}
template <class T, class B>
void Model<T, B>::out(std::list<PV> &yb) {
    if (n->sc[idx].output) yb.push_back(PV(n->pins[1 + idx], idx));
}
template <class T, class B>
T Model<T, B>::ta() {
    return n->sc[idx].ta[n->sc[idx].pos];
}

template <class T>
static void run(Src &s, Ctx &ctx) {
    Net<T> n;
    int nm = (int)s.range(1, 6), extra = (int)s.range(0, 2);
    n.pins.resize(nm + extra + 1);
    int badness = s.weighted({4, 2, 2, 2});  // where a bad advance may be: late, none, initial, spawned
    n.sc.resize(nm + extra);
    for (int i = 0; i < nm + extra; i++) {
        auto &x = n.sc[i];
        int k = (int)s.range(1, 6);
        for (int j = 0; j < k; j++) {
            int kind = s.weighted({6, 2});
            x.ta.push_back(kind == 0 ? Gen<T>::pos(s) : adevs_inf<T>());
            x.bad.push_back(0);
        }
        bool may = badness == 0 ? i < nm : badness == 2 ? i < nm : badness == 3 ? i >= nm : false;
        if (may && s.chance(1, 2)) {
            int at = badness == 0 ? (int)s.below(k) : 0;
            if (badness == 0 && at == 0) at = k - 1;
            if (badness != 0 || at > 0) {
                x.ta[at] = Gen<T>::neg(s);
                x.bad[at] = 1;
            }
        }
        x.output = s.coin();
        if (s.coin()) {  // a model of the other kind
            auto* a = new Model<T, adevs::MealyAtomic<int, T>>();
            a->n = &n;
            a->idx = i;
            n.m.emplace_back(a);
        } else {
            auto* a = new Model<T, adevs::Atomic<int, T>>();
            a->n = &n;
            a->idx = i;
            n.m.emplace_back(a);
        }
    }
    for (int j = 0; j < extra; j++) {
        int by = (int)s.below(nm);
        n.sc[by].spawn = nm + j;
        n.sc[by].spawn_at = (int)s.range(0, std::max(0, (int)n.sc[by].ta.size() - 1));
    }
    if (s.chance(2, 3))
        n.g.reset(new adevs::Graph<int, T>());
    else {
        n.co.reset(new adevs::Coupled<int, T>());
        n.top = n.co;
        if (s.coin()) {
            n.top.reset(new adevs::Coupled<int, T>());
            n.top->add_coupled_model(n.co);
        }
    }
    for (int i : s.perm(nm)) n.g ? n.g->add_atomic(n.m[i]) : n.co->add_atomic(n.m[i]);
    int ne = (int)s.range(0, 2 * nm);
    for (int e = 0; e < ne; e++) {
        int p = (int)s.range(0, nm), d = (int)s.below(nm);
        if (p == 0 || p - 1 < d) n.g ? n.g->connect(n.pins[p], n.m[d]) : n.co->create_coupling(n.pins[p], n.m[d]);  // no loops
    }
    for (int i = 0; i < nm; i++) {
        NOTE(ctx, "m" << i << ": " << n.sc[i].ta.size() << " advances" << (n.sc[i].spawn >= 0 ? ", adds a model" : ""));
        for (size_t j = 0; j < n.sc[i].ta.size(); j++)
            if (n.sc[i].bad[j]) NOTE(ctx, "   the one after transition " << j << " is negative");
    }
    std::unique_ptr<adevs::Simulator<int, T>> sim;
    auto judge = [&](char const* where, bool thrown, void* who) {
        bool want = false, right = false;
        for (int i = 0; i < nm + extra; i++) {
            if (n.sc[i].touched && n.now_bad(i)) {
                want = true;
                if ((void*)n.m[i].get() == who) right = true;
            }
        }
        NOTE(ctx, where << (thrown ? ": throws" : ": returns"));
        CHECK(!want || thrown, where << ": a model with a negative time advance is not reported");
        CHECK(want || !thrown, where << ": an exception although no time advance is negative");
        CHECK(!thrown || right, where << ": the exception names a model that has no negative time advance");
        for (auto &x : n.sc) x.touched = false;
        return thrown;
    };
    int single = nm == 1 && s.coin();
    for (int i = 0; i < nm; i++) n.sc[i].touched = true;
    bool thrown = false;
    void* who = nullptr;
    try {
        if (single) {
            sim.reset(new adevs::Simulator<int, T>(n.m[0]));
        } else if (n.top)
            sim.reset(new adevs::Simulator<int, T>(n.top));
        else
            sim.reset(new adevs::Simulator<int, T>(n.g));
    } catch (adevs::exception &e) {
        thrown = true;
        who = e.who();
    }
    if (judge("constructor", thrown, who)) {
        ctx.label("reported by the constructor");
        ctx.nontrivial();
        return;
    }
    if (single) n.sc[0].spawn = -1;
    int cycles = (int)s.range(1, 15), steps = 0;
    for (int c = 0; c < cycles; c++) {
        if (s.chance(1, 3)) {
            adevs::PinValue<int> v(n.pins[0], 7);
            sim->injectInput(v);
        }
        if (!(sim->nextEventTime() < adevs_inf<T>())) break;
        T t = sim->nextEventTime();
        if (big_time(t)) break;  // stay away from rounding and overflow
        bool split = s.coin();
        thrown = false;
        try {
            if (split) {
                sim->computeNextOutput();
                sim->computeNextState();
            } else
                sim->execNextEvent();
        } catch (adevs::exception &e) {
            thrown = true;
            who = e.who();
        }
        steps++;
        if (judge("cycle", thrown, who)) {
            ctx.label(badness == 3 ? "reported for an added model" : "reported after a state change");
            ctx.nontrivial();
            return;
        }
    }
    if (n.top) ctx.label("through a coupled model");
    if (steps >= 2) ctx.label("no negative advance met");
    ctx.nontrivial(steps >= 3);
}
static void prop(Src &s, Ctx &ctx) {
    switch (s.below(8)) {
        case 0: return run<double>(s, ctx);
        case 1: return run<int>(s, ctx);
        case 2: return run<adevs::sd_time<double>>(s, ctx);
        case 3: return run<adevs::double_fcmp>(s, ctx);
        case 4: return run<long>(s, ctx);
        case 5: return run<float>(s, ctx);
        case 6: return run<adevs::sd_time<int>>(s, ctx);
        default: return run<adevs::sd_time<long>>(s, ctx);
    }
}
PBT_MAIN(prop)
