// C10: the event schedule against a plain map, for every time type.
#include "net.h"
double adevs::double_fcmp::epsilon = 1e-9;
template <class T>
struct M : adevs::Atomic<Val, T> {
    typedef std::list<adevs::PinValue<Val>> L;
    void delta_int() {}
    void delta_ext(T, L const &) {}
    void delta_conf(L const &) {}
    void output_func(L &) {}
    T ta() { return adevs_inf<T>(); }
};
template <class T>
static void run(Src &s, Ctx &ctx) {
    bool vast = s.chance(1, 4000);  // more than 16 bits can count
    int shape = vast || s.chance(1, 400) ? 3 : s.weighted({6, 2, 1});
    int nm = shape == 0 ? (int)s.range(1, 12) : shape == 1 ? (int)s.range(12, 60) : shape == 2 ? (int)s.range(60, 300) : vast ? (int)s.range(65530, 66000) : (int)s.range(1000, 3000);
    int cap = (int)s.of<int>({2, 3, 4, 5, 7, 8, 16, 100});
    int spread = (int)s.of<int>({1, 3, 10, 1000});
    std::vector<std::unique_ptr<M<T>>> m;
    for (int i = 0; i < nm; i++) m.emplace_back(new M<T>());
    std::map<adevs::Atomic<Val, T>*, int> idx;
    for (int i = 0; i < nm; i++) idx[m[i].get()] = i;
    bool deflt = s.chance(1, 8);
    std::unique_ptr<adevs::Schedule<Val, T>> q(deflt ? new adevs::Schedule<Val, T>() : new adevs::Schedule<Val, T>(cap));
    NOTE(ctx, nm << " models, capacity " << cap);
    std::map<int, RT> in;
    int ties = 0, grew = 0, rm = 0, pops = 0, later = 0, earlier = 0;
    auto prio = [&]() {
        RT t = rt(s.range(0, spread));
        if (Conv<T>::sd) t.k = s.range(0, 3);
        return t;
    };
    auto compare = [&](bool sets) {
        CHECK(q->getSize() == in.size(), "the size is " << q->getSize() << ", expected " << in.size());
        CHECK(q->empty() == in.empty(), "emptiness is wrong with " << in.size() << " models");
        RT mn = rinf();
        for (auto &x : in)
            if (x.second < mn) mn = x.second;
        RT got = Conv<T>::from(q->minPriority());
        CHECK(got == mn, "the minimum is " << got << ", expected " << mn);
        if (in.empty()) {
            CHECK(q->visitImminent().empty(), "an empty schedule has imminent models");
            return;
        }
        auto* f = q->getMinimum();
        CHECK(idx.count(f) && in.count(idx[f]) && in[idx[f]] == mn, "the front of the schedule is not a model with the minimum time");
        if (!sets) return;
        std::multiset<int> a, b;
        for (auto* x : q->visitImminent()) {
            CHECK(idx.count(x), "an unknown model is imminent");
            a.insert(idx[x]);
        }
        for (auto &x : in)
            if (x.second == mn) b.insert(x.first);
        if (b.size() > 1) ties++;
        CHECK(a == b, "there are " << a.size() << " imminent models, expected " << b.size() << ", or other ones");
    };
    compare(true);
    bool endless = shape <= 1 && s.chance(1, 1500);  // a long life
    int ops = endless ? (int)s.range(100, 45000) : shape == 0 ? (int)s.range(1, 60) : (int)s.range(nm, shape == 3 ? nm + 400 : 2 * nm + 60);
    uint64_t h = s.below(1u << 30);
    for (int i = 0; vast && i < nm; i++) {  // filled at once
        RT t = rt((long)(pbt::mix(h, i) % (spread + 1)));
        q->schedule(m[i].get(), Conv<T>::to(t));
        in[i] = t;
    }
    if (vast) {
        ops = (int)s.range(1, 300);
        grew++;
        compare(true);
    }
    for (int i = 0; i < ops; i++) {
        int op = s.weighted({5, 3, 2, 2});
        int k = (int)s.below(nm);
        if (shape > 0 && i < nm && !vast) {
            op = 0;
            k = i;
        }
        if (op == 0) {
            RT t = prio();
            NOTE(ctx, "schedule m" << k << " at " << t);
            if (in.count(k)) (in[k] < t ? later : earlier)++;
            q->schedule(m[k].get(), Conv<T>::to(t));
            in[k] = t;
            if ((int)in.size() >= cap) grew++;
        } else if (op == 1 && !in.empty()) {  // move one that is in it
            auto e = std::next(in.begin(), s.below(in.size()));
            RT t = prio();
            NOTE(ctx, "reschedule m" << e->first << " at " << t);
            (e->second < t ? later : earlier)++;
            q->schedule(m[e->first].get(), Conv<T>::to(t));
            e->second = t;
        } else if (op == 2) {
            NOTE(ctx, "schedule m" << k << " at inf");
            if (in.count(k)) rm++;
            q->schedule(m[k].get(), adevs_inf<T>());
            in.erase(k);
        } else if (op == 3) {
            auto* f = in.empty() ? nullptr : q->getMinimum();
            NOTE(ctx, "remove the minimum");
            q->removeMinimum();
            if (f) in.erase(idx[f]);
            pops++;
        }
        if (shape < 3 || i % 128 == 127) compare(true);
    }
    compare(true);
    if (shape < 3 && s.chance(1, 3)) {  // draining yields ascending times
        RT last = rt(-1);
        while (!in.empty()) {
            RT t = Conv<T>::from(q->minPriority());
            CHECK(!(t < last), "draining yields " << t << " after " << last);
            last = t;
            auto* f = q->getMinimum();
            CHECK(idx.count(f) && in.count(idx[f]), "the front of the schedule was removed before");
            q->removeMinimum();
            in.erase(idx[f]);
            compare(false);
        }
        ctx.label("drained");
    }
    ctx.nontrivial(ops >= 5 && rm + pops >= 1 && later + earlier >= 1);
    if (ties) ctx.label("ties for the minimum");
    if (grew) ctx.label("capacity exceeded");
    if (rm) ctx.label("removed by scheduling at infinity");
    if (later && earlier) ctx.label("moved both earlier and later");
    if (ops >= 20000) ctx.label("twenty thousand operations");
    if (vast) ctx.label("more than 65529 models");
    if (nm >= 1000) ctx.label("a thousand models or more");
    if (nm >= 60) ctx.label("60 or more models");
}
static void prop(Src &s, Ctx &ctx) {
    switch (s.below(9)) {
        case 0: return run<double>(s, ctx);
        case 1: return run<float>(s, ctx);
        case 2: return run<long double>(s, ctx);
        case 3: return run<int>(s, ctx);
        case 4: return run<long>(s, ctx);
        case 5: return run<adevs::double_fcmp>(s, ctx);
        case 6: return run<adevs::sd_time<double>>(s, ctx);
        case 7: return run<adevs::sd_time<int>>(s, ctx);
        default: return run<adevs::sd_time<long>>(s, ctx);
    }
}
PBT_MAIN(prop)
