// C25: the alternative schedule (schedule2.h) holds exactly the models added and not
// removed, the earliest in front, and finds each of them again.
#include <memory>
#include <stdexcept>
#include "adevs/adevs.h"
// The two schedules have the same name and include guard
#undef _adevs_schedule_h_
#define Schedule Schedule2
#include "adevs/schedule2.h"
#undef Schedule
#include "pbt.h"
using pbt::Ctx;
using pbt::Src;
double adevs::double_fcmp::epsilon = 1e-9;

template <class T>
struct M : adevs::Atomic<int, T> {
    T t;
    M(T t) : t(t) {}
    T ta() override { return t; }
    void delta_int() override {}
    void delta_ext(T, std::list<adevs::PinValue<int>> const &) override {}
    void delta_conf(std::list<adevs::PinValue<int>> const &) override {}
    void output_func(std::list<adevs::PinValue<int>> &) override {}
};
template <class T>
static T gen_time(Src &s, int style) {
    switch (style) {
        case 0: return (T)s.range(0, 3);
        case 1: return s.chance(1, 6) ? adevs_inf<T>() : (T)s.range(0, 20);
        default: return s.chance(1, 10) ? adevs_inf<T>() : (T)s.range(0, 1000000);
    }
}
template <class T>
static void run(Src &s, Ctx &ctx) {
    using P = std::shared_ptr<M<T>>;
    adevs::Schedule2<int, T> q;
    bool huge = s.chance(1, 1000), endless = !huge && s.chance(1, 2000);
    int nm = (int)s.range(1, huge ? 1500 : s.chance(1, 6) ? 80 : 14), style = (int)s.below(3);
    std::vector<P> m;
    std::map<int, T> in;  // member: time advance when it was last added or updated
    for (int i = 0; i < nm; i++) m.push_back(std::make_shared<M<T>>((T)0));
    int ops = huge ? (int)s.range(nm, 3 * nm) : endless ? (int)s.range(100, 40000) : (int)s.range(1, s.chance(1, 6) ? 300 : 60);
    int rejected = 0, middle = 0, pops = 0, upd = 0;
    bool drained = false;
    auto check = [&](char const* when) {
        CHECK(q.size() == in.size(), "size is " << q.size() << ", not " << in.size() << ", " << when);
        CHECK(q.empty() == in.empty(), "empty() is wrong " << when);
        T lo = adevs_inf<T>();
        for (auto const &x : in) lo = std::min(lo, x.second);
        CHECK(q.get_minimum() == lo, "the minimum is " << q.get_minimum() << ", not " << lo << ", " << when);
        auto f = q.get_next();
        CHECK((f == nullptr) == in.empty(), "get_next() is wrong " << when);
        if (f) {
            int k = -1;
            for (int i = 0; i < nm; i++)
                if (m[i] == f) k = i;
            CHECK(in.count(k), "the model in front is not a member " << when);
            CHECK(in[k] == lo, "the model in front has time " << in[k] << ", the minimum is " << lo << ", " << when);
        }
    };
    for (int o = 0; o < ops; o++) {
        int k = (int)s.below(nm);
        int op = s.weighted({8, 5, 6, 3, 1, 1, 1});
        switch (op) {
            case 0: {
                T old = m[k]->t;
                bool had = in.count(k);
                if (!had) m[k]->t = gen_time<T>(s, style);
                NOTE(ctx, "add m" << k << " ta " << m[k]->t << (had ? " (a member)" : ""));
                bool thrown = false;
                try {
                    q.add(m[k]);
                } catch (adevs::exception &) {
                    thrown = true;
                }
                CHECK(thrown == had, (had ? "adding a member is not rejected" : "adding a model is rejected"));
                if (had)
                    rejected++;
                else
                    in[k] = m[k]->t;
                (void)old;
                break;
            }
            case 1:
            case 2: {
                bool had = in.count(k), thrown = false;
                if (op == 2 && had) m[k]->t = gen_time<T>(s, style);
                NOTE(ctx, (op == 1 ? "remove m" : "update m") << k << " ta " << m[k]->t << (had ? "" : " (not a member)"));
                try {
                    op == 1 ? q.remove(m[k]) : q.update(m[k]);
                } catch (adevs::exception &) {
                    thrown = true;
                }
                CHECK(thrown == !had, (had ? "an operation on a member is rejected" : "an operation on a model that is not a member is accepted"));
                if (!had)
                    rejected++;
                else if (op == 1) {
                    if (in.size() > 2) middle++;
                    in.erase(k);
                } else {
                    in[k] = m[k]->t;
                    upd++;
                }
                break;
            }
            case 3: {
                if (in.empty()) break;
                auto f = q.get_next();
                int j = -1;
                for (int i = 0; i < nm; i++)
                    if (m[i] == f) j = i;
                NOTE(ctx, "pop m" << j);
                q.remove_next();
                in.erase(j);
                pops++;
                break;
            }
            case 4:
                NOTE(ctx, "rebuild");
                q.update_all();
                break;
            case 5:
                if (!s.chance(1, 4)) break;
                NOTE(ctx, "clear");
                q.clear();
                in.clear();
                break;
            default:  // drain it in order
                if (!s.chance(1, 3)) break;
                NOTE(ctx, "drain");
                while (!in.empty()) {
                    check("while draining");
                    auto f = q.get_next();
                    for (int i = 0; i < nm; i++)
                        if (m[i] == f) in.erase(i);
                    q.remove_next();
                }
                drained = true;
        }
        check("after an operation");
    }
    // every member is found again
    while (!in.empty()) {
        auto i = std::next(in.begin(), s.below(in.size()));
        NOTE(ctx, "remove m" << i->first);
        try {
            q.remove(m[i->first]);
        } catch (adevs::exception &) {
            FAIL("removing the member m" << i->first << " is rejected");
        }
        in.erase(i);
        check("at the end");
    }
    for (int i = 0; i < nm; i++) CHECK(m[i].use_count() == 1, "the empty schedule refers to m" << i);
    ctx.nontrivial(middle >= 1 && upd + pops >= 1);
    if (rejected) ctx.label("rejected operation");
    if (middle) ctx.label("removal of one of several");
    if (pops) ctx.label("pop");
    if (upd) ctx.label("update");
    if (ops >= 20000) ctx.label("twenty thousand operations");
    if (nm >= 1000) ctx.label("a thousand models or more");
    if (drained) ctx.label("drained");
}
static void prop(Src &s, Ctx &ctx) {
    switch (s.below(3)) {
        case 0: return run<double>(s, ctx);
        case 1: return run<int>(s, ctx);
        default: return run<long>(s, ctx);
    }
}
PBT_MAIN(prop)
