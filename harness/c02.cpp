// C02: routing. Rich pin graphs: diamonds, chains, fan-in, fan-out, multi-edges.
#include "netrun.h"
#ifndef TIME
#define TIME double
#endif
using T = TIME;

static Net gen_routes(Src &s) {
    GenOpt g;
    g.sd = Conv<T>::sd;
    g.max_models = 6;
    g.mealy_num = s.chance(1, 3);
    g.mealy_den = 2;
    Net n;
    int shape = s.weighted({4, 2, 2});
    bool large = s.chance(1, 150);  // deep chains and many paths
    n.npins = shape == 1 ? (int)s.range(10, 60) : (int)s.range(2, 14);
    if (large) n.npins = shape == 1 ? (int)s.range(60, 600) : (int)s.range(14, 34);
    long most = large ? 1200 : 120;
    int nm = (int)s.range(1, 6);
    for (int i = 0; i < nm; i++) {
        Spec m = gen_spec(s, n, g);
        if (m.ta[0].inf && s.coin()) m.ta[0] = rt(1);
        n.models.push_back(m);
        n.count.push_back((int)s.weighted({6, 1}) + 1);
    }
    // not too many paths, and no cycle of Mealy models
    auto fits = [&] {
        for (int p = 0; p < n.npins; p++)
            if (n.paths(p) > most) return false;
        if (g.mealy_num == 0) return true;
        long c = n.mealy_paths();
        return c >= 0 && c <= 40;
    };
    auto pp = [&](int a, int b) {
        n.pp[{a, b}]++;
        if (!fits() && --n.pp[{a, b}] == 0) n.pp.erase({a, b});
    };
    auto pm = [&](int a, int b) {
        n.pm[{a, b}]++;
        if (!fits() && --n.pm[{a, b}] == 0) n.pm.erase({a, b});
    };
    // the pins in an order unrelated to their identity
    std::vector<int> ord = s.perm(n.npins);
    if (shape == 1) {  // a long chain with taps
        for (int i = 0; i + 1 < n.npins; i++) n.pp[{ord[i], ord[i + 1]}] = 1;
        int taps = (int)s.range(1, 5);
        for (int i = 0; i < taps; i++) pm(ord[s.below(n.npins)], (int)s.below(nm));
        pm(ord[n.npins - 1], (int)s.below(nm));
    } else if (shape == 2) {  // stacked diamonds
        int i = 0;
        while (i + 3 < n.npins) {
            n.pp[{ord[i], ord[i + 1]}]++;
            n.pp[{ord[i], ord[i + 2]}]++;
            n.pp[{ord[i + 1], ord[i + 3]}]++;
            n.pp[{ord[i + 2], ord[i + 3]}]++;
            if (i > 27) break;
            i += 3;
        }
        int k = (int)s.range(1, 4);
        for (int j = 0; j < k; j++) pm(ord[n.npins - 1 - s.below(std::min(4, n.npins))], (int)s.below(nm));
    }
    int ne = (int)s.range(0, large ? 12 : 2 * n.npins);
    for (int i = 0; i < ne; i++) {
        if (s.coin())
            pm(ord[s.below(n.npins)], (int)s.below(nm));
        else {
            int a = (int)s.below(n.npins - 1), b = (int)s.range(a + 1, n.npins - 1);
            pp(ord[a], ord[b]);
        }
    }
    return n;
}
static void check_routes(Rig<T> &r, Net const &n) {
    for (int p = 0; p < n.npins; p++) {
        std::list<std::pair<adevs::pin_t, std::shared_ptr<adevs::Atomic<Val, T>>>> l;
        r.gr->route(r.w.pins[p], l);
        std::vector<std::pair<int, int>> got, want = n.route(p);
        for (auto &x : l) got.push_back({r.w.pin_of(x.first), r.w.idx.at(x.second.get())});
        std::sort(got.begin(), got.end());
        std::sort(want.begin(), want.end());
        CHECK(got == want, "routing pin p" << p << " yields " << got.size() << " receivers, expected " << want.size()
                                           << ", or different ones");
    }
}
static void prop(Src &s, Ctx &ctx) {
    Net n = gen_routes(s);
    Rig<T> r(s, ctx, n, false);
    if (r.gr) check_routes(r, n);
    if (r.gr) ctx.label("built as a graph");
    run_cycles(s, r, (int)s.range(1, 16), true, n.npins);
    if (r.gr) check_routes(r, n);
    long mx = 0, dup = 0;
    for (int p = 0; p < n.npins; p++) {
        auto v = n.route(p);
        mx = std::max(mx, (long)v.size());
        std::map<int, int> c;
        for (auto &x : v) dup = std::max(dup, (long)++c[x.second]);
    }
    auto &ls = *r.ls;
    ctx.nontrivial(ls.exts + ls.conf >= 2 && mx >= 2);
    classify(ctx, ls);
    if (mx > 256) ctx.label("more than 256 paths from a pin");
    if (n.npins > 256) ctx.label("more than 256 pins");
    if (dup >= 2) ctx.label("several paths to one model");
    for (Spec const &m : n.models)
        if (m.mealy) {
            ctx.label("with Mealy models");
            break;
        }
    if (n.npins >= 10 && n.pp.size() >= 9) ctx.label("ten or more pin to pin edges");
    for (size_t m = 0; m < n.models.size(); m++)
        for (int p : n.models[m].pins())
            for (auto &x : n.route(p))
                if (x.second == (int)m) { ctx.label("model receives its own output"); return; }
}
PBT_MAIN(prop)
