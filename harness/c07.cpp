// C07: structure changes take effect together, in order, at the end of the cycle.
#include "netrun.h"
#ifndef TIME
#define TIME double
#endif
using T = TIME;

static void prop(Src &s, Ctx &ctx) {
    GenOpt g;
    g.sd = Conv<T>::sd;
    g.max_models = 8;
    g.max_pins = 6;
    g.mealy_num = s.chance(1, 3) ? 1 : 0;
    g.mealy_den = 3;
    Net n = gen_net(s, g);
    int nm = (int)n.models.size();
    int how = (int)s.range(0, 1);
    for (int i = 0; i < nm; i++) {
        n.count[i] = how == 1 ? (s.chance(1, 3) ? 0 : 1) : s.weighted({4, 3, 1});
        if (how == 0) n.count[i] = n.count[i] == 0 ? 1 : n.count[i] == 1 ? 0 : 2;
    }
    if (how == 1)  // coupled models hold one instance of everything
        for (auto &e : n.pp) e.second = 1;
    for (auto i = n.pm.begin(); i != n.pm.end();) {
        if (how == 1) i->second = 1;
        i = n.count[i->first.second] == 0 ? n.pm.erase(i) : std::next(i);
    }
    World<T> w;
    make_models(w, n, true, s.perm(nm), s.perm(nm), s.perm(n.npins));
    NOTE(ctx, show(n));
    {
        std::ostringstream o;
        for (int c : n.count) o << " " << c;
        NOTE(ctx, "  instances:" << o.str() << (how ? ", coupled" : ", graph"));
    }
    RefSim ref(n, Conv<T>::sd);
    std::shared_ptr<adevs::Graph<Val, T>> gr;
    std::shared_ptr<adevs::Coupled<Val, T>> co;
    std::unique_ptr<adevs::Simulator<Val, T>> sim;
    std::vector<int> order;
    for (int i : s.perm(nm))
        if (n.count[i] > 0) order.push_back(i);
    if (how == 0)
        sim.reset(new adevs::Simulator<Val, T>(gr = make_graph(w, order, &s)));
    else
        sim.reset(new adevs::Simulator<Val, T>(co = make_coupled(w, order)));
    Lockstep<T> ls(ctx, w, *sim, ref);
    // the graph as it will be when everything requested is applied
    Net virt = n;
    int nops = 0, incycle = 0, adds = 0, removes = 0, readd = 0, shared = 0, burst = 0, many = 0, busy = 0, pins = 0;
    auto request = [&](bool inside) {
        Op x;
        x.kind = (Op::Kind)s.weighted({3, 3, 4, 2, 2, 1, 1});
        Net v = virt;
        switch (x.kind) {
            case Op::ADD:
                x.a = (int)s.below(nm);
                if (how == 1 && virt.count[x.a] > 0) return;
                if (virt.count[x.a] > 2) return;
                break;
            case Op::REMOVE:
                x.a = (int)s.below(nm);
                if (virt.count[x.a] == 0) return;
                break;
            case Op::CONNECT_PM:
                x.a = (int)s.below(n.npins);
                x.b = (int)s.below(nm);
                if (virt.count[x.b] == 0) return;
                if (how == 1 && virt.pm.count({x.a, x.b})) return;
                break;
            case Op::DISCONNECT_PM:
                x.a = (int)s.below(n.npins);
                x.b = (int)s.below(nm);
                if (how == 1 && !virt.pm.count({x.a, x.b})) return;
                if (s.chance(2, 3) && !virt.pm.empty()) {
                    auto e = std::next(virt.pm.begin(), s.below(virt.pm.size()));
                    x.a = e->first.first;
                    x.b = e->first.second;
                }
                break;
            case Op::CONNECT_PP:
                if (n.npins < 2) return;
                x.a = (int)s.below(n.npins - 1);
                x.b = (int)s.range(x.a + 1, n.npins - 1);
                if (how == 1 && virt.pp.count({x.a, x.b})) return;
                break;
            case Op::DISCONNECT_PP:
                x.a = (int)s.below(n.npins);
                x.b = (int)s.below(n.npins);
                if (s.chance(2, 3) && !virt.pp.empty()) {
                    auto e = std::next(virt.pp.begin(), s.below(virt.pp.size()));
                    x.a = e->first.first;
                    x.b = e->first.second;
                }
                if (how == 1 && !virt.pp.count({x.a, x.b})) return;
                break;
            case Op::REMOVE_PIN:
                if (how == 1) return;
                x.a = (int)s.below(n.npins);
                pins++;
                break;
        }
        apply(v, x);
        if (!net_ok(v, g, 0)) return;
        if (x.kind == Op::ADD) (virt.count[x.a] ? shared : adds)++;
        if (x.kind == Op::REMOVE) (virt.count[x.a] > 1 ? shared : removes)++;
        if (x.kind == Op::ADD && virt.count[x.a] == 0 && ref.net.count[x.a] > 0) readd++;
        if (x.kind == Op::REMOVE && virt.count[x.a] == 1 && !ref.tNext.inf && ref.tN[x.a] == ref.tNext) busy++;
        virt = v;
        ref.pending.push_back(x);
        NOTE(ctx, "    request: " << x);
        nops++;
        incycle += inside;
        if (ref.pending.size() >= 3) burst++;
        if (ref.pending.size() >= 30) many++;
        auto P = [&](int i) { return w.pins[i]; };
        switch (x.kind) {
            case Op::ADD: gr ? gr->add_atomic(w.models[x.a]) : co->add_atomic(w.models[x.a]); break;
            case Op::REMOVE: gr ? gr->remove_atomic(w.models[x.a]) : co->remove_atomic(w.models[x.a]); break;
            case Op::CONNECT_PM: gr ? gr->connect(P(x.a), w.models[x.b]) : co->create_coupling(P(x.a), w.models[x.b]); break;
            case Op::DISCONNECT_PM: gr ? gr->disconnect(P(x.a), w.models[x.b]) : co->remove_coupling(P(x.a), w.models[x.b]); break;
            case Op::CONNECT_PP: gr ? gr->connect(P(x.a), P(x.b)) : co->create_coupling(P(x.a), P(x.b)); break;
            case Op::DISCONNECT_PP: gr ? gr->disconnect(P(x.a), P(x.b)) : co->remove_coupling(P(x.a), P(x.b)); break;
            case Op::REMOVE_PIN: gr->remove_pin(P(x.a)); break;
        }
    };
    int rate = (int)s.range(1, 3);
    w.on_transition = [&](int) {
        while (s.chance(rate, 5)) request(true);
        if (s.chance(1, 100))
            for (int i = (int)s.range(1, 150); i > 0; i--) request(true);
    };
    auto judge = w.on_output;
    bool in_output = s.chance(1, 4);
    w.on_output = [&](int m) {
        judge(m);
        if (in_output && s.chance(1, 6)) request(true);
    };
#ifdef LONG
    int cycles = (int)s.range(100, 5000);
#else
    int cycles = (int)s.range(2, 25);
#endif
    for (int c = 0; c < cycles; c++) {
        if (s.chance(1, 4)) request(false);
        int op = s.weighted({6, 2, 1});
        if (op >= 1) {
            if (op == 2 || ref.tNext.inf) ls.set_next(earlier_time<T>(s, ref));
            int k = ::burst(s, 3);
            for (int i = 0; i < k; i++) ls.inject((int)s.below(n.npins), (long)s.below(1000));
        }
        if (ref.tNext.inf) {
            if (ref.pending.empty()) break;
            ls.set_next(ref.now);  // an empty cycle puts the changes into effect
        }
#ifdef LONG
        if (s.used > 220000) break;
#else
        if (ref.now.n > 3000) break;
#endif
        if (s.chance(1, 4)) {
            ls.output();
            if (s.coin()) request(false);
            ls.state();
        } else
            ls.exec();
        if (gr) {
            std::set<int> got, want;
            for (auto &m : gr->get_atomics()) got.insert(w.idx.at(m.get()));
            for (int i = 0; i < nm; i++)
                if (ref.net.count[i] > 0) want.insert(i);
            CHECK(got == want, "the models in the graph after the cycle at " << ref.now << " are not those expected");
            CHECK(gr->get_pending().empty(), "changes are still pending after the cycle");
        }
    }
    ctx.nontrivial(nops >= 3 && incycle >= 1 && ls.events >= 3 && adds + removes >= 1);
    if (adds) ctx.label("model added");
    if (removes) ctx.label("model removed");
    if (busy) ctx.label("model removed while imminent");
    if (readd) ctx.label("removed and added again in one cycle");
    if (shared) ctx.label("instance of a present model added or removed");
    if (burst) ctx.label("three or more changes in one cycle");
    if (many) ctx.label("thirty or more changes in one cycle");
    if (nops >= 3000) ctx.label("three thousand changes");
    if (pins) ctx.label("pin removed");
    if (how) ctx.label("through a coupled model");
}
PBT_MAIN(prop)
