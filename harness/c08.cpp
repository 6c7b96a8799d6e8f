// C08: a graph is a multigraph with instance counts; histories of operations
// against a model of it, in immediate and in provisional mode.
#include "net.h"
struct M : adevs::Atomic<Val, double> {
    void delta_int() {}
    void delta_ext(double, std::list<adevs::PinValue<Val>> const &) {}
    void delta_conf(std::list<adevs::PinValue<Val>> const &) {}
    void output_func(std::list<adevs::PinValue<Val>> &) {}
    double ta() { return adevs_inf<double>(); }
};
using G = adevs::Graph<Val, double>;

// paths from a pin; -1 when a cycle can be reached
static long count_paths(Net const &n, int p, std::vector<int> &st, std::vector<long> &memo) {
    if (st[p] == 1) return -1;
    if (st[p] == 2) return memo[p];
    st[p] = 1;
    long c = 0;
    for (auto i = n.pm.lower_bound({p, -1}); i != n.pm.end() && i->first.first == p; i++) c++;
    for (auto i = n.pp.lower_bound({p, -1}); i != n.pp.end() && i->first.first == p; i++) {
        long k = count_paths(n, i->first.second, st, memo);
        if (k < 0) {
            st[p] = 2;
            return memo[p] = -1;
        }
        c += k + 1;
    }
    st[p] = 2;
    return memo[p] = c;
}
static void prop(Src &s, Ctx &ctx) {
    int np = (int)s.range(1, 9), nm = (int)s.range(1, 5);
    std::vector<adevs::pin_t> pins(np);
    std::map<adevs::pin_t, int> pidx;
    for (int i = 0; i < np; i++) pidx[pins[i]] = i;
    std::vector<std::shared_ptr<M>> models;
    std::map<void*, int> midx;
    for (int i = 0; i < nm; i++) {
        models.push_back(std::make_shared<M>());
        midx[(adevs::Atomic<Val, double>*)models[i].get()] = i;
    }
    Net n, virt;
    n.npins = np;
    n.models.resize(nm);
    n.count.assign(nm, 0);
    virt = n;
    std::vector<Op> queued;
    bool prov = false;
    auto g = std::make_shared<G>();
    int removes = 0, multi = 0, noop = 0, last_edge = 0, pinrm = 0, routed = 0, prov_ops = 0, cyc = 0, many = 0, vast = 0;
    bool allow_cycles = s.chance(1, 4);
    auto call = [&](Op const &x) {
        adevs::pin_t a(pins[x.kind == Op::ADD || x.kind == Op::REMOVE ? 0 : x.a]);
        switch (x.kind) {
            case Op::ADD: g->add_atomic(models[x.a]); break;
            case Op::REMOVE: g->remove_atomic(models[x.a]); break;
            case Op::CONNECT_PM: g->connect(a, models[x.b]); break;
            case Op::DISCONNECT_PM: g->disconnect(a, models[x.b]); break;
            case Op::CONNECT_PP: g->connect(a, pins[x.b]); break;
            case Op::DISCONNECT_PP: g->disconnect(a, pins[x.b]); break;
            case Op::REMOVE_PIN: g->remove_pin(a); break;
        }
    };
    auto compare = [&]() {
        std::set<int> got, want;
        for (auto &m : g->get_atomics()) {
            CHECK(midx.count(m.get()), "an unknown model is in the graph");
            got.insert(midx[m.get()]);
        }
        for (int i = 0; i < nm; i++)
            if (n.count[i] > 0) want.insert(i);
        CHECK(got == want, "the graph holds " << got.size() << " models, expected " << want.size() << ", or other ones");
        std::vector<int> st(np, 0);
        std::vector<long> memo(np, 0);
        for (int p = 0; p < np; p++) {
            long c = count_paths(n, p, st, memo);
            if (c < 0) cyc++;
            if (c < 0 || c > 400) continue;
            std::list<std::pair<adevs::pin_t, std::shared_ptr<adevs::Atomic<Val, double>>>> l;
            g->route(pins[p], l);
            std::vector<std::pair<int, int>> r, w = n.route(p);
            for (auto &x : l) {
                CHECK(pidx.count(x.first) && midx.count(x.second.get()), "routing yields an unknown pin or model");
                r.push_back({pidx[x.first], midx[x.second.get()]});
            }
            std::sort(r.begin(), r.end());
            std::sort(w.begin(), w.end());
            if (!w.empty()) routed++;
            if (r != w) {
                std::ostringstream o;
                for (auto &x : r) o << " (p" << x.first << ",m" << x.second << ")";
                o << " expected";
                for (auto &x : w) o << " (p" << x.first << ",m" << x.second << ")";
                FAIL("routing p" << p << " yields" << o.str());
            }
        }
        if (prov) {
            auto &q = g->get_pending();
            CHECK(q.size() == queued.size(), "there are " << q.size() << " queued operations, expected " << queued.size());
            size_t i = 0;
            for (auto &o : q) {
                Op const &x = queued[i++];
                bool ok = true;
                auto pin = [&](int k, int want) { ok = ok && o.pin[k] == pins[want]; };
                auto mod = [&](int want) { ok = ok && o.model == models[want]; };
                switch (x.kind) {
                    case Op::ADD: ok = o.op == G::ADD_ATOMIC; mod(x.a); break;
                    case Op::REMOVE: ok = o.op == G::REMOVE_ATOMIC; mod(x.a); break;
                    case Op::CONNECT_PM: ok = o.op == G::CONNECT_PIN_TO_ATOMIC; pin(0, x.a); mod(x.b); break;
                    case Op::DISCONNECT_PM: ok = o.op == G::DISCONNECT_PIN_FROM_ATOMIC; pin(0, x.a); mod(x.b); break;
                    case Op::CONNECT_PP: ok = o.op == G::CONNECT_PIN_TO_PIN; pin(0, x.a); pin(1, x.b); break;
                    case Op::DISCONNECT_PP: ok = o.op == G::DISCONNECT_PIN_FROM_PIN; pin(0, x.a); pin(1, x.b); break;
                    case Op::REMOVE_PIN: ok = o.op == G::REMOVE_PIN; pin(0, x.a); break;
                }
                CHECK(ok, "queued operation " << i - 1 << " is not: " << x);
            }
        }
    };
    auto commit = [&]() {  // as the simulator does
        g->set_provisional(false);
        prov = false;
        NOTE(ctx, "apply what is queued");
        auto &q = g->get_pending();
        size_t i = 0;
        while (!q.empty()) {
            q.pop_front();
            call(queued[i]);
            apply(n, queued[i]);
            i++;
        }
        queued.clear();
    };
    int ops = (int)s.range(3, 60);
    bool all = s.chance(2, 3);
    for (int i = 0; i < ops; i++) {
        if (s.chance(1, 14)) {
            if (prov)
                commit();
            else {
                NOTE(ctx, "provisional mode");
                g->set_provisional(true);
                prov = true;
            }
            compare();
        }
        Op x;
        x.kind = (Op::Kind)s.weighted({4, 2, 5, 3, 5, 3, 1});
        x.a = (int)s.below(x.kind <= Op::REMOVE ? nm : np);
        x.b = (int)s.below(x.kind == Op::CONNECT_PM || x.kind == Op::DISCONNECT_PM ? nm : np);
        // repeat an edge, often
        bool pm = x.kind == Op::CONNECT_PM || x.kind == Op::DISCONNECT_PM, pp = x.kind == Op::CONNECT_PP || x.kind == Op::DISCONNECT_PP;
        if (pm && !virt.pm.empty() && s.coin()) {
            auto e = std::next(virt.pm.begin(), s.below(virt.pm.size()));
            x.a = e->first.first;
            x.b = e->first.second;
        }
        if (pp && !virt.pp.empty() && s.coin()) {
            auto e = std::next(virt.pp.begin(), s.below(virt.pp.size()));
            x.a = e->first.first;
            x.b = e->first.second;
        }
        if (x.kind == Op::REMOVE && virt.count[x.a] == 0) continue;
        if (x.kind == Op::CONNECT_PM && virt.count[x.b] == 0) continue;
        // many instances
        int times = s.chance(1, 30) ? (int)s.range(2, 300) : 1;
        bool growing = x.kind == Op::ADD || x.kind == Op::CONNECT_PM || x.kind == Op::CONNECT_PP;
        int back = 0;  // that many of them are undone at once
        if (times > 1 && growing && s.chance(1, 2500)) {
            times = 65530 + (int)s.range(1, 12);
            back = (int)s.range(1, 4);
            vast++;
        }
        if (x.kind == Op::CONNECT_PP && !allow_cycles && x.a >= x.b) {
            if (x.a == x.b) continue;
            std::swap(x.a, x.b);
        }
        for (times += back; times > 0; times--) {
            if (times == back) x.kind = (Op::Kind)(x.kind + 1);  // the opposite
            if (x.kind == Op::REMOVE && virt.count[x.a] == 0) break;
            Net v0 = virt;
            apply(virt, x);
            if (x.kind == Op::ADD && virt.count[x.a] >= 20) many++;
            if (x.kind == Op::CONNECT_PM && virt.pm[{x.a, x.b}] >= 20) many++;
            if (x.kind == Op::REMOVE) {
                removes++;
                if (virt.count[x.a] == 0 && v0.pm.size() != virt.pm.size()) last_edge++;
            }
            if (x.kind == Op::REMOVE_PIN) pinrm++;
            if (v0.pp == virt.pp && v0.pm == virt.pm && v0.count == virt.count) noop++;
            if ((pm && x.kind == Op::CONNECT_PM && virt.pm[{x.a, x.b}] > 1) || (x.kind == Op::CONNECT_PP && virt.pp[{x.a, x.b}] > 1)) multi++;
            NOTE(ctx, x << (prov ? " (queued)" : ""));
            call(x);
            if (prov) {
                queued.push_back(x);
                prov_ops++;
            } else
                apply(n, x);
        }
        if (all || i + 1 == ops) compare();
    }
    if (prov) commit();
    compare();
    // taking everything out again leaves nothing
    if (s.coin()) {
        for (int i = 0; i < nm; i++)
            while (n.count[i] > 0) {
                Op x;
                x.kind = Op::REMOVE;
                x.a = i;
                call(x);
                apply(n, x);
            }
        compare();
        CHECK(g->get_atomics().empty(), "models remain after all are removed");
    }
    ctx.nontrivial(routed >= 2 && removes + pinrm >= 1);
    if (multi) ctx.label("edge with several instances");
    if (many) ctx.label("twenty or more instances");
    if (vast) ctx.label("sixty-five thousand instances");
    if (noop) ctx.label("operation without effect");
    if (last_edge) ctx.label("last instance of a connected model removed");
    if (pinrm) ctx.label("pin removed");
    if (prov_ops) ctx.label("provisional operations");
    if (cyc) ctx.label("cyclic pin graph");
}
PBT_MAIN(prop)
