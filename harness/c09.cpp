// C09: hierarchies of coupled models are equivalent to their flattened network,
// initially and after every change made while the simulation runs.
#include "netrun.h"
#ifndef TIME
#define TIME double
#endif
using T = TIME;

// The hierarchy: coupled model 0 is the root. A child has a larger number.
struct Hier {
    int nc = 1;
    std::vector<std::set<int>> atomics, children;
    std::vector<std::set<std::pair<int, int>>> pm, pp;
    std::vector<long> occurrences() const {
        std::vector<long> o(nc, 0);
        o[0] = 1;
        for (int c = 0; c < nc; c++)
            for (int k : children[c]) o[k] += o[c];
        return o;
    }
    // a coupling to a model that is part of a part, and that model is gone
    bool dangling(Net const &n) const {
        std::vector<long> o = occurrences();
        for (int c = 0; c < nc; c++)
            for (auto e : pm[c])
                if (o[c] > 0 && n.count[e.second] == 0) return true;
        return false;
    }
    std::set<int> parts(int c) const {
        std::set<int> r = atomics[c];
        for (int k : children[c]) {
            std::set<int> x = parts(k);
            r.insert(x.begin(), x.end());
        }
        return r;
    }
    void flatten(Net &n) const {
        n.pp.clear();
        n.pm.clear();
        n.count.assign(n.models.size(), 0);
        std::vector<long> o = occurrences();
        for (int c = 0; c < nc; c++) {
            if (o[c] == 0) continue;
            for (int m : atomics[c]) n.count[m] += (int)o[c];
            for (auto e : pm[c]) n.pm[e] += (int)o[c];
            for (auto e : pp[c]) n.pp[e] += (int)o[c];
        }
    }
};
static void prop(Src &s, Ctx &ctx) {
    GenOpt g;
    g.sd = Conv<T>::sd;
    g.max_models = 7;
    g.max_pins = 6;
    g.mealy_num = s.chance(1, 4) ? 1 : 0;
    g.mealy_den = 3;
    Net n;
    n.npins = (int)s.range(1, 6);
    int nm = (int)s.range(1, 7);
    for (int i = 0; i < nm; i++) n.models.push_back(gen_spec(s, n, g));
    n.count.assign(nm, 0);
    Hier h;
    int most = s.chance(1, 50) ? 700 : 12;  // instances of one model
    h.nc = most > 12 ? (int)s.range(8, 15) : (int)s.size(1, 5, 25);
    h.atomics.resize(h.nc);
    h.children.resize(h.nc);
    h.pm.resize(h.nc);
    h.pp.resize(h.nc);
    World<T> w;
    make_models(w, n, true, s.perm(nm), s.perm(nm), s.perm(n.npins));
    std::vector<std::shared_ptr<adevs::Coupled<Val, T>>> co;
    for (int i = 0; i < h.nc; i++) co.push_back(std::make_shared<adevs::Coupled<Val, T>>());
    std::unique_ptr<adevs::Simulator<Val, T>> sim;
    std::unique_ptr<RefSim> ref;
    std::set<int> dropped;
    int nops = 0, shared_a = 0, shared_c = 0, rm_coupled = 0, rm_atomic = 0, readd = 0, outside = 0, same = 0, running = 0, foreign = 0;
    // one operation on the hierarchy; false when it does not apply
    auto change = [&](bool quiet) {
        int op = quiet ? s.weighted({5, 0, 6, 1, 3, 1, 4, 0}) : s.weighted({3, 2, 4, 1, 2, 1, 2, 2});
        int c = (int)s.below(h.nc);
        Hier k = h;
        Net v = n;
        int m = (int)s.below(nm), p = (int)s.below(n.npins), p2 = 0, ch = 0;
        std::ostringstream what;
        switch (op) {
            case 0:
                k.atomics[c].insert(m);
                what << "add m" << m << " to c" << c;
                break;
            case 1:
                if (!k.atomics[c].empty() && s.chance(3, 4)) m = *std::next(k.atomics[c].begin(), s.below(k.atomics[c].size()));
                k.atomics[c].erase(m);
                for (auto i = k.pm[c].begin(); i != k.pm[c].end();) i = i->second == m ? k.pm[c].erase(i) : std::next(i);
                what << "remove m" << m << " from c" << c;
                break;
            case 2:
            {
                // a component, or a component of a component
                std::set<int> from = s.chance(1, 3) ? k.parts(c) : k.atomics[c];
                if (from.empty()) return false;
                m = *std::next(from.begin(), s.below(from.size()));
                k.pm[c].insert({p, m});
                what << "couple p" << p << "->m" << m << " in c" << c;
                break;
            }
            case 3:
                if (k.pm[c].empty() || s.chance(1, 4)) {
                } else {
                    auto e = std::next(k.pm[c].begin(), s.below(k.pm[c].size()));
                    p = e->first;
                    m = e->second;
                }
                k.pm[c].erase({p, m});
                what << "uncouple p" << p << "->m" << m << " in c" << c;
                break;
            case 4:
                if (n.npins < 2) return false;
                p = (int)s.below(n.npins - 1);
                p2 = (int)s.range(p + 1, n.npins - 1);
                k.pp[c].insert({p, p2});
                what << "couple p" << p << "->p" << p2 << " in c" << c;
                break;
            case 5:
                p2 = (int)s.below(n.npins);
                if (!k.pp[c].empty() && s.chance(3, 4)) {
                    auto e = std::next(k.pp[c].begin(), s.below(k.pp[c].size()));
                    p = e->first;
                    p2 = e->second;
                }
                k.pp[c].erase({p, p2});
                what << "uncouple p" << p << "->p" << p2 << " in c" << c;
                break;
            case 6:
                if (c + 1 >= h.nc) return false;
                ch = (int)s.range(c + 1, h.nc - 1);
                k.children[c].insert(ch);
                what << "add c" << ch << " to c" << c;
                break;
            default:
                if (k.children[c].empty()) return false;
                ch = *std::next(k.children[c].begin(), s.below(k.children[c].size()));
                k.children[c].erase(ch);
                what << "remove c" << ch << " from c" << c;
        }
        k.flatten(v);
        if (k.dangling(v)) return false;
        for (int x : v.count)
            if (x > most) return false;
        if (!net_ok(v, g, 0)) return false;
        bool changed = k.atomics != h.atomics || k.children != h.children || k.pm != h.pm || k.pp != h.pp;
        NOTE(ctx, (sim ? "    " : "  ") << what.str());
        for (int x = 0; x < k.nc; x++)
            for (auto e : k.pm[x])
                if (!k.atomics[x].count(e.second)) foreign++;
        if (sim) {
            auto o = h.occurrences();
            if (!changed) same++;
            if (o[c] == 0) outside++;
            if (o[c] > 1) shared_c++;
            if (op == 7 && o[c] > 0) rm_coupled++;
            if (op == 1 && changed && o[c] > 0) rm_atomic++;
            running++;
        }
        nops++;
        h = k;
        h.flatten(n);
        for (int i = 0; i < nm; i++) {
            if (n.count[i] == 0) dropped.insert(i);
            if (n.count[i] > 1) shared_a++;
            if (sim && n.count[i] > 0 && dropped.count(i) && ref->net.count[i] > 0) readd++;
        }
        switch (op) {
            case 0: co[c]->add_atomic(w.models[m]); break;
            case 1: co[c]->remove_atomic(w.models[m]); break;
            case 2: co[c]->create_coupling(w.pins[p], w.models[m]); break;
            case 3: co[c]->remove_coupling(w.pins[p], w.models[m]); break;
            case 4: co[c]->create_coupling(w.pins[p], w.pins[p2]); break;
            case 5: co[c]->remove_coupling(w.pins[p], w.pins[p2]); break;
            case 6: co[c]->add_coupled_model(co[ch]); break;
            case 7: co[c]->remove_coupled_model(co[ch]); break;
        }
        return true;
    };
    int build = (int)s.range(3, 40) + (h.nc > 5 ? 4 * h.nc : 0);
    for (int i = 0; most > 12 && i + 1 < h.nc; i++)  // as many as the Fibonacci numbers
        for (int d = i + 1; d < h.nc && d <= i + 2; d++) {
            h.children[i].insert(d);
            co[i]->add_coupled_model(co[d]);
        }
    for (int i = 0; i < build; i++) change(!s.chance(1, 8));
    h.flatten(n);
    w.net.count = n.count;
    NOTE(ctx, show(n));
    dropped.clear();
    ref.reset(new RefSim(n, Conv<T>::sd));
    ref->at_end = [&](RT t) {
        std::vector<int> old = ref->net.count;
        ref->net = n;
        for (int i = 0; i < nm; i++)
            if (n.count[i] > 0 && (old[i] == 0 || dropped.count(i))) ref->plan(i, t);
        dropped.clear();
    };
    sim.reset(new adevs::Simulator<Val, T>(co[0]));
    Lockstep<T> ls(ctx, w, *sim, *ref);
    bool dynamic = s.chance(3, 4);
    w.on_transition = [&](int) {
        while (dynamic && s.chance(1, 3)) change(false);
    };
    int cycles = (int)s.range(2, 25);
    for (int c = 0; c < cycles; c++) {
        if (dynamic && s.chance(1, 3)) change(false);
        if (ref->tNext.inf || s.chance(1, 4)) {
            ls.set_next(earlier_time<T>(s, *ref));
            int k = s.chance(1, 4) ? 0 : burst(s, 3);
            for (int i = 0; i < k; i++) ls.inject((int)s.below(n.npins), (long)s.below(1000));
        }
        if (ref->now.n > 3000) break;
        ls.exec();
    }
    auto o = h.occurrences();
    ctx.nontrivial(ls.events >= 3 && h.nc >= 2 && (running >= 2 || !dynamic));
    if (shared_a) ctx.label("atomic model with several instances");
    if (shared_c) ctx.label("change to a shared coupled model");
    if (rm_coupled) ctx.label("coupled model removed from the simulation");
    if (rm_atomic) ctx.label("atomic model removed from a coupled model");
    if (readd) ctx.label("model removed and added again");
    if (outside) ctx.label("change to a coupled model outside the simulation");
    if (same) ctx.label("change that changes nothing");
    if (foreign) ctx.label("coupling to a part of a part");
    if (h.nc > 8) ctx.label("many coupled models");
    if (*std::max_element(n.count.begin(), n.count.end()) > 255) ctx.label("hundreds of instances");
    if (!dynamic) ctx.label("static hierarchy");
}
PBT_MAIN(prop)
