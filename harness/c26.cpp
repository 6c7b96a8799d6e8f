// C26: results do not depend on construction order, grouping or memory layout.
// The same network is built two to four times in different ways and run side by side.
#include "netrun.h"
#ifndef TIME
#define TIME double
#endif
using T = TIME;
using G = adevs::Graph<Val, T>;
using Co = adevs::Coupled<Val, T>;

struct Copy {
    World<T> w;
    std::string how;
    std::shared_ptr<G> gr;
    std::vector<std::shared_ptr<Co>> co;
    std::vector<std::shared_ptr<std::vector<char>>> junk;  // shifts what the heap gives out
    std::unique_ptr<adevs::Simulator<Val, T>> sim;
    std::shared_ptr<Recorder<T>> rec;

    Copy(Src &s, Net const &n, bool plain, bool big) {
        int nm = (int)n.models.size();
        std::vector<int> id(nm), pid(n.npins);
        for (int i = 0; i < nm; i++) id[i] = i;
        for (int i = 0; i < n.npins; i++) pid[i] = i;
        std::vector<int> order = id, ins = id, pos = id, pins = pid;
        bool arena = true;
        if (!plain) {
            if (big) {  // a few draws for a large permutation
                uint64_t h = s.below(1u << 30);
                auto by = [&](uint64_t salt) {
                    std::vector<int> v = id;
                    std::sort(v.begin(), v.end(), [&](int a, int b) { return pbt::mix(h + salt, a) < pbt::mix(h + salt, b); });
                    return v;
                };
                if (s.coin()) order = by(1);
                if (s.coin()) ins = by(2);
                if (s.coin()) pos = by(3);
                pins = s.perm(n.npins);
            } else {
                if (s.coin()) order = s.perm(nm);
                if (s.coin()) ins = s.perm(nm);
                if (s.coin()) pos = s.perm(nm);
                if (s.coin()) pins = s.perm(n.npins);
            }
            arena = s.chance(3, 4);
            if (!arena) {
                int k = (int)s.range(0, 5);
                for (int i = 0; i < k; i++) junk.push_back(std::make_shared<std::vector<char>>((size_t)s.range(1, 600)));
            }
        }
        make_models(w, n, arena, pos, order, pins);
        int mode = plain ? 0 : s.weighted({3, 2, 4});
        std::vector<Edge> ed = edges_of(w.net, plain || big ? nullptr : &s);
        bool edges_first = !plain && s.chance(1, 3);
        if (mode == 0) {
            how = "graph";
            gr = std::make_shared<G>();
            auto models = [&]() {
                for (int i : ins) gr->add_atomic(w.models[i]);
            };
            if (!edges_first) models();
            for (auto const &e : ed) put(*gr, e);
            if (edges_first) models();
            sim.reset(new adevs::Simulator<Val, T>(gr));
        } else {
            int k = mode == 1 ? 1 : (int)s.range(2, 5);
            how = k == 1 ? "coupled model" : "hierarchy of " + std::to_string(k) + " coupled models";
            for (int i = 0; i < k; i++) co.push_back(std::make_shared<Co>());
            std::vector<std::vector<int>> in(k);
            std::vector<std::pair<int, std::shared_ptr<Co>>> sub;
            bool late = k > 1 && s.coin();  // parents are put together before or after they are filled
            for (int i = 1; i < k; i++) sub.push_back({(int)s.below(i), co[i]});
            if (!late)
                for (auto &x : sub) co[x.first]->add_coupled_model(x.second);
            for (int i : ins) {
                int g = (int)s.below(k);
                in[g].push_back(i);
                co[g]->add_atomic(w.models[i]);
                if (k > 1 && s.chance(1, 8)) {  // shared
                    int g2 = (int)s.below(k);
                    if (g2 != g) {
                        in[g2].push_back(i);
                        co[g2]->add_atomic(w.models[i]);
                    }
                }
            }
            for (auto const &e : ed) {
                int g = (int)s.below(k);
                if (e.to_model) {
                    std::vector<int> c;
                    for (int i = 0; i < k; i++)
                        if (std::count(in[i].begin(), in[i].end(), e.dst)) c.push_back(i);
                    g = c[s.below(c.size())];
                    co[g]->create_coupling(w.pins[e.src], w.models[e.dst]);
                } else
                    co[g]->create_coupling(w.pins[e.src], w.pins[e.dst]);
            }
            if (late)
                for (auto &x : sub) co[x.first]->add_coupled_model(x.second);
            sim.reset(new adevs::Simulator<Val, T>(co[0]));
        }
        rec = std::make_shared<Recorder<T>>(&w);
        sim->addEventListener(rec);
    }
    void put(G &g, Edge const &e) {
        if (e.to_model)
            g.connect(w.pins[e.src], w.models[e.dst]);
        else
            g.connect(w.pins[e.src], w.pins[e.dst]);
    }
    RT next() { return Conv<T>::from(sim->nextEventTime()); }
    void begin() {
        w.trace.clear();
        rec->ev.clear();
    }
    std::vector<Rec> trace() {
        std::vector<Rec> v = w.trace;
        std::sort(v.begin(), v.end());
        return v;
    }
    std::vector<LEvent> told() {
        std::vector<LEvent> v = rec->ev;
        std::sort(v.begin(), v.end());
        return v;
    }
};

static void prop(Src &s, Ctx &ctx) {
    GenOpt g;
    g.sd = Conv<T>::sd;
    g.mealy_num = (unsigned)s.range(0, 2);
    g.mealy_den = 3;
    bool big = s.chance(1, 60);
    Net n = big ? gen_big_net(s, g) : g.mealy_num && s.coin() ? gen_mealy_net(s, g) : gen_net(s, g);
    NOTE(ctx, show(n));
    int k = (int)s.range(2, big ? 2 : 4);
    std::vector<std::unique_ptr<Copy>> c;
    for (int i = 0; i < k; i++) {
        c.emplace_back(new Copy(s, n, i == 0, big));
        NOTE(ctx, "copy " << i << ": " << c[i]->how);
    }
    int cycles = (int)s.range(1, n.models.size() >= 1000 ? 4 : big ? 60 : 25), events = 0, inputs = 0;
    RT now = rt(0);
    for (int y = 0; y < cycles; y++) {
        for (int i = 1; i < k; i++)
            CHECK(c[i]->next() == c[0]->next(), "the next event is at " << c[i]->next() << " in the " << c[i]->how << " and at "
                                                                       << c[0]->next() << " in the graph");
        RT t = c[0]->next();
        int op = s.weighted({5, 2, 1});
        if (op == 2 || (op == 1 && t.inf)) {
            RT e = radd(now, rt(s.range(0, 4)));
            if (e < t) {
                t = e;
                NOTE(ctx, "set next time " << t);
                for (auto &x : c) x->sim->setNextTime(Conv<T>::to(t));
            }
        }
        if (op >= 1) {
            int m = burst(s, 3);
            for (int i = 0; i < m; i++) {
                int pin = (int)s.below(n.npins);
                long v = (long)s.below(1000);
                NOTE(ctx, "inject p" << pin << "=" << v);
                for (auto &x : c) {
                    adevs::PinValue<Val> pv(x->w.pins[pin], v);
                    x->sim->injectInput(pv);
                }
            }
        }
        if (t.inf) break;
        bool split = s.chance(1, 4), twice = split && s.coin();
        std::vector<RT> r;
        for (auto &x : c) {
            x->begin();
            if (split) {
                x->sim->computeNextOutput();
                if (twice) {
                    x->begin();
                    x->sim->computeNextOutput();
                }
                r.push_back(Conv<T>::from(x->sim->computeNextState()));
            } else
                r.push_back(Conv<T>::from(x->sim->execNextEvent()));
        }
        now = r[0];
        std::vector<Rec> t0 = c[0]->trace();
        std::vector<LEvent> l0 = c[0]->told();
        NOTE(ctx, "cycle at " << t << (split ? " in two steps" : "") << ":" << show(t0));
        events += (int)t0.size();
        for (auto const &x : t0) inputs += x.kind != 'i';
        for (int i = 1; i < k; i++) {
            CHECK(r[i] == r[0], "the cycle at " << t << " returns " << r[i] << " in the " << c[i]->how << " and " << r[0] << " in the graph");
            CHECK(c[i]->trace() == t0, "in the cycle at " << t << " the " << c[i]->how << " executes" << show(c[i]->trace())
                                                          << "\n    and the graph" << show(t0));
            CHECK(c[i]->told() == l0, "in the cycle at " << t << " a listener is told in the " << c[i]->how << show(c[i]->told())
                                                         << "\n    and in the graph" << show(l0));
            for (size_t m = 0; m < n.models.size(); m++)
                CHECK(c[i]->w.cells[m]->q == c[0]->w.cells[m]->q, "after the cycle at " << t << " the state of m" << m << " in the " << c[i]->how
                                                                                        << " is not that in the graph");
        }
        if (now.n > 3000) break;
    }
    ctx.nontrivial(events >= 3 && inputs >= 1);
    for (int i = 1; i < k; i++)
        ctx.label(c[i]->co.empty() ? "graph again, permuted" : c[i]->co.size() == 1 ? "coupled model" : "hierarchy");
    if (g.mealy_num && !big) ctx.label("Mealy models");
    if (big) ctx.label("hundreds of models");
}
PBT_MAIN(prop)
