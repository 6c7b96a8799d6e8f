// C04: active loops of Mealy models are rejected naming a model on the loop;
// networks whose loops all contain an ordinary model are never rejected.
#include "netrun.h"
#ifndef TIME
#define TIME double
#endif
using T = TIME;

// Mealy models on a loop of the structural Mealy graph
static std::set<int> on_loops(Net const &n) {
    int k = (int)n.models.size();
    std::vector<std::set<int>> reach(k);
    for (int i = 0; i < k; i++)
        if (n.models[i].mealy) {
            std::vector<int> st(1, i);
            while (!st.empty()) {
                int m = st.back();
                st.pop_back();
                for (int x : n.mealy_successors(m))
                    if (reach[i].insert(x).second) st.push_back(x);
            }
        }
    std::set<int> r;
    for (int i = 0; i < k; i++)
        if (reach[i].count(i)) r.insert(i);
    return r;
}
static void prop(Src &s, Ctx &ctx) {
    GenOpt g;
    g.sd = Conv<T>::sd;
    g.allow_mealy_loops = true;
    Net n;
    int kind = s.weighted({4, 2, 2});
    bool always = kind != 1;
    bool deep = s.chance(1, 300);
    if (deep) {  // a long way round, or a long way without return
        always = true;
        kind = 0;
        int len = (int)s.range(20, 300);
        n = gen_mealy_chain(s, len, true);
        if (s.coin()) {
            int last = 0, to = (int)s.below(len);
            for (auto const &e : n.pm)
                if (e.first.first == to) last = e.first.second;
            n.pm[{len - 1, last}]++;
        }
    } else if (kind == 2) {
        // loop free chains visited over several paths, feedback only through Moore models
        g.allow_mealy_loops = false;
        n = gen_mealy_net(s, g);
    } else {
        g.max_models = 8;
        g.mealy_num = 3;
        g.mealy_den = 4;
        g.dense = s.coin();
        n = s.coin() ? gen_net(s, g) : gen_mealy_net(s, g);
        int extra = (int)s.range(0, 3);  // couplings backwards
        for (int i = 0; i < extra; i++) {
            std::pair<int, int> e((int)s.below(n.npins), (int)s.below(n.models.size()));
            n.pm[e]++;
            if (!net_ok(n, g, 0) && --n.pm[e] == 0) n.pm.erase(e);
        }
        if (always)  // each Mealy model writes the same pins whenever it is activated
            for (auto &m : n.models)
                if (m.mealy) {
                    m.mmode = 0;
                    for (int q = 0; q < m.ns; q++) m.mconf[q] = m.mext[q] = m.outs[q];
                }
        // the number of simple paths through the Mealy models bounds the work
        long e = 0;
        for (size_t m = 0; m < n.models.size(); m++)
            if (n.models[m].mealy) e += (long)n.mealy_successors((int)m).size();
        if (e > 14) throw pbt::Discard();
    }
    std::set<int> loops = on_loops(n);
    Rig<T> r(s, ctx, n, false, -1, 1);
    auto &ls = *r.ls;
    RefSim &ref = *r.ref;
    ls.cmp_listener_outputs = true;
    int cycles = (int)s.range(1, 14);
    bool thrown = false;
    for (int c = 0; c < cycles && !thrown; c++) {
        int op = s.weighted({3, 3, 2});
        if (op >= 1) {
            if (op == 2 || ref.tNext.inf) ls.set_next(earlier_time<T>(s, ref));
            int k = burst(s, 2);
            for (int i = 0; i < k; i++) ls.inject((int)s.below(n.npins), (long)s.below(50));
        }
        if (ref.tNext.inf) break;
        // What the Mealy models will do, as far as it can be told beforehand
        std::set<int> act;
        std::vector<int> st;
        auto add = [&](int m) {
            if (n.models[m].mealy && act.insert(m).second) st.push_back(m);
        };
        for (auto const &x : ref.ext)
            for (auto const &d : n.route(x.first)) add(d.second);
        for (size_t m = 0; m < n.models.size(); m++)
            if (ref.tN[m] == ref.tNext) {
                if (n.models[m].mealy)
                    add((int)m);
                else
                    for (auto const &y : out_moore(n.models[m], ref.q[m]))
                        for (auto const &d : n.route(y.first)) add(d.second);
            }
        bool must = false;
        std::set<int> may = loops;
        if (always && kind != 2) {
            // the pins written now are those of the current state
            Net cur = n;
            for (size_t m = 0; m < n.models.size(); m++)
                if (n.models[m].mealy) {
                    Spec &sp = cur.models[m];
                    sp.outs[0] = n.models[m].outs[ref.q[m].s];
                    sp.ns = 1;
                    sp.mext[0].clear();
                    sp.mconf[0].clear();
                }
            while (!st.empty()) {
                int m = st.back();
                st.pop_back();
                for (int x : cur.mealy_successors(m)) add(x);
            }
            may = on_loops(cur);
            // loops that are not active do not hinder the reference
            cur.mealy_order(ref.forced_order);
            for (int m : std::set<int>(may))
                if (act.count(m))
                    must = true;
                else
                    may.erase(m);
        }
        adevs::Atomic<Val, T>* who = nullptr;
        if (always && !must) {
            ls.exec();
            continue;
        }
        // run it without the reference
        NOTE(ctx, "execute next event at " << ref.tNext << (must ? ", a loop is active" : ""));
        ls.begin();
        ls.cmp_output_calls = false;
        try {
            r.sim->computeNextOutput();
        } catch (adevs::exception &e) {
            thrown = true;
            bool known = false;
            for (size_t m = 0; m < n.models.size(); m++)
                if ((void*)r.w.models[m].get() == e.who()) {
                    known = true;
                    CHECK(may.count((int)m), "the exception names m" << m << ", which is not on a loop of Mealy models");
                    NOTE(ctx, "  rejected, naming m" << m);
                }
            (void)who;
            CHECK(known, "the exception names no model of the network");
        }
        CHECK(thrown || !must, "a loop of Mealy models is active at " << ref.tNext << " and not rejected");
        if (!thrown) {
            // consistent: what is published is what is received
            auto out = ls.listeners[0]->ev;
            std::map<int, Bag> want, got;
            for (auto const &x : ref.ext)
                for (auto const &d : n.route(x.first)) want[d.second].push_back({d.first, x.second});
            for (auto const &o : out)
                for (auto const &d : n.route(o.pin)) want[d.second].push_back({d.first, o.val});
            ls.begin();
            r.sim->computeNextState();
            for (auto const &t : r.w.trace)
                if (!t.bag.empty()) got[t.m] = t.bag;
            for (auto &x : want) std::sort(x.second.begin(), x.second.end());
            CHECK(want == got, "the inputs delivered differ from the outputs published at " << ref.tNext);
            ctx.label("loop not active");
            ctx.nontrivial(!loops.empty());
            return;  // the reference did not follow
        }
    }
    if (thrown) ctx.label("rejected");
    if (!thrown && loops.empty()) ctx.label("loop free");
    bool mixed = false;  // feedback through a Moore model
    for (size_t m = 0; m < n.models.size(); m++)
        if (!n.models[m].mealy)
            for (int p : n.models[m].pins())
                for (auto const &d : n.route(p))
                    if (n.models[d.second].mealy) mixed = true;
    if (mixed && loops.empty()) ctx.label("Moore models drive Mealy models, loop free");
    if (ls.recalc) ctx.label("output recomputed");
    if (deep) ctx.label(loops.empty() ? "long chain without loop" : "long loop");
    if (loops.size() == 1) ctx.label("self loop");
    if (loops.size() > 2) ctx.label("loop of three or more");
    if (!thrown && !loops.empty()) ctx.label("loop present, never active");
    ctx.nontrivial(thrown || (ls.cycles >= 2 && (!loops.empty() || ls.recalc > 0 || mixed)));
}
PBT_MAIN(prop)
