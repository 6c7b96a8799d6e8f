// C29: what simulated once can be simulated again. Models go from one simulator to the
// next, which is given the same graph or coupled model, or another one; their earlier
// simulator ended between cycles, between output and state, or with an exception. Every
// simulation is judged by a reference that starts from the states the models are in.
#include "hyb.h"
#include "netrun.h"
#ifndef TIME
#define TIME double
#endif
using T = TIME;
struct Stop {};  // thrown by a model

struct Sub {  // a coupled model inside of another
    std::shared_ptr<adevs::Coupled<Val, T>> co = std::make_shared<adevs::Coupled<Val, T>>();
    bool used = false;  // in a simulation
    std::set<int> members;
    std::set<std::pair<int, int>> pp;
    std::vector<std::shared_ptr<Sub>> in;
    adevs::Coupled<Val, T>* forget(int m) {  // the one that holds it
        if (members.erase(m) == 0) return nullptr;
        for (auto &x : in)
            if (auto* c = x->forget(m)) return c;
        return co.get();
    }
};
struct Slot {
    std::vector<std::shared_ptr<Sub>> subs;
    std::shared_ptr<adevs::Graph<Val, T>> gr;
    std::shared_ptr<adevs::Coupled<Val, T>> co;
    std::unique_ptr<adevs::Simulator<Val, T>> sim;
    std::unique_ptr<RefSim> ref;
    std::unique_ptr<Lockstep<T>> ls;
    Net net;  // with all that is requested
    std::function<void(int)> judge;
    bool on = false, again = false, moved = false;
};

static void networks(Src &s, Ctx &ctx) {
    GenOpt g;
    g.sd = Conv<T>::sd;
    g.max_models = 6;
    g.max_pins = 6;
    g.mealy_num = s.coin();
    g.mealy_den = 2;
    Net n = g.mealy_num && s.coin() ? gen_mealy_net(s, g) : gen_net(s, g);
    bool big = s.chance(1, 150);
    if (big) n = gen_big_net(s, g);
    for (auto &e : n.pm) e.second = 1;
    for (auto &e : n.pp) e.second = 1;
    int nm = (int)n.models.size();
    World<T> w;
    {
        std::vector<int> id;
        for (int i = 0; i < nm; i++) id.push_back(i);
        make_models(w, n, true, big ? id : s.perm(nm), big ? id : s.perm(nm), s.perm(n.npins));
    }
    NOTE(ctx, show(n));
    std::vector<int> owner(nm, -1);
    std::vector<char> used(nm, 0);  // has been in a simulation
    Slot slot[2];
    int starts = 0, again_graph = 0, again_coupled = 0, others = 0, half = 0, thrown = 0, negative = 0, moved = 0, early = 0, failed = 0, inputs_left = 0, later = 0, nested = 0, adopted = 0;
    std::vector<std::shared_ptr<Sub>> pool;
    auto say = [&](int k) { return std::string("simulation ") + (k ? "B" : "A"); };

    auto build = [&](Slot &a) {
        if (a.co) return new adevs::Simulator<Val, T>(a.co);
        if (a.gr) return new adevs::Simulator<Val, T>(a.gr);
        for (int i = 0; i < nm; i++)
            if (a.net.count[i]) return new adevs::Simulator<Val, T>(w.models[i]);
        throw pbt::Discard();
    };
    auto start = [&](int k, bool again) {
        Slot &a = slot[k];
        if (!again) {
            a.net = n;
            std::vector<int> order;
            int keep = (int)s.range(1, 3);
            for (int i = 0; i < nm; i++) {
                a.net.count[i] = owner[i] < 0 && (big || keep == 3 || s.chance(keep, 3));
                if (a.net.count[i]) order.push_back(i);
            }
            a.subs.clear();
            bool tree = !big && s.chance(1, 3);
            if (tree)
                for (auto &x : pool) {
                    bool ok = !x->used && s.coin();
                    for (auto const &e : x->pp)
                        for (auto &y : a.subs) ok = ok && !y->pp.count(e);
                    for (int i : x->members) {
                        ok = ok && owner[i] < 0;
                        for (auto &y : a.subs) ok = ok && !y->members.count(i);
                    }
                    if (!ok) continue;
                    a.subs.push_back(x);
                    for (int i : x->members)
                        if (!a.net.count[i]) {
                            a.net.count[i] = 1;
                            order.push_back(i);
                        }
                }
            if (order.empty()) return;
            bool before = false;
            for (int i : order) before = before || used[i];
            others += before;
            if (!big) {
                std::vector<int> o;
                for (int i : s.perm((int)order.size())) o.push_back(order[i]);
                order = o;
            }
            for (auto i = a.net.pm.begin(); i != a.net.pm.end();) i = a.net.count[i->first.second] == 0 ? a.net.pm.erase(i) : std::next(i);
            a.gr.reset();
            a.co.reset();
            int how = tree ? 1 : (int)s.range(0, order.size() == 1 ? 2 : 1);
            if (how == 2) {
                a.net.pm.clear();
                a.net.pp.clear();
            } else if (how == 1) {
                a.co = std::make_shared<adevs::Coupled<Val, T>>();
                std::set<int> placed;
                std::set<std::pair<int, int>> drawn;
                for (auto &x : a.subs) {
                    placed.insert(x->members.begin(), x->members.end());
                    drawn.insert(x->pp.begin(), x->pp.end());
                }
                if (!a.subs.empty()) adopted++;
                int fresh = tree ? (int)s.range(0, 2) : 0, old = (int)a.subs.size();
                for (int i = 0; i < fresh; i++) a.subs.push_back(std::make_shared<Sub>());
                nested += !a.subs.empty();
                for (int i : order) {
                    if (placed.count(i)) continue;
                    Sub* x = fresh && s.coin() ? a.subs[old + s.below(fresh)].get() : nullptr;
                    auto &c = x ? x->co : a.co;
                    if (x) x->members.insert(i);
                    c->add_atomic(w.models[i]);
                    for (auto const &e : a.net.pm)
                        if (e.first.second == i) c->create_coupling(w.pins[e.first.first], w.models[i]);
                }
                for (auto const &e : a.net.pp) {
                    if (drawn.count(e.first)) continue;
                    Sub* x = fresh && s.coin() ? a.subs[old + s.below(fresh)].get() : nullptr;
                    if (x) x->pp.insert(e.first);
                    (x ? x->co : a.co)->create_coupling(w.pins[e.first.first], w.pins[e.first.second]);
                }
                for (size_t i = a.subs.size(); i-- > 0;) {
                    bool below = i > 0 && (int)i >= old && s.coin();  // in the one before it
                    if (below) {
                        a.subs[i - 1]->in.push_back(a.subs[i]);
                        a.subs[i - 1]->co->add_coupled_model(a.subs[i]->co);
                        a.subs[i - 1]->members.insert(a.subs[i]->members.begin(), a.subs[i]->members.end());
                        a.subs[i - 1]->pp.insert(a.subs[i]->pp.begin(), a.subs[i]->pp.end());
                    } else {
                        a.co->add_coupled_model(a.subs[i]->co);
                        if ((int)i >= old && pool.size() < 5) pool.push_back(a.subs[i]);
                    }
                }
            } else {
                a.gr = std::make_shared<adevs::Graph<Val, T>>();
                for (int i : order) a.gr->add_atomic(w.models[i]);
                for (auto const &e : edges_of(a.net, big ? nullptr : &s))
                    e.to_model ? a.gr->connect(w.pins[e.src], w.models[e.dst]) : a.gr->connect(w.pins[e.src], w.pins[e.dst]);
            }
        } else if (a.gr)
            again_graph++;
        else if (a.co)
            again_coupled++;
        {
            std::ostringstream o;
            o << "---- " << say(k) << (again ? " again, " : ", ") << (a.gr ? "graph" : a.co ? "coupled" : "atomic") << ":";
            for (int i = 0; i < nm; i++)
                if (a.net.count[i]) o << " m" << i;
            for (auto &y : a.subs) {
                o << "; within:";
                for (int i : y->members) o << " m" << i;
            }
            NOTE(ctx, o.str());
        }
        for (auto &y : a.subs) y->used = true;
        a.ref.reset(new RefSim(a.net, Conv<T>::sd));
        for (int i = 0; i < nm; i++) {
            a.ref->q[i] = w.cells[i]->q;
            a.ref->plan(i, rt(0));
            if (a.net.count[i]) {
                owner[i] = k;
                used[i] = 1;
            }
        }
        a.ref->tNext = a.ref->min();
        if (a.sim && s.coin()) a.sim.reset();  // else it goes when the next one is there
        if (s.chance(1, 8)) {
            do w.bad = (int)s.below(nm);
            while (!a.net.count[w.bad]);
            NOTE(ctx, "the construction fails, because of m" << w.bad);
            bool ok = false;
            try {
                delete build(a);
            } catch (adevs::exception &) {
                ok = true;
            }
            CHECK(ok, "the negative time advance of m" << w.bad << " is not reported");
            w.bad = -1;
            failed++;
        }
        early += a.sim != nullptr;
        w.on_transition = w.on_output = w.after_output = nullptr;
        a.sim.reset(build(a));
        a.ls.reset(new Lockstep<T>(ctx, w, *a.sim, *a.ref));
        a.judge = w.on_output;
        auto r = std::make_shared<Recorder<T>>(&w);
        a.ls->listeners.push_back(r);
        a.ls->cmp_listener_all = true;
        a.sim->addEventListener(r);
        a.on = true;
        a.again = a.moved = false;
        starts++;
    };
    auto end = [&](int k) {
        Slot &a = slot[k];
        later += a.ls->events;
        a.on = false;
        bool left = a.gr && !(a.ref->pending.empty() && a.gr->get_pending().empty());
        if (!left && s.coin()) {
            for (int i = 0; i < nm; i++)
                if (owner[i] == k && !a.net.count[i]) owner[i] = -1;
            start(k, true);
            return;
        }
        for (int i = 0; i < nm; i++)
            if (owner[i] == k) owner[i] = -1;
        for (auto &y : a.subs) y->used = false;
        a.subs.clear();
        if (s.coin()) a.sim.reset();
        if (s.coin() && !a.sim) {
            a.gr.reset();
            a.co.reset();
        }
    };
    auto request = [&](int k) {
        Slot &a = slot[k];
        if (!a.gr && !a.co) return;
        auto put = [&](Op const &x) {
            NOTE(ctx, "    request: " << x);
            apply(a.net, x);
            a.ref->pending.push_back(x);
        };
        Op x;
        x.a = (int)s.below(nm);
        if (owner[x.a] < 0) {
            x.kind = Op::ADD;
            a.ref->q[x.a] = w.cells[x.a]->q;
            owner[x.a] = k;
            moved += used[x.a];
            used[x.a] = 1;
            put(x);
            a.gr ? a.gr->add_atomic(w.models[x.a]) : a.co->add_atomic(w.models[x.a]);
            for (auto const &e : n.pm)
                if (e.first.second == x.a && s.chance(3, 4)) {
                    Op c;
                    c.kind = Op::CONNECT_PM;
                    c.a = e.first.first;
                    c.b = x.a;
                    put(c);
                    a.gr ? a.gr->connect(w.pins[c.a], w.models[x.a]) : a.co->create_coupling(w.pins[c.a], w.models[x.a]);
                }
        } else if (owner[x.a] == k && a.net.count[x.a] == 1) {
            x.kind = Op::REMOVE;
            put(x);
            auto* c = a.co.get();
            for (auto &y : a.subs)
                if (auto* d = y->forget(x.a)) c = d;
            a.gr ? a.gr->remove_atomic(w.models[x.a]) : c->remove_atomic(w.models[x.a]);
        }
    };
    auto step = [&](int k) {
        Slot &a = slot[k];
        auto &ls = *a.ls;
        RefSim &ref = *a.ref;
        NOTE(ctx, "---- " << say(k));
        int fuse = -1, how = 0;
        if (s.chance(1, 8)) {
            how = (int)s.range(1, 3);
            fuse = (int)s.range(0, 3);
        }
        w.on_output = a.judge;
        w.after_output = [&](int) {
            if (how == 1 && fuse-- == 0) throw Stop();
        };
        w.on_transition = [&](int i) {
            if (how == 2 && fuse-- == 0) throw Stop();
            if (how == 3 && fuse-- == 0) w.bad = i;
        };
        if (s.chance(1, 5)) request(k);
        int op = s.weighted({5, 3, 1});
        if (op >= 1) {
            if (op == 2 || ref.tNext.inf) ls.set_next(earlier_time<T>(s, ref));
            for (int i = (int)s.range(1, 3); i > 0; i--) ls.inject((int)s.below(n.npins), (long)s.below(1000));
        }
        if (ref.tNext.inf && !ref.pending.empty()) ls.set_next(ref.now);
        bool over = ref.tNext.inf || ref.now.n > 3000;
        try {
            if (over || (s.chance(1, 12) && ++half)) {
                if (op >= 1) inputs_left++;
                if (!over) {
                    ls.output();
                    NOTE(ctx, "and no further");
                }
                over = true;
            } else if (s.chance(1, 3)) {
                ls.output();
                ls.state();
            } else
                ls.exec();
        } catch (Stop &) {
            NOTE(ctx, "a model throws");
            thrown++;
            over = true;
        } catch (adevs::exception &) {
            CHECK(w.bad >= 0, "an exception without a reason");
            NOTE(ctx, "m" << w.bad << " has a negative time advance");
            w.bad = -1;
            negative++;
            over = true;
        }
        CHECK(w.bad < 0, "the negative time advance of m" << w.bad << " is not reported");
        for (int i = 0; i < nm; i++)  // the ones that left
            if (owner[i] == k && !over && ref.net.count[i] == 0) owner[i] = -1;
        if (over || s.chance(1, 6)) end(k);
    };
    start(0, false);
    int steps = big ? 12 : (int)s.range(1, 40);
    for (int c = 0; c < steps; c++) {
        int k = s.chance(1, 3);
        if (slot[k].on)
            step(k);
        else
            start(k, false);
    }
    for (auto &a : slot)
        if (a.on && a.ls) later += a.ls->events;
    ctx.nontrivial(starts >= 2 && later >= 5);
    if (again_graph) ctx.label("the same graph again");
    if (again_coupled) ctx.label("the same coupled model again");
    if (others) ctx.label("other models with some that were simulated before");
    if (half) ctx.label("ended between output and state");
    if (inputs_left) ctx.label("ended with input that was not applied");
    if (thrown) ctx.label("ended with an exception of a model");
    if (negative) ctx.label("ended with a negative time advance");
    if (moved) ctx.label("model simulated before is added to a running simulation");
    if (early) ctx.label("made before the earlier simulator is gone");
    if (failed) ctx.label("construction failed first");
    if (nested) ctx.label("hierarchy");
    if (adopted) ctx.label("coupled model in another one than before");
    if (starts >= 5) ctx.label("five simulations or more");
    if (big) ctx.label("hundreds of models");
    w.on_transition = w.on_output = w.after_output = nullptr;
}

// A hybrid model goes on where it was: the same with and without interruptions
static void hybrid(Src &s, Ctx &ctx) {
    std::vector<Call> log[2];
    std::vector<Vec> states[2];
    Vec steps[2];
    std::vector<uint64_t> choices;
    std::vector<std::vector<int>> in;
    int cycles = (int)s.range(2, 30), cuts = 0, between = 0;
    for (int round = 0; round < 2; round++) {
        Src c = round == 0 ? Src::forward(s) : Src::replay(choices);
        c.mirror = round == 0;
        Ctx quiet;
        HybRun r(c, round == 0 ? ctx : quiet, true);
        auto &sys = *r.sys;
        double now = 0;
        for (int i = 0; i < cycles; i++) {
            if (round == 0) {
                in.push_back({});
                if (s.chance(1, 5)) in.back().push_back((int)s.below(5));
                if (s.chance(1, 3)) {
                    cuts++;
                    if (s.coin()) {
                        r.sim->computeNextOutput();
                        between++;
                    }
                    if (s.coin()) r.sim.reset();
                    if (s.coin()) {
                        r.g = std::make_shared<adevs::Graph<int>>();
                        r.g->add_atomic(r.model);
                        r.g->add_atomic(r.sink);
                        r.g->connect(sys.pin, r.sink);
                        r.g->connect(r.in_pin, r.model);
                    }
                    r.sim.reset(new adevs::Simulator<int>(r.g));
                    NOTE(ctx, "---- another simulator");
                    now = 0;
                }
            }
            double t = r.sim->nextEventTime();
            if (t == adevs_inf<double>() || (sys.log.size() > 0 && sys.evals > 200000)) break;
            for (int v : in[i]) {
                adevs::PinValue<int> x(r.in_pin, v);
                r.sim->injectInput(x);
            }
            size_t seen = sys.log.size();
            r.sim->execNextEvent();
            steps[round].push_back(t - now);
            now = t;
            for (; seen < sys.log.size(); seen++)
                if (sys.log[seen].kind != 'o') {
                    log[round].push_back(sys.log[seen]);
                    NOTE(ctx, show(sys.log[seen]));
                }
            states[round].push_back(Vec(r.hyb->getState(), r.hyb->getState() + sys.n));
        }
        if (round == 0) choices = c.rec;
    }
    CHECK(states[0].size() == states[1].size(), states[0].size() << " cycles with interruptions, " << states[1].size() << " without");
    for (size_t i = 0; i < states[0].size(); i++) {
        CHECK(states[0][i] == states[1][i], "after cycle " << i << " the state is " << show(states[0][i]) << ", without interruptions it is " << show(states[1][i]));
        CHECK(fabs(steps[0][i] - steps[1][i]) <= 1e-9, "cycle " << i << " comes after " << steps[0][i] << ", without interruptions after " << steps[1][i]);
    }
    CHECK(log[0].size() == log[1].size(), log[0].size() << " events with interruptions, " << log[1].size() << " without");
    for (size_t i = 0; i < log[0].size(); i++)
        CHECK(show(log[0][i]) == show(log[1][i]) && log[0][i].flags == log[1][i].flags, "event " << i << " is " << show(log[0][i]) << ", without interruptions " << show(log[1][i]));
    ctx.nontrivial(cuts >= 1 && log[0].size() >= 2);
    ctx.label("hybrid model again");
    if (between) ctx.label("hybrid model, ended between output and state");
}
static void prop(Src &s, Ctx &ctx) {
    if (s.chance(1, 8))
        hybrid(s, ctx);
    else
        networks(s, ctx);
}
PBT_MAIN(prop)
