// C15: models live exactly as long as they are needed; nothing is used after its
// end and nothing is left behind. The case is a script that builds, runs, changes
// and tears down a simulation. It is interpreted three times: what is allocated
// after each run must not grow. The lifetime of each model is compared with the
// references that the script and the simulated network hold.
#include <sanitizer/allocator_interface.h>
#include "adevs/adevs.h"
#include "pbt.h"
using pbt::Ctx;
using pbt::Src;
double adevs::double_fcmp::epsilon = 1e-9;
using V = std::shared_ptr<int>;
using T = double;
using Atomic = adevs::Atomic<V, T>;
using Pv = adevs::PinValue<V>;

struct Step {  // one action and its arguments
    int op;
    unsigned a, b, c;
};
struct Script {
    int mode = 0;  // 0 graph, 1 coupled, 2 a single model
    int nm = 1, np = 1, nc = 1, nlisten = 0;
    bool steady = false;
    std::vector<int> kind, out;         // of each model: 1 mealy; pin it writes
    std::vector<std::vector<int>> tas;  // of each model: its time advances, -1 for infinity
    std::vector<Step> build, run, in_cycle, after;
    std::vector<int> teardown;
};

struct Exec;
struct Life {
    long magic = 0x5ca1ab1e;
    int id;
    Exec* x;
    int state = 0;
    Life(Exec* x, int id);
    ~Life();
    T ta() const;
    void check() const { CHECK(magic == 0x5ca1ab1e, "a function of a destroyed model is called"); }
    void emit(std::list<Pv> &y) const;
    void moved(int times);
};
struct Moore : Atomic {
    Life l;
    Moore(Exec* x, int id) : l(x, id) {}
    T ta() override { return l.ta(); }
    void delta_int() override { l.moved(1); }
    void delta_ext(T, std::list<Pv> const &xb) override { l.moved((int)xb.size()); }
    void delta_conf(std::list<Pv> const &xb) override { l.moved((int)xb.size() + 1); }
    void output_func(std::list<Pv> &y) override { l.emit(y); }
};
struct Mealy : adevs::MealyAtomic<V, T> {
    Life l;
    Mealy(Exec* x, int id) : l(x, id) {}
    T ta() override { return l.ta(); }
    void delta_int() override { l.moved(1); }
    void delta_ext(T, std::list<Pv> const &xb) override { l.moved((int)xb.size()); }
    void delta_conf(std::list<Pv> const &xb) override { l.moved((int)xb.size() + 1); }
    void output_func(std::list<Pv> &y) override { l.emit(y); }
    void external_output_func(T, std::list<Pv> const &, std::list<Pv> &y) override { l.emit(y); }
    void confluent_output_func(std::list<Pv> const &, std::list<Pv> &y) override { l.emit(y); }
};
static long live_listeners, live_values;
struct Listener : adevs::EventListener<V, T> {
    long n = 0;
    Listener() { live_listeners++; }
    ~Listener() { live_listeners--; }
    void outputEvent(Atomic &, Pv &x, T) override { n += *x.value; }
    void inputEvent(Atomic &, Pv &x, T) override { n += *x.value; }
    void stateChange(Atomic &m, T) override { n += m.ta() < 0; }
};
static V value(int k) {
    live_values++;
    return V(new int(k), [](int* p) {
        live_values--;
        delete p;
    });
}

struct Exec {
    Script const &sc;
    Ctx &ctx;
    bool notes;
    std::vector<std::shared_ptr<Atomic>> h;
    std::vector<std::weak_ptr<Atomic>> weak;
    std::vector<int> alive;
    std::vector<std::shared_ptr<adevs::Coupled<V, T>>> co;
    std::vector<std::weak_ptr<adevs::Coupled<V, T>>> wco;
    std::vector<adevs::pin_t> pins;
    std::shared_ptr<adevs::Graph<V, T>> graph;
    std::unique_ptr<adevs::Simulator<V, T>> sim;
    bool had_sim = false, graph_dead = false, thrown = false;
    // what has been asked of the graph so far
    std::vector<long> count;
    std::map<std::pair<int, int>, long> pm;
    // what the coupled models hold
    std::vector<std::set<int>> atomics, children;
    std::vector<std::set<std::pair<int, int>>> cpm, cpp_;
    size_t next_in_cycle = 0;
    bool in_state = false;
    int died = 0, kept = 0, recreated = 0, late = 0, self = 0;
    long cycles = 0;

    Exec(Script const &sc, Ctx &ctx, bool notes)
        : sc(sc), ctx(ctx), notes(notes), h(sc.nm), weak(sc.nm), alive(sc.nm, 0), co(sc.nc), wco(sc.nc), pins(sc.np),
          count(sc.nm, 0), atomics(sc.nc), children(sc.nc), cpm(sc.nc), cpp_(sc.nc) {}
    void note(std::string const &s) {
        if (notes) NOTE(ctx, s);
    }
    std::shared_ptr<Atomic> get(int m) { return weak[m].lock(); }
    void create(int m) {
        if (sc.kind[m])
            h[m] = std::make_shared<Mealy>(this, m);
        else
            h[m] = std::shared_ptr<Atomic>(new Moore(this, m));
        weak[m] = h[m];
    }
    std::vector<long> occ() const {
        std::vector<long> o(sc.nc, 0);
        o[0] = had_sim;
        for (int c = 0; c < sc.nc; c++)
            for (int k : children[c]) o[k] += o[c];
        return o;
    }
    std::vector<long> flat() const {
        std::vector<long> n(sc.nm, 0), o = occ();
        for (int c = 0; c < sc.nc; c++)
            for (int m : atomics[c]) n[m] += o[c];
        return n;
    }
    // Reached from a handle of the script
    std::vector<int> held() const {
        std::vector<int> r(sc.nm, 0), c(sc.nc, 0);
        for (int m = 0; m < sc.nm; m++) r[m] = h[m] != nullptr;
        for (int k = 0; k < sc.nc; k++) {
            if (co[k]) c[k] = 1;
            if (!c[k]) continue;
            for (int j : children[k]) c[j] = 1;
            for (int m : atomics[k]) r[m] = 1;
        }
        return r;
    }
    void lifetimes(char const* when) {
        if (thrown) return;
        std::vector<int> r = held();
        for (int m = 0; m < sc.nm; m++) {
            bool want = r[m] || (count[m] > 0 && !graph_dead);
            if (notes && !want && !alive[m]) died++;
            if (notes && want && !r[m]) kept++;
            CHECK(!want || alive[m], "model m" << m << " was destroyed " << when << " although "
                                               << (r[m] ? "it is referred to" : "it is part of the network"));
            CHECK(want || !alive[m], "model m" << m << " is still alive " << when
                                               << " although nothing needs it any longer");
        }
    }
    // pins only lead to pins of larger number, so there are no loops of pins
    void act(Step const &s) {
        int m = s.a % sc.nm, p = s.b % sc.np, c = s.c % sc.nc;
        std::ostringstream o;
        auto mod = get(m);
        bool can_graph = graph && sc.mode == 0;
        switch (s.op) {
            case 0:  // add
                if (!mod) {
                    if (alive[m]) return;
                    create(m);
                    recreated += had_sim;
                    mod = h[m];
                    o << "new m" << m << "; ";
                }
                if (can_graph && count[m] < 3) {
                    o << "graph: add m" << m;
                    graph->add_atomic(mod);
                    count[m]++;
                } else if (sc.mode == 1) {
                    auto k = wco[c].lock();
                    if (!k || occ()[c] > 6) return;
                    o << "c" << c << ": add m" << m;
                    k->add_atomic(mod);
                    change([&] { atomics[c].insert(m); });
                }
                break;
            case 1:  // remove
                if (!mod) return;
                if (can_graph && count[m] > 0) {
                    o << "graph: remove m" << m;
                    graph->remove_atomic(mod);
                    if (--count[m] == 0)
                        for (auto i = pm.begin(); i != pm.end();) i = i->first.second == m ? pm.erase(i) : std::next(i);
                } else if (sc.mode == 1) {
                    auto k = wco[c].lock();
                    if (!k) return;
                    o << "c" << c << ": remove m" << m;
                    k->remove_atomic(mod);
                    change([&] {
                        atomics[c].erase(m);
                        for (auto i = cpm[c].begin(); i != cpm[c].end();) i = i->second == m ? cpm[c].erase(i) : std::next(i);
                    });
                }
                break;
            case 2:  // couple a pin to a model
                if (!mod) return;
                if (can_graph && count[m] > 0) {
                    o << "graph: connect p" << p << "->m" << m;
                    graph->connect(pins[p], mod);
                    pm[{p, m}]++;
                } else if (sc.mode == 1) {
                    auto k = wco[c].lock();
                    if (!k || !atomics[c].count(m)) return;
                    o << "c" << c << ": couple p" << p << "->m" << m;
                    k->create_coupling(pins[p], mod);
                    cpm[c].insert({p, m});
                }
                break;
            case 3:  // uncouple
                if (!mod) return;
                if (can_graph) {
                    o << "graph: disconnect p" << p << "->m" << m;
                    graph->disconnect(pins[p], mod);
                } else if (sc.mode == 1) {
                    auto k = wco[c].lock();
                    if (!k) return;
                    o << "c" << c << ": uncouple p" << p << "->m" << m;
                    k->remove_coupling(pins[p], mod);
                    cpm[c].erase({p, m});
                }
                break;
            case 4: {  // couple pins
                int q = p + 1 + (int)(s.a % sc.np);
                if (q >= sc.np) return;
                if (can_graph) {
                    o << "graph: connect p" << p << "->p" << q;
                    graph->connect(pins[p], pins[q]);
                } else if (sc.mode == 1) {
                    auto k = wco[c].lock();
                    if (!k || cpp_[c].size() > 3) return;
                    o << "c" << c << ": couple p" << p << "->p" << q;
                    k->create_coupling(pins[p], pins[q]);
                    cpp_[c].insert({p, q});
                }
                break;
            }
            case 5:  // uncouple pins, remove a pin
                if (can_graph) {
                    if (s.c % 2) {
                        o << "graph: remove p" << p;
                        graph->remove_pin(pins[p]);
                    } else {
                        int q = (int)(s.a % sc.np);
                        o << "graph: disconnect p" << p << "->p" << q;
                        graph->disconnect(pins[p], pins[q]);
                    }
                } else if (sc.mode == 1) {
                    auto k = wco[c].lock();
                    if (!k) return;
                    int q = (int)(s.a % sc.np);
                    o << "c" << c << ": uncouple p" << p << "->p" << q;
                    k->remove_coupling(pins[p], pins[q]);
                    cpp_[c].erase({p, q});
                }
                break;
            case 6:  // the script lets go of a model
                if (!h[m]) return;
                o << "drop m" << m;
                mod.reset();
                h[m].reset();
                break;
            case 7: {  // coupled models
                if (sc.mode != 1) return;
                int k = c + 1 + (int)(s.a % sc.nc);
                auto pa = wco[c].lock();
                if (k >= sc.nc || !pa) return;
                auto ch = wco[k].lock();
                if (!ch || occ()[c] > 3) return;
                if (s.b % 3) {
                    o << "c" << c << ": add c" << k;
                    pa->add_coupled_model(ch);
                    change([&] { children[c].insert(k); });
                } else {
                    o << "c" << c << ": remove c" << k;
                    pa->remove_coupled_model(ch);
                    change([&] { children[c].erase(k); });
                }
                break;
            }
            case 8:  // the script lets go of a coupled model
                if (!co[c]) return;
                o << "drop c" << c;
                co[c].reset();
                break;
            case 9:
                if (!sim || in_state) return;
                o << "inject into p" << p;
                {
                    Pv x(pins[p], value((int)s.a % 100));
                    sim->injectInput(x);
                    if (s.c % 2) sim->setNextTime(std::min(sim->nextEventTime(), now));
                }
                break;
            case 10:
                if (!sim || in_state || !(sim->nextEventTime() < adevs_inf<T>())) return;
                o << "compute the output ahead";
                sim->computeNextOutput();
                break;
            case 11:
                if (!sim || in_state) return;
                o << "clear injected input";
                sim->clearInjectedInput();
                break;
            default: {
                auto l = std::make_shared<Listener>();
                if (!sim || in_state || s.a % 4) return;
                sim->addEventListener(l);
                o << "add a listener";
            }
        }
        note((in_state ? "    " : "  ") + o.str());
    }
    T now = 0;
    template <class F>
    void change(F f) {
        auto a = flat();
        f();
        auto b = flat();
        if (had_sim && !graph_dead)
            for (int m = 0; m < sc.nm; m++) count[m] += b[m] - a[m];
    }
    void transition(Life* who) {
        if (sc.steady) {
            // what is added is taken away again
            auto m = get(who->id);
            if (graph) {
                adevs::pin_t p;
                graph->connect(p, m);
                graph->connect(pins[0], p);
                if (cycles % 2) graph->disconnect(p, m);
                graph->remove_pin(p);
                auto g = std::make_shared<Moore>(this, -1);
                graph->add_atomic(g);
                graph->connect(pins[0], g);
                if (cycles % 3) graph->disconnect(pins[0], g);
                graph->remove_atomic(g);
            }
            return;
        }
        int k = (int)(who->id % 3);
        while (k-- >= 0 && next_in_cycle < sc.in_cycle.size()) {
            Step s = sc.in_cycle[next_in_cycle++];
            if (s.op < 0) return;
            if (s.c % 5 == 0) {
                s.a = (unsigned)who->id;  // a model acts on itself
                if (s.op == 1 || s.op == 6) self++;
            }
            act(s);
        }
    }
    void cycle() {
        if (!sim || thrown) return;
        if (!(sim->nextEventTime() < adevs_inf<T>())) return;
        note("  cycle at " + std::to_string(sim->nextEventTime()));
        sim->computeNextOutput();
        in_state = true;
        now = sim->computeNextState();
        in_state = false;
        cycles++;
        lifetimes("after a cycle");
    }
    void run() {
        for (int m = 0; m < sc.nm; m++) create(m);
        if (sc.mode == 0) graph = std::make_shared<adevs::Graph<V, T>>();
        if (sc.mode == 1)
            for (int c = 0; c < sc.nc; c++) wco[c] = co[c] = std::make_shared<adevs::Coupled<V, T>>();
        for (auto const &s : sc.build)
            if ((s.op != 6 || sc.mode != 2) && (s.op != 8 || s.c % sc.nc)) act(s);
        try {
            if (sc.mode == 0)
                sim.reset(new adevs::Simulator<V, T>(graph));
            else if (sc.mode == 1)
                sim.reset(new adevs::Simulator<V, T>(co[0]));
            else
                sim.reset(new adevs::Simulator<V, T>(h[0]));
        } catch (adevs::exception &e) {
            thrown = true;
            return;
        }
        auto f = flat();
        had_sim = true;
        if (sc.mode == 1) count = flat();
        if (sc.mode == 2) count[0] = 1;
        note("  simulator created");
        for (int i = 0; i < sc.nlisten; i++) sim->addEventListener(std::make_shared<Listener>());
        lifetimes("after the simulator was created");
        try {
            for (auto const &s : sc.run) {
                if (s.op < 0)
                    cycle();
                else
                    act(s);
            }
            if (sc.steady) {
                size_t peak[3] = {0, 0, 0};
                long n = 240;
                for (long i = 0; i < 3 * n && sim->nextEventTime() < adevs_inf<T>(); i++) {
                    cycle();
                    peak[i / n] = std::max(peak[i / n], __sanitizer_get_current_allocated_bytes());
                }
                if (notes && peak[2]) ctx.label("steady model run for long");
                CHECK(peak[2] == 0 || peak[2] <= std::max(peak[1], peak[0]) + 2048,
                      "memory grows with the number of cycles: peaks of " << peak[0] << ", " << peak[1] << ", " << peak[2]);
            }
        } catch (adevs::exception &e) {
            // a negative time advance or a loop of Mealy models: from here only the end matters
            thrown = true;
            in_state = false;
            note(std::string("  exception: ") + e.what());
            if (notes) ctx.label("torn down after an exception");
        }
        size_t j = 0;
        for (int t : sc.teardown) {
            switch (t) {
                case 0:
                    note("  destroy the simulator");
                    sim.reset();
                    if (sc.mode != 0 || !graph) graph_dead = true;
                    if (graph_dead) lifetimes("after the simulator was destroyed");
                    break;
                case 1:
                    note("  drop the graph");
                    graph.reset();
                    if (sc.mode == 0 && !sim) {
                        graph_dead = true;
                        lifetimes("after simulator and graph were destroyed");
                    }
                    break;
                case 2:
                    note("  drop all models");
                    for (auto &x : h) x.reset();
                    break;
                case 3:
                    note("  drop all coupled models");
                    for (auto &x : co) x.reset();
                    break;
                case 4:
                    note("  drop all pins");
                    for (size_t i = 0; i < pins.size(); i++) pins[i] = adevs::pin_t();
                    break;
                default:
                    for (int k = 0; k < 3 && j < sc.after.size(); k++) {
                        auto const &s = sc.after[j++];
                        if (!sim && (s.op <= 5 || s.op == 7)) late++;
                        if (!thrown || graph_dead) act(s);
                    }
            }
        }
    }
};
Life::Life(Exec* x, int id) : id(id), x(x) {
    if (id >= 0) x->alive[id]++;
}
Life::~Life() {
    check();
    if (id >= 0) x->alive[id]--;
    magic = 0xdead;
}
T Life::ta() const {
    check();
    if (id < 0) return 1;
    auto const &v = x->sc.tas[id];
    int k = v[state % v.size()];
    return k == -1 ? adevs_inf<T>() : k == -2 ? -1.0 : k * 0.5;
}
void Life::emit(std::list<Pv> &y) const {
    check();
    if (id < 0) return;
    int p = x->sc.out[id];
    if (p >= 0)
        for (int i = 0; i <= state % 2; i++) y.push_back(Pv(x->pins[p], value(state % 100)));
}
void Life::moved(int k) {
    check();
    if (id < 0) return;
    Exec* e = x;
    state = (state + k) % 1000;
    e->transition(this);
    check();
}

static Step gen_step(Src &s, std::initializer_list<int> w) {
    Step x;
    x.op = s.weighted(w);
    x.a = (unsigned)s.below(60);
    x.b = (unsigned)s.below(60);
    x.c = (unsigned)s.below(60);
    return x;
}
static void prop(Src &s, Ctx &ctx) {
    Script sc;
    sc.steady = s.chance(1, 40);
    sc.mode = sc.steady ? s.weighted({3, 1, 1}) : s.weighted({5, 5, 1});
    sc.nm = sc.mode == 2 ? 1 : (int)s.range(1, 6);
    sc.np = (int)s.range(1, 5);
    sc.nc = (int)s.range(1, 4);
    sc.nlisten = (int)s.below(3);
    for (int i = 0; i < sc.nm; i++) {
        sc.kind.push_back(s.chance(1, 4));
        sc.out.push_back((int)s.range(0, sc.np) - 1);
        std::vector<int> v;
        int n = (int)s.range(1, 3);
        for (int k = 0; k < n; k++) v.push_back(s.chance(1, 80) ? -2 : s.weighted({4, 3, 2, 1, 2}) == 4 ? -1 : (int)s.range(1, 4));
        sc.tas.push_back(v);
    }
    int nb = (int)s.range(1, 25), nr = sc.steady ? 0 : (int)s.range(1, 30), ni = sc.steady ? 0 : (int)s.range(0, 25),
        na = (int)s.range(0, 8);
    for (int i = 0; i < nb; i++) sc.build.push_back(gen_step(s, {8, 1, 8, 1, 3, 1, 1, 6, 0}));
    for (int i = 0; i < nr; i++) {
        if (s.chance(3, 5)) {
            sc.run.push_back(Step{-1, 0, 0, 0});
            continue;
        }
        sc.run.push_back(gen_step(s, {3, 4, 3, 1, 1, 1, 5, 2, 1, 2, 1, 1, 1}));
    }
    for (int i = 0; i < ni; i++) {
        sc.in_cycle.push_back(gen_step(s, {4, 5, 3, 1, 1, 1, 5, 3, 1}));
        if (s.chance(1, 3)) sc.in_cycle.back().op = -1;
    }
    for (int i = 0; i < na; i++) sc.after.push_back(gen_step(s, {3, 3, 3, 2, 2, 2, 3, 3, 2}));
    std::vector<int> p = s.perm(8);
    for (int k : p) sc.teardown.push_back(k > 4 ? 5 : k);

    long l0 = live_listeners, v0 = live_values;
    size_t bytes[3];
    for (int i = 0; i < 3; i++) {
        {
            Exec x(sc, ctx, i == 0);
            x.run();
            if (i == 0) {
                ctx.nontrivial(sc.steady || (x.cycles >= 2 && x.next_in_cycle + x.kept + x.died >= 2));
                if (x.kept) ctx.label("kept alive by the network only");
                if (x.died) ctx.label("destroyed while the simulation runs");
                if (x.recreated) ctx.label("new model in the place of a destroyed one");
                if (x.late) ctx.label("changes after the simulator was destroyed");
                if (x.self) ctx.label("model removes itself in a transition");
                if (sc.mode == 1) ctx.label("coupled models");
            }
            // the end of the rest
            x.sim.reset();
            x.graph.reset();
            x.graph_dead = true;
            x.h.assign(sc.nm, nullptr);
            x.co.assign(sc.nc, nullptr);
            for (int m = 0; m < sc.nm; m++)
                CHECK(x.alive[m] == 0, "model m" << m << " is alive after everything that could refer to it has been destroyed");
        }
        CHECK(live_listeners == l0, "a listener is alive after its simulator has been destroyed");
        CHECK(live_values == v0, live_values - v0 << " values are held after the simulation has been destroyed");
        bytes[i] = __sanitizer_get_current_allocated_bytes();
    }
    CHECK(bytes[2] <= bytes[1], "a simulation that was destroyed leaves " << bytes[2] - bytes[1] << " bytes behind");
}
PBT_MAIN(prop)
