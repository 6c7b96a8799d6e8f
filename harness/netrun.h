// The generated scenario shared by the checks that run networks in lock step
// with the reference simulator.
#ifndef NETRUN_H
#define NETRUN_H
#include "net.h"
#ifndef EPSILON_IS_SET
#define EPSILON_IS_SET
double adevs::double_fcmp::epsilon = 1e-9;
#endif

template <class T>
struct Rig {
    World<T> w;
    std::vector<int> order, pos;
    std::shared_ptr<adevs::Graph<Val, T>> gr;
    std::shared_ptr<adevs::Coupled<Val, T>> co;
    std::unique_ptr<adevs::Simulator<Val, T>> sim;
    std::unique_ptr<RefSim> ref;
    std::unique_ptr<Lockstep<T>> ls;

    // how: -1 chosen by the generator, 0 graph, 1 coupled
    Rig(Src &s, Ctx &ctx, Net const &n, bool big, int how = -1, int nlisteners = 0) {
        int nm = (int)n.models.size();
        if (big)
            for (int i = 0; i < nm; i++) order.push_back(i);
        else
            order = s.perm(nm);
        pos = big ? order : s.perm(nm);
        make_models(w, n, true, pos, order, s.perm(n.npins));
        bool multi = false;  // a coupled model holds one instance of everything
        for (auto const &e : n.pp) multi = multi || e.second > 1;
        for (auto const &e : n.pm) multi = multi || e.second > 1;
        (void)multi;
        if (how < 0)
            how = nm == 1 && n.pm.empty() && n.pp.empty() ? (int)s.range(0, 2) : (int)s.range(0, 1);
        NOTE(ctx, show(n));
        ref.reset(new RefSim(n, Conv<T>::sd));
        if (how == 0)
            sim.reset(new adevs::Simulator<Val, T>(gr = make_graph(w, order, big ? nullptr : &s)));
        else if (how == 1)
            sim.reset(new adevs::Simulator<Val, T>(co = make_coupled(w, order)));
        else
            sim.reset(new adevs::Simulator<Val, T>(w.models[0]));
        ls.reset(new Lockstep<T>(ctx, w, *sim, *ref));
        for (int i = 0; i < nlisteners; i++) {
            auto r = std::make_shared<Recorder<T>>(&w);
            ls->listeners.push_back(r);
            sim->addEventListener(r);
        }
    }
};

// A time at or after now and before the next event
template <class T>
RT earlier_time(Src &s, RefSim const &ref) {
    RT t = ref.now;
    if (s.coin()) {
        t = radd(ref.now, Conv<T>::sd && s.coin() ? rt(0, s.range(0, 3)) : rt(s.range(0, 6)));
        if (!(t < ref.tNext)) t = ref.now;
    }
    return t;
}
template <class T>
void run_cycles(Src &s, Rig<T> &r, int cycles, bool inject, int npins) {
    for (int c = 0; c < cycles; c++) {
        int op = inject ? s.weighted({6, 2, 1}) : 0;
        if (op >= 1) {  // input from outside, at or before the next event
            int k = burst(s, 3);
            if (op == 2 || r.ref->tNext.inf) r.ls->set_next(earlier_time<T>(s, *r.ref));
            for (int i = 0; i < k; i++) r.ls->inject((int)s.below(npins), (long)s.below(1000));
        }
        if (r.ref->tNext.inf) break;
        if (r.ref->now.n > 3000) break;
        r.ls->exec();
    }
}
// A long history with few inputs
template <class T>
void run_long(Src &s, Rig<T> &r, int npins, int cycles) {
    int quiet = (int)s.range(1, 2000);
    for (int c = 0; c < cycles && !r.ref->tNext.inf; c++) {
        if (c % quiet == 0) run_cycles(s, r, (int)s.range(1, 5), true, npins);
        if (!r.ref->tNext.inf) r.ls->exec();
    }
}
template <class T>
void classify(Ctx &ctx, Lockstep<T> const &ls) {
    if (ls.conf) ctx.label("confluent");
    if (ls.exts) ctx.label("external");
    if (ls.simult) ctx.label("simultaneous");
    if (ls.multi_input) ctx.label("several inputs in a bag");
    if (ls.cycles >= 10) ctx.label("10+ cycles");
    if (ls.cycles == 0) ctx.label("no cycle");
}
#endif
