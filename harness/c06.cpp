// C06: listeners are told of every output, input and state change exactly once.
#include "netrun.h"
#ifndef TIME
#define TIME double
#endif
using T = TIME;
static void prop(Src &s, Ctx &ctx) {
    GenOpt g;
    g.sd = Conv<T>::sd;
    g.mealy_num = (unsigned)s.range(0, 2);
    g.mealy_den = 3;
    Net n = g.mealy_num && s.coin() ? gen_mealy_net(s, g) : gen_net(s, g);
    int nl = (int)s.range(1, 3);
    Rig<T> r(s, ctx, n, false, -1, nl);
    auto &ls = *r.ls;
    RefSim &ref = *r.ref;
    ls.cmp_listener_all = true;
    int cycles = (int)s.range(1, 20), split = 0;
    long outs = 0, ins = 0, unrouted = 0;
    for (int c = 0; c < cycles; c++) {
        int op = s.weighted({4, 3, 1});
        if (op >= 1) {
            if (op == 2 || ref.tNext.inf) ls.set_next(earlier_time<T>(s, ref));
            int k = burst(s, 3);
            for (int i = 0; i < k; i++) ls.inject((int)s.below(n.npins), (long)s.below(1000));
        }
        if (ref.tNext.inf) break;
        if (s.chance(1, 3)) {
            int k = (int)s.range(1, 2);
            for (int i = 0; i < k; i++) ls.output();
            ls.state();
            split++;
        } else
            ls.exec();
        if (nl < 3 && s.chance(1, 12)) {  // a listener registered later sees everything from then on
            auto l = std::make_shared<Recorder<T>>(&r.w);
            ls.listeners.push_back(l);
            r.sim->addEventListener(l);
            nl++;
            ctx.label("listener registered during the simulation");
        }
        for (auto const &b : ref.cur.out)
            for (auto const &v : b) {
                outs++;
                if (n.route(v.first).empty()) unrouted++;
            }
        for (auto const &b : ref.cur.bag) ins += (long)b.size();
    }
    ctx.nontrivial(outs >= 2 && ins >= 2);
    if (unrouted) ctx.label("output routed nowhere");
    if (nl > 1) ctx.label("several listeners");
    if (split) ctx.label("output and state computed separately");
    if (ls.conf) ctx.label("confluent");
    if (ls.recalc) ctx.label("Mealy output recomputed");
}
PBT_MAIN(prop)
