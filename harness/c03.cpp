// C03: Mealy models: complete input, final output, no trace of withdrawn output.
#include "netrun.h"
#ifndef TIME
#define TIME double
#endif
using T = TIME;
static void prop(Src &s, Ctx &ctx) {
    GenOpt g;
    g.sd = Conv<T>::sd;
    g.max_models = 9;
    g.max_pins = 8;
    g.mealy_num = (unsigned)s.range(2, 4);
    g.mealy_den = 5;
    g.dense = s.coin();
    Net n = s.chance(2, 3) ? gen_mealy_net(s, g) : gen_net(s, g);
    bool deep = s.chance(1, 300);
    if (deep) n = gen_mealy_chain(s, (int)s.range(30, 600), false);
    Rig<T> r(s, ctx, n, false, -1, 1);
    r.ls->cmp_listener_outputs = true;
#ifdef LONG
    run_long(s, r, n.npins, (int)s.range(1000, 100000));
    if (r.ls->cycles > 70000) ctx.label("seventy thousand cycles");
#else
    run_cycles(s, r, (int)s.range(1, 25), true, n.npins);
#endif
    auto &ls = *r.ls;
    int mealy = 0, chain = 0;
    for (auto const &m : n.models) mealy += m.mealy;
    for (size_t m = 0; m < n.models.size(); m++)
        if (n.models[m].mealy && !n.mealy_successors((int)m).empty()) chain++;
    ctx.nontrivial(mealy >= 2 && chain >= 1 && ls.exts + ls.conf >= 2);
    classify(ctx, ls);
    if (chain >= 2) ctx.label("Mealy models feeding Mealy models");
    if (deep && n.models.size() > 256) ctx.label("more than 256 Mealy models in a chain");
    if (ls.recalc) ctx.label("output recomputed");
}
PBT_MAIN(prop)
