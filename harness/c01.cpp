// C01: DEVS event semantics of networks of ordinary models.
// C13 (with -DTIME=...): the same under every time type.
#include "netrun.h"
#ifndef TIME
#define TIME double
#endif
#ifndef BIG
#define BIG 30
#endif
using T = TIME;

static void prop(Src &s, Ctx &ctx) {
    GenOpt g;
    g.sd = Conv<T>::sd;
#ifdef MEALY
    g.mealy_num = s.chance(1, 3) ? 1 : 0;
    g.mealy_den = 3;
#endif
    bool big = s.chance(1, BIG);
    Net n = big ? gen_big_net(s, g) : gen_net(s, g);
    Rig<T> r(s, ctx, n, big);
#ifdef LONG  // histories of many thousands of cycles
    run_long(s, r, n.npins, (int)s.range(1000, 150000));
    if (r.ls->cycles > 70000) ctx.label("seventy thousand cycles");
#else
    run_cycles(s, r, n.models.size() >= 1000 ? (int)s.range(2, 6) : big ? (int)s.range(10, 60) : (int)s.range(1, 40), !big, n.npins);
#endif
    auto &ls = *r.ls;
    ctx.nontrivial(ls.events >= 3 && (ls.simult > 0 || ls.exts > 0 || ls.conf > 0));
    classify(ctx, ls);
    if (big) ctx.label("hundreds of models");
    if (n.models.size() >= 1000) ctx.label("a thousand models or more");
    for (auto const &m : n.models) for (int i = 0; i < m.ns; i++) if (m.ta[i] == rt(0)) { ctx.label("zero time advance"); goto done; }
done:;
}
PBT_MAIN(prop)
