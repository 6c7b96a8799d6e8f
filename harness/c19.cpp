// C19: a hybrid model follows its equations and meets events at the right time and state.
// C20 (with -DINPUT): input at any time neither loses, repeats nor misplaces events.
#include <iomanip>
#include "hyb.h"

static void prop(Src &s, Ctx &ctx) {
#ifdef INPUT
    HybRun r(s, ctx, true);
#else
    HybRun r(s, ctx, false);
#endif
    int cycles = (int)s.range(1, 60), inside = 0, just = 0, coincide = 0;
    for (int c = 0; c < cycles; c++) {
        HT nx = r.sim->nextEventTime();
        std::vector<int> in;
#ifdef INPUT
        if (s.chance(1, 10) && nx < 20) r.look();
        int w = s.weighted({5, 3, 2, 2, 2, 1});
        if (w) {
            int k = s.chance(1, 4) ? 2 : 1;
            for (int i = 0; i < k; i++) in.push_back((int)s.below(s.chance(2, 3) ? 1 : 5) + 5 * (int)s.below(20));
        }
        HT t = nx;
        HybRun::Due d = r.due();
        switch (w) {
            case 0: break;
            case 1: t = r.now + (std::min<HT>(nx, r.now + 2) - r.now) * s.real(0, 1); break;  // anywhere
            case 2: break;                                                           // with what is next
            case 3: t = r.now; break;
            case 4: {  // close to the next event
                HT base = s.coin() ? nx : (HT)std::min(d.first, d.last);
                t = base + s.of<double>({-1e-12, -1e-9, -1e-7, -1e-5, 1e-12, 1e-9, 1e-7}) - (s.coin() ? r.tol * s.real(0, 1) : 0.0);
                break;
            }
            default: {  // between a crossing and its discovery
                L c = 1e300L;
                for (L x : d.c) c = std::min(c, x);
                if (c < 1e200L) t = (HT)(r.t0 + c + (nx - (r.t0 + c)) * s.real(0, 1));
            }
        }
        if (w) {
            if (!(t <= nx)) t = nx;
            if (!(t >= r.now)) t = r.now;
            if (t == adevs_inf<HT>()) t = r.now;
            if (t < nx) {
                r.sim->setNextTime(t);
                if (w >= 4) just++;
                inside++;
            } else
                coincide++;
            for (int v : in) {
                adevs::PinValue<int> x(r.in_pin, v);
                r.sim->injectInput(x);
            }
        }
#endif
        if (r.sim->nextEventTime() == adevs_inf<HT>()) break;
        if (r.sim->nextEventTime() > 20) break;
        r.cycle(in);
    }
    ctx.label(sol_name[r.solver]);
    ctx.label(loc_name[r.locator]);
    if (r.internals) ctx.label("internal event");
    if (r.timed) ctx.label("time event");
    if (r.both) ctx.label("state and time event at once");
    if (r.several) ctx.label("several state events at once");
    if (r.steps) ctx.label("step without event");
    if (r.sys->fns.size() >= 20) ctx.label("many functions");
#ifdef INPUT
    ctx.nontrivial(r.externals + r.confluents >= 2 && r.internals + r.confluents >= 1);
    if (r.externals) ctx.label("external event");
    if (r.confluents) ctx.label("confluent event");
    if (r.looks) ctx.label("output computed ahead");
    if (r.discovered) ctx.label("event found while handling input");
    if (r.pending_input) ctx.label("input while the output of an event waits");
    if (r.at_once) ctx.label("input at the instant of another event");
    if (just) ctx.label("input close to an event");
    if (coincide) ctx.label("input together with a step or event");
#else
    ctx.nontrivial(r.internals >= 2 && r.steps >= 1);
#endif
}
PBT_MAIN(prop)
