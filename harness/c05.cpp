// C05: embedding a simulator: injection, clearing, early steps, look-ahead output.
#include "netrun.h"
#ifndef TIME
#define TIME double
#endif
using T = TIME;
// Injects, now and then, from within the call that tells it of an event
struct Feedback : adevs::EventListener<Val, T> {
    std::function<void(bool)> f;
    std::function<void(T)> at;
    void outputEvent(adevs::Atomic<Val, T> &, adevs::PinValue<Val> &, T t) {
        at(t);
        f(true);
    }
    void inputEvent(adevs::Atomic<Val, T> &, adevs::PinValue<Val> &, T) { f(false); }
    void stateChange(adevs::Atomic<Val, T> &, T) { f(false); }
};
static void prop(Src &s, Ctx &ctx) {
    GenOpt g;
    g.sd = Conv<T>::sd;
    g.mealy_num = s.coin() ? 1 : 0;
    g.mealy_den = 2;
    Net n = g.mealy_num && s.coin() ? gen_mealy_net(s, g) : gen_net(s, g);
    Rig<T> r(s, ctx, n, false, -1, 1);
    auto &ls = *r.ls;
    RefSim &ref = *r.ref;
    ls.cmp_listener_outputs = true;
    bool ready = false;  // output is computed for the current next event time
    int outs = 0, re = 0, cleared = 0, early = 0, empty_early = 0, late_inj = 0, lookahead_dropped = 0;
    // couplings that come and go between the calls
    bool rewire = (r.gr || r.co) && s.chance(1, 3);
    int rewired = 0;
    if (r.co)  // which holds one instance of each coupling
        for (auto &e : ref.net.pm) e.second = 1;
    Net virt = ref.net;
    auto recouple = [&]() {
        Op x;
        x.kind = s.coin() ? Op::CONNECT_PM : Op::DISCONNECT_PM;
        if (x.kind == Op::DISCONNECT_PM) {
            if (virt.pm.empty()) return;
            auto e = std::next(virt.pm.begin(), s.below(virt.pm.size()));
            x.a = e->first.first;
            x.b = e->first.second;
        } else {
            x.a = (int)s.below(n.npins);
            x.b = (int)s.below(n.models.size());
            if (r.co && virt.pm.count({x.a, x.b})) return;
        }
        Net v = virt;
        apply(v, x);
        if (!net_ok(v, g, 0)) return;
        virt = v;
        ref.pending.push_back(x);
        NOTE(ctx, "request: " << x);
        rewired++;
        if (x.kind == Op::CONNECT_PM)
            r.gr ? r.gr->connect(r.w.pins[x.a], r.w.models[x.b]) : r.co->create_coupling(r.w.pins[x.a], r.w.models[x.b]);
        else
            r.gr ? r.gr->disconnect(r.w.pins[x.a], r.w.models[x.b]) : r.co->remove_coupling(r.w.pins[x.a], r.w.models[x.b]);
    };
    // input that arrives while the simulator computes waits for the next
    // computation of output
    Bag later;
    int inside = 0, inside_out = 0, inside_cleared = 0;
    bool only_state = false;
    if (s.chance(1, 3)) {
        uint64_t h = s.below(1u << 30), k = 0, often = s.range(2, 9);
        auto f = [&, h, k, often](bool out) mutable {
            uint64_t x = pbt::mix(h, k++);
            if (x % often || inside >= 60) return;
            if ((x >> 20) % 7 == 0) {
                r.sim->clearInjectedInput();
                if (!later.empty()) inside_cleared++;
                later.clear();
                if (only_state) ref.ext.clear();
                return;
            }
            int p = (int)((x >> 30) % n.npins);
            long v = (long)((x >> 40) % 1000);
            adevs::PinValue<Val> pv(r.w.pins[p], v);
            r.sim->injectInput(pv);
            later.push_back({p, v});
            inside++;
            if (out) inside_out++;
        };
        auto fp = std::make_shared<std::function<void(bool)>>(f);
        if (s.coin()) {
            r.w.after_output = [fp](int) { (*fp)(true); };
            r.w.on_transition = [fp](int) { (*fp)(false); };
        }
        if (s.chance(2, 3)) {
            auto l = std::make_shared<Feedback>();
            l->f = [fp](bool out) { (*fp)(out); };
            l->at = [&](T t) {
                CHECK(r.sim->nextEventTime() == t,
                      "while the output of " << t << " is computed the next event time is " << Conv<T>::from(r.sim->nextEventTime()));
            };
            r.sim->addEventListener(l);
        }
    }
    auto settle = [&]() {
        if (!later.empty()) NOTE(ctx, "injected meanwhile:" << show(later));
        for (auto const &v : later) ref.ext.push_back(v);
        later.clear();
        only_state = false;
    };
    int ops = (int)s.range(4, 50);
    for (int i = 0; i < ops; i++) {
        if (ref.now.n > 3000) break;
        if (rewire && s.chance(1, 5)) recouple();
        switch (s.weighted({5, 4, 4, 5, 1, 3})) {
            case 0:
                if (!ref.tNext.inf) {
                    ls.exec();
                    settle();
                    ready = false;
                    outs = 0;
                }
                break;
            case 1:
                if (!ref.tNext.inf) {
                    ls.output();
                    settle();
                    ready = true;
                    if (outs++) re++;
                }
                break;
            case 2:
                if (ready) {
                    if (!ref.ext.empty()) late_inj++;
                    only_state = true;
                    ls.state();
                    settle();
                    ready = false;
                    outs = 0;
                }
                break;
            case 3:
                for (int k = burst(s, 1); k > 0; k--) ls.inject((int)s.below(n.npins), (long)s.below(1000));
                break;
            case 4:
                if (!ref.ext.empty()) cleared++;
                ls.clear();
                break;
            default: {
                RT t = earlier_time<T>(s, ref);
                if (t < ref.tNext) {
                    early++;
                    if (ref.ext.empty()) empty_early++;
                    if (ready) lookahead_dropped++;
                    ls.set_next(t);
                    ready = false;
                }
            }
        }
    }
    for (int i = 0; i < 8 && !ref.tNext.inf; i++) {
        ls.exec();
        settle();
    }
    ctx.nontrivial(ls.events >= 3 && (re + cleared + early + late_inj) >= 2);
    if (inside) ctx.label("input injected from within a call");
    if (inside_out) ctx.label("input injected while output was computed");
    if (inside_cleared) ctx.label("input cleared from within a call");
    if (rewired) ctx.label("couplings changed between the calls");
    if (re) ctx.label("output recomputed before the state");
    if (cleared) ctx.label("injected input cleared");
    if (early) ctx.label("early step");
    if (empty_early) ctx.label("early step without input");
    if (late_inj) ctx.label("input injected after output was computed");
    if (lookahead_dropped) ctx.label("look-ahead output discarded");
}
PBT_MAIN(prop)
