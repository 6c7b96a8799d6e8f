// C28: simulators do not affect one another. Several simulations in one program, their
// steps interleaved, one advanced from within the functions of another's models, or (with
// -DTHREADS) each in a thread of its own: every one of them is judged as if it were alone.
#include <cvode/cvode.h>
#include <nvector/nvector_serial.h>
#include <atomic>
#include <thread>
#include "adevs/solvers/cvode.h"
#include "hyb.h"
#include "netrun.h"
using T = double;

struct Job {
    std::function<void()> nest;  // called in the functions of its models
    bool running = false, done = false;
    int steps = 0;
    std::vector<double> trace;  // what it computed
    Job(Src const &c) : s(c) {}
    virtual ~Job() {}
    virtual bool step() = 0;  // false when there is nothing more to do
    Src s;
    virtual long events() const = 0;
};
struct NetJob : Job {
    Net n;
    std::unique_ptr<Rig<T>> r;
    NetJob(Src const &c, Ctx &ctx) : Job(c) {
        GenOpt g;
        g.max_models = 5;
        g.max_pins = 6;
        g.mealy_num = s.chance(1, 2);
        g.mealy_den = 2;
        n = g.mealy_num && s.coin() ? gen_mealy_net(s, g) : gen_net(s, g);
        r.reset(new Rig<T>(s, ctx, n, false, -1, 1));
        r->ls->cmp_listener_all = true;
        r->w.on_transition = [this](int) {
            if (nest) nest();
        };
        auto judge = r->w.on_output;
        r->w.on_output = [this, judge](int m) {
            judge(m);
            if (nest) nest();
        };
    }
    bool step() override {
        auto &ls = *r->ls;
        RefSim &ref = *r->ref;
        int op = s.weighted({4, 3, 1});
        if (op >= 1) {
            if (op == 2 || ref.tNext.inf) ls.set_next(earlier_time<T>(s, ref));
            for (int k = (int)s.range(1, 3); k > 0; k--) ls.inject((int)s.below(n.npins), (long)s.below(1000));
        }
        if (ref.tNext.inf || ref.now.n > 3000) return false;
        if (s.chance(1, 3)) {
            ls.output();
            ls.state();
        } else
            ls.exec();
        return true;
    }
    long events() const override { return r->ls->events; }
};
struct HybJob : Job {
    HybRun r;
    int left = 0, gap = 5;
    HybJob(Src const &c, Ctx &ctx) : Job(c), r(s, ctx, true) {
        r.sys->hook = [this] {
            if (nest && --left <= 0) {
                left = gap = (gap * 7 + 3) % 61;
                nest();
            }
        };
    }
    bool step() override {
        double nx = r.sim->nextEventTime();
        std::vector<int> in;
        int w = s.weighted({5, 2, 1, 1});
        if (w) {
            in.push_back((int)s.below(5) + 5 * (int)s.below(20));
            double t = w == 1 ? r.now + (std::min(nx, r.now + 2) - r.now) * s.real(0, 1) : w == 2 ? nx : r.now;
            if (!(t <= nx)) t = nx;
            if (!(t >= r.now) || t == adevs_inf<double>()) t = r.now;
            if (t < nx) r.sim->setNextTime(t);
            adevs::PinValue<int> x(r.in_pin, in[0]);
            r.sim->injectInput(x);
        }
        if (r.sim->nextEventTime() == adevs_inf<double>() || r.sim->nextEventTime() > 20) return false;
        r.cycle(in);
        trace.push_back(r.now);
        for (int i = 0; i < r.sys->n; i++) trace.push_back(r.hyb->getState(i));
        trace.push_back(r.sim->nextEventTime());
        return true;
    }
    long events() const override { return r.internals + r.externals + r.confluents + r.steps; }
};
// a clock on the CVODE adapter, ticking at known times
struct Clock : adevs::CVODE<int> {
    N_Vector y;
    double h, tm = 0, last = 0;
    int bad = 0, ticks = 0, inputs = 0, n = 0;
    std::function<void()> hook;
    Clock(double h, SUNContext c) : y(N_VNew_Serial(3, c)), h(h) { N_VConst(0, y); }
    ~Clock() { N_VDestroy(y); }
    void call(double t) {
        for (int i = 0; i < 3; i++)
            if (std::fabs(NV_Ith_S(y, i) - t) > 1e-9) bad++;
        if (std::fabs(tm - t) > 1e-9) bad++;
        if (hook) hook();
    }
    void advance(double t) {
        for (int i = 0; i < 3; i++) NV_Ith_S(y, i) += t - tm;
        tm = t;
    }
    void cvode_integrate(double &tf, bool &event) override {
        if (hook) hook();
        advance(tm + h);
        tf = tm;
        event = ++n % 2 == 0;
    }
    void cvode_integrate_until(double tf, bool &event) override {
        if (hook) hook();
        advance(tf);
        event = false;
    }
    void cvode_reinit(N_Vector v, double t) override {
        for (int i = 0; i < 3; i++) NV_Ith_S(y, i) = NV_Ith_S(v, i);
        tm = t;
    }
    void cvode_delta_int() override {
        call(last);
        ticks++;
    }
    void cvode_delta_ext(double t, PVs const &xb) override {
        if (std::fabs(t - last) > 1e-9) bad++;
        call(last);
        inputs += (int)xb.size();
    }
    void cvode_delta_conf(PVs const &xb) override {
        call(last);
        ticks++;
        inputs += (int)xb.size();
    }
    void cvode_output_func(PVs &) override { call(last); }
    N_Vector cvode_get_state() override { return y; }
};
struct Sun {
    SUNContext c;
    Sun() { SUNContext_Create(0, &c); }
    ~Sun() { SUNContext_Free(&c); }
};
struct ClockJob : Job {
    Sun sun;
    std::shared_ptr<Clock> m;
    adevs::pin_t in;
    std::shared_ptr<adevs::Graph<int>> g = std::make_shared<adevs::Graph<int>>();
    std::unique_ptr<adevs::Simulator<int>> sim;
    int sent = 0;
    double now = 0;
    ClockJob(Src const &c, Ctx &ctx) : Job(c) {
        m = std::make_shared<Clock>(s.of<double>({1, 0.5, 0.25}), sun.c);
        NOTE(ctx, "a clock ticking every " << 2 * m->h);
        g->add_atomic(m);
        g->connect(in, m);
        sim.reset(new adevs::Simulator<int>(g));
        m->hook = [this] {
            if (nest) nest();
        };
    }
    bool step() override {
        double nx = sim->nextEventTime(), t = nx;
        if (nx > 40) return false;
        CHECK(std::fabs(nx - m->tm) <= 1e-9, "the clock ends its step at " << m->tm << ", the next event is at " << nx);
        if (s.chance(1, 2)) {
            t = now + (nx - now) * 0.25 * (double)s.range(0, 4);
            if (t < nx) sim->setNextTime(t);
            adevs::PinValue<int> x(in, 1);
            sim->injectInput(x);
            sent++;
        }
        m->last = t;
        double r = sim->execNextEvent();
        now = t;
        CHECK(r == t, "the step of the clock at " << t << " ends at " << r);
        CHECK(m->bad == 0, "the clock reads " << m->tm << " at " << t);
        CHECK(m->inputs == sent, "the clock received " << m->inputs << " inputs, " << sent << " were sent");
        return true;
    }
    long events() const override { return m->ticks + m->inputs; }
};
static std::unique_ptr<Job> make_job(Src const &s, Ctx &ctx, int kind) {
    switch (kind) {
        case 0: return std::unique_ptr<Job>(new NetJob(s, ctx));
        case 1: return std::unique_ptr<Job>(new HybJob(s, ctx));
        default: return std::unique_ptr<Job>(new ClockJob(s, ctx));
    }
}
static std::vector<adevs::pin_t> const common(6);
// The same simulation once more, with nothing beside it
static void alone(Job &j, int steps, std::vector<double> const &trace, int which) {
    for (int i = 0; i < steps && j.step(); i++)
        ;
    CHECK(j.trace.size() == trace.size(), "simulation " << which << " takes other steps when it is alone");
    for (size_t i = 0; i < trace.size(); i++)
        CHECK(j.trace[i] == trace[i], "simulation " << which << " computes " << std::setprecision(17) << trace[i] << ", and " << j.trace[i] << " when it is alone");
}

#ifdef THREADS
static void prop(Src &s, Ctx &ctx) {
    common_pins() = s.coin() ? &common : nullptr;
    int k = (int)s.range(2, 4);
    struct Work {
        int kind, steps;
        Src src;
        Ctx ctx;
        std::string failed;
        bool discarded = false;
        long events = 0;
        std::vector<double> trace;
    };
    std::vector<Work> w(k);
    int kinds[3] = {0, 0, 0};
    for (auto &x : w) {
        x.kind = s.weighted({4, 3, 2});
        kinds[x.kind]++;
        x.steps = (int)s.range(1, 20);
        x.src = Src::random(s.below(1u << 20));
        x.src.mirror = false;
        x.ctx.verbose = ctx.verbose;
    }
    std::atomic<int> ready(0);
    std::vector<std::thread> th;
    for (auto &x : w)
        th.emplace_back([&ready, &x, k] {
            ready++;
            while (ready < k) std::this_thread::yield();
            try {
                auto j = make_job(x.src, x.ctx, x.kind);
                for (int i = 0; i < x.steps && j->step(); i++)
                    ;
                x.events = j->events();
                x.trace = j->trace;
            } catch (pbt::Fail &f) {
                x.failed = f.msg;
            } catch (pbt::Discard &) {
                x.discarded = true;
            } catch (std::exception &e) {
                x.failed = std::string("unexpected exception: ") + e.what();
            }
        });
    for (auto &t : th) t.join();
    int busy = 0;
    for (int i = 0; i < k; i++) {
        NOTE(ctx, "---- thread " << i << "\n" << w[i].ctx.log);
        if (w[i].events >= 2) busy++;
    }
    for (int i = 0; i < k; i++)
        CHECK(w[i].failed.empty(), "the simulation in thread " << i << " of " << k << ": " << w[i].failed);
    for (int i = 0; i < k; i++) {
        if (w[i].discarded) continue;
        Ctx quiet;
        alone(*make_job(w[i].src, quiet, w[i].kind), w[i].steps, w[i].trace, i);
    }
    ctx.nontrivial(busy >= 2);
    ctx.label("threads");
    if (kinds[0] >= 2) ctx.label("networks in threads");
    if (kinds[1] >= 2) ctx.label("hybrid models in threads");
    if (kinds[2] >= 2) ctx.label("CVODE models in threads");
}
#else
static void prop(Src &s, Ctx &ctx) {
    common_pins() = s.coin() ? &common : nullptr;
    int depth = 0, nested = 0, deep = 0, switches = 0, died = 0, late = 0, inner = 0;
    std::vector<std::unique_ptr<Job>> jobs;
    int rate = (int)s.range(0, 3), budget = 200;
    auto run = [&](Job &j) {
        j.running = true;
        depth++;
        bool more;
        try {
            more = !j.done && j.step();
            j.done = !more;
        } catch (...) {
            depth--;
            j.running = false;
            throw;
        }
        depth--;
        j.running = false;
        j.steps++;
        return more;
    };
    std::function<void()> again;
    auto nest = [&] {
        if (depth >= 3 || budget <= 0 || rate == 0 || !s.chance(rate, 6)) return;
        budget--;
        if (s.chance(1, 8)) {  // a simulation that lives within a step of another
            NOTE(ctx, ">>>> from within, a simulation of its own");
            auto j = make_job(Src::forward(s), ctx, s.weighted({4, 3, 2}));
            j->nest = again;
            for (int i = (int)s.range(1, 4); i > 0 && run(*j); i--)
                ;
            NOTE(ctx, "<<<<");
            inner++;
            return;
        }
        int i = (int)s.below(jobs.size());
        if (jobs[i]->running || jobs[i]->done) return;
        NOTE(ctx, ">>>> from within, simulation " << i);
        run(*jobs[i]);
        NOTE(ctx, "<<<<");
        nested++;
        if (depth >= 2) deep++;
    };
    again = nest;
    int k = (int)s.range(2, 4), last = -1;
    struct Past {
        int kind, steps;
        std::vector<uint64_t> choices;
        std::vector<double> trace;
    };
    std::vector<Past> past;
    std::vector<int> kinds;
    auto remember = [&](int j) {
        if (kinds[j] == 1 && past.size() < 6) past.push_back(Past{kinds[j], jobs[j]->steps, jobs[j]->s.rec, jobs[j]->trace});
    };
    auto add = [&] {
        NOTE(ctx, "---- simulation " << jobs.size());
        kinds.push_back(s.weighted({4, 3, 2}));
        jobs.push_back(make_job(Src::forward(s), ctx, kinds.back()));
        jobs.back()->nest = nest;
    };
    for (int i = 0; i < k; i++) add();
    int n = (int)s.range(1, 40);
    long events = 0, many = 0;
    for (int i = 0; i < n; i++) {
        int j = (int)s.below(jobs.size());
        NOTE(ctx, "---- simulation " << j);
        bool more = run(*jobs[j]);
        if (last >= 0 && last != j) switches++;
        last = j;
        if (!more || s.chance(1, 30)) {  // goes, the others stay
            events += jobs[j]->events();
            remember(j);
            jobs.erase(jobs.begin() + j);
            kinds.erase(kinds.begin() + j);
            died++;
            last = -1;
            if (jobs.size() < 2) {
                add();
                late++;
            }
        }
    }
    for (size_t j = 0; j < jobs.size(); j++) remember((int)j);
    for (auto &j : jobs) {
        events += j->events();
        if (j->steps >= 3) many++;
    }
    int nth = 0;
    for (auto &x : past) {
        Ctx quiet;
        Src c = Src::replay(x.choices);
        c.mirror = false;
        auto j = make_job(c, quiet, x.kind);
        alone(*j, x.steps, x.trace, nth++);
    }
    ctx.nontrivial(events >= 4 && switches + nested >= 3);
    if (nested) ctx.label("a simulation advanced by the models of another");
    if (inner) ctx.label("a simulation that lives within a step of another");
    if (deep) ctx.label("three simulations deep");
    if (died) ctx.label("a simulation ends before the others");
    if (late) ctx.label("a simulation begins later");
    if (many >= 2) ctx.label("several simulations with three or more steps");
    if (common_pins()) ctx.label("with the same pins");
}
#endif
PBT_MAIN(prop)
