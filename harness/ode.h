// Systems of differential equations with solutions known in closed form.
#ifndef ODE_H
#define ODE_H
#include <cmath>
#include "adevs/adevs.h"
#include "adevs/solvers/hybrid.h"
#include "pbt.h"
typedef long double L;
typedef std::vector<double> Vec;

// dq/dt = f(q), with the flow in closed form. A time variable x' = 1 may be part of it.
struct Flow {
    int n = 0;
    double lip = 1;    // about the largest rate of change of f
    int degree = -1;   // the solution is a polynomial of this degree in time, if >= 0
    bool linear = false;
    std::string name;
    virtual ~Flow() {}
    virtual void f(double const* q, double* dq) const = 0;
    virtual void flow(double const* q, L t, L* r) const = 0;
    virtual void jac(double const* q, double* J) const = 0;  // column major
    virtual Vec start(pbt::Src &s) const = 0;
    int time_var = -1;
};
// q_i' = polynomial of x, x' = 1
struct PolyFlow : Flow {
    std::vector<Vec> c;  // of each but the time variable
    PolyFlow(pbt::Src &s, int deg) {
        int m = (int)s.size(1, 4, 40, 320);
        n = m + 1;
        time_var = (int)s.below(n);
        degree = 1;
        for (int i = 0; i < m; i++) {
            Vec v;
            int d = (int)s.range(0, deg);
            for (int k = 0; k <= d; k++) v.push_back(s.real(-2, 2));
            if (v.back() == 0) v.back() = 1;
            degree = std::max(degree, d + 1);
            c.push_back(v);
        }
        lip = 3 * (degree + 1);
        name = "polynomial of degree " + std::to_string(degree);
    }
    int of(int i) const { return i < time_var ? i : i - 1; }
    void f(double const* q, double* dq) const override {
        double x = q[time_var];
        for (int i = 0; i < n; i++) {
            if (i == time_var) {
                dq[i] = 1;
                continue;
            }
            double v = 0;
            for (size_t k = c[of(i)].size(); k-- > 0;) v = v * x + c[of(i)][k];
            dq[i] = v;
        }
    }
    void flow(double const* q, L t, L* r) const override {
        L x = q[time_var], y = x + t;
        for (int i = 0; i < n; i++) {
            if (i == time_var) {
                r[i] = y;
                continue;
            }
            L v = q[i], px = x, py = y;
            for (size_t k = 0; k < c[of(i)].size(); k++, px *= x, py *= y) v += c[of(i)][k] * (py - px) / (L)(k + 1);
            r[i] = v;
        }
    }
    void jac(double const* q, double* J) const override {
        for (int i = 0; i < n * n; i++) J[i] = 0;
        double x = q[time_var];
        for (int i = 0; i < n; i++) {
            if (i == time_var) continue;
            double v = 0;
            for (size_t k = c[of(i)].size(); k-- > 1;) v = v * x + (double)k * c[of(i)][k];
            J[time_var * n + i] = v;
        }
    }
    Vec start(pbt::Src &s) const override {
        Vec q(n);
        for (int i = 0; i < n; i++) q[i] = i == time_var ? s.real(0, 1) : s.real(-2, 2);
        return q;
    }
};
// Blocks: a decay or growth a, or a rotation (a,b), or a triangular pair; in shuffled places
struct LinearFlow : Flow {
    struct Block {
        int kind, i, j;
        double a, b;
    };
    std::vector<Block> bl;
    LinearFlow(pbt::Src &s, double stiff, bool stable) {
        linear = true;
        int k = (int)s.size(1, 3, 20);
        std::vector<int> kinds;
        for (int i = 0; i < k; i++) {
            kinds.push_back(s.weighted({3, 3, 2}));
            n += kinds.back() == 0 ? 1 : 2;
        }
        auto p = s.perm(n);
        int at = 0;
        lip = 0.1;
        for (int x : kinds) {
            Block b;
            b.kind = x;
            b.i = p[at++];
            b.j = x == 0 ? -1 : p[at++];
            b.a = s.real(0.1, 2) * (s.chance(1, 3) ? stiff : 1.0);
            if (stable || s.chance(2, 3)) b.a = -b.a;
            b.b = x == 0 ? 0 : s.real(-3, 3) * (s.chance(1, 3) ? stiff : 1.0);
            if (x == 2 && stable) b.b = s.real(-1, 1) * fabs(b.a);  // the pair stays contractive
            if (x == 1 && stable && s.chance(1, 3)) b.a = 0;
            lip = std::max(lip, fabs(b.a) + fabs(b.b));
            bl.push_back(b);
        }
        name = "linear system of order " + std::to_string(n);
    }
    void f(double const* q, double* dq) const override {
        for (auto const &b : bl) {
            if (b.kind == 0) {
                dq[b.i] = b.a * q[b.i];
            } else if (b.kind == 1) {
                dq[b.i] = b.a * q[b.i] - b.b * q[b.j];
                dq[b.j] = b.b * q[b.i] + b.a * q[b.j];
            } else {
                dq[b.i] = b.a * q[b.i] + b.b * q[b.j];
                dq[b.j] = b.a * q[b.j];
            }
        }
    }
    void flow(double const* q, L t, L* r) const override {
        for (auto const &b : bl) {
            L e = expl((L)b.a * t);
            if (b.kind == 0) {
                r[b.i] = e * q[b.i];
            } else if (b.kind == 1) {
                L c = cosl((L)b.b * t), s = sinl((L)b.b * t);
                r[b.i] = e * (c * q[b.i] - s * q[b.j]);
                r[b.j] = e * (s * q[b.i] + c * q[b.j]);
            } else {
                r[b.i] = e * (q[b.i] + (L)b.b * t * q[b.j]);
                r[b.j] = e * q[b.j];
            }
        }
    }
    void jac(double const*, double* J) const override {
        for (int i = 0; i < n * n; i++) J[i] = 0;
        for (auto const &b : bl) {
            J[b.i * n + b.i] = b.a;
            if (b.kind >= 1) J[b.j * n + b.j] = b.a;
            if (b.kind == 1) {
                J[b.j * n + b.i] = -b.b;
                J[b.i * n + b.j] = b.b;
            }
            if (b.kind == 2) J[b.j * n + b.i] = b.b;
        }
    }
    Vec start(pbt::Src &s) const override {
        Vec q(n);
        for (auto &x : q) x = s.real(-2, 2);
        return q;
    }
};
// Nonlinear equations with closed solutions, side by side: logistic growth, q' = -r q^2, q' = r q cos x
struct NonlinFlow : Flow {
    std::vector<int> kind;
    Vec r;
    NonlinFlow(pbt::Src &s) {
        int m = (int)s.size(1, 3, 25);
        n = m + 1;
        time_var = (int)s.below(n);
        lip = 1;
        for (int i = 0; i < m; i++) {
            kind.push_back((int)s.below(3));
            r.push_back(s.real(0.2, 2));
            lip = std::max(lip, 3 * r.back());
        }
        name = "nonlinear system";
    }
    int of(int i) const { return i < time_var ? i : i - 1; }
    void f(double const* q, double* dq) const override {
        for (int i = 0; i < n; i++) {
            if (i == time_var) {
                dq[i] = 1;
                continue;
            }
            double a = r[of(i)];
            switch (kind[of(i)]) {
                case 0: dq[i] = a * q[i] * (1 - q[i]); break;
                case 1: dq[i] = -a * q[i] * q[i]; break;
                default: dq[i] = a * q[i] * cos(q[time_var]);
            }
        }
    }
    void flow(double const* q, L t, L* o) const override {
        for (int i = 0; i < n; i++) {
            if (i == time_var) {
                o[i] = (L)q[i] + t;
                continue;
            }
            L a = r[of(i)], x = q[i];
            switch (kind[of(i)]) {
                case 0: {
                    L e = expl(a * t);
                    o[i] = x * e / (1 + x * (e - 1));
                    break;
                }
                case 1: o[i] = x / (1 + a * x * t); break;
                default: o[i] = x * expl(a * (sinl((L)q[time_var] + t) - sinl((L)q[time_var])));
            }
        }
    }
    void jac(double const* q, double* J) const override {
        for (int i = 0; i < n * n; i++) J[i] = 0;
        for (int i = 0; i < n; i++) {
            if (i == time_var) continue;
            double a = r[of(i)];
            switch (kind[of(i)]) {
                case 0: J[i * n + i] = a * (1 - 2 * q[i]); break;
                case 1: J[i * n + i] = -2 * a * q[i]; break;
                default:
                    J[i * n + i] = a * cos(q[time_var]);
                    J[time_var * n + i] = -a * q[i] * sin(q[time_var]);
            }
        }
    }
    Vec start(pbt::Src &s) const override {
        Vec q(n);
        for (int i = 0; i < n; i++) q[i] = i == time_var ? s.real(0, 6) : kind[of(i)] == 2 ? s.real(-1.5, 1.5) : s.real(0.05, 1.5);
        return q;
    }
};
struct TooManyCalls {};
// A system without events that counts the work done
struct PlainSystem : adevs::ode_system<int> {
    Flow const &fl;
    bool jacobian;
    long calls = 0, limit = 4000000;
    bool hard = false;
    PlainSystem(Flow const &fl, bool jacobian = false) : adevs::ode_system<int>(fl.n, 0), fl(fl), jacobian(jacobian) {}
    void init(double* q) override {
        for (int i = 0; i < fl.n; i++) q[i] = 0;
    }
    void der_func(double const* q, double* dq) override {
        if (++calls > limit && hard) {  // not through the frames of a C library
            fprintf(stderr, "Assertion: the integrator does not come to an end, %ld derivatives were computed\n", limit);
            abort();
        }
        if (calls > limit) FAIL("the integrator does not come to an end: " << limit << " derivatives were computed");
        fl.f(q, dq);
    }
    void state_event_func(double const*, double*) override {}
    double time_event_func(double const*) override { return adevs_inf<double>(); }
    void internal_event(double*, bool const*) override {}
    void external_event(double*, double, std::list<adevs::PinValue<int>> const &) override {}
    void confluent_event(double*, bool const*, std::list<adevs::PinValue<int>> const &) override {}
    void output_func(double const*, bool const*, std::list<adevs::PinValue<int>> &) override {}
    bool get_jacobian(double const* q, double* J) override {
        if (!jacobian) return adevs::ode_system<int>::get_jacobian(q, J);
        if (J) fl.jac(q, J);
        return true;
    }
};
inline L dist(Vec const &a, std::vector<L> const &b) {
    L d = 0;
    for (size_t i = 0; i < a.size(); i++) d = std::max(d, fabsl(a[i] - b[i]));
    return d;
}
inline L size_of(Vec const &a) {
    L d = 0;
    for (double x : a) d = std::max(d, fabsl(x));
    return d;
}
inline std::string show(Vec const &q) {
    std::ostringstream o;
    o.precision(17);
    for (size_t i = 0; i < q.size(); i++) o << (i ? " " : "") << q[i];
    return o.str();
}
#endif
