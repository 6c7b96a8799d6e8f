// C24: pins are unique, keep their identity across copies, and are totally ordered;
// pins created at once by several threads included.
#include <algorithm>
#include <any>
#include <atomic>
#include <thread>
#include <tuple>
#include "adevs/adevs.h"
#include "pbt.h"
using pbt::Ctx;
using pbt::Src;
double adevs::double_fcmp::epsilon = 1e-9;
using adevs::pin_t;

static pin_t const first_pin;  // older than every case
struct Known {
    pin_t p;
    long id;
};
// Creates n pins in each of k threads that start together
static std::vector<std::vector<pin_t>> create(int k, int n, bool copies) {
    std::vector<std::vector<pin_t>> r(k);
    std::atomic<int> ready(0);
    std::vector<std::thread> th;
    for (int i = 0; i < k; i++)
        th.emplace_back([&, i] {
            r[i].reserve(n);
            ready++;
            while (ready < k)
                ;
            for (int j = 0; j < n; j++) {
                pin_t p;
                if (copies) {
                    pin_t q(p), z;
                    z = q;
                    r[i].push_back(z);
                } else
                    r[i].push_back(p);
            }
        });
    for (auto &t : th) t.join();
    return r;
}
static void pair(Known const &a, Known const &b) {
    bool same = a.id == b.id;
    int n = (a.p < b.p) + (a.p == b.p) + (a.p > b.p);
    CHECK((a.p == b.p) == same, "pins " << a.id << " and " << b.id << (same ? " are not equal" : " are equal"));
    CHECK((a.p != b.p) == !same, "pins " << a.id << " and " << b.id << ": != is wrong");
    CHECK(n == 1, "pins " << a.id << " and " << b.id << ": " << n << " of <, ==, > hold");
    CHECK((a.p <= b.p) == !(a.p > b.p), "pins " << a.id << " and " << b.id << ": <= and > disagree");
    CHECK((a.p >= b.p) == !(a.p < b.p), "pins " << a.id << " and " << b.id << ": >= and < disagree");
    CHECK((a.p < b.p) == (b.p > a.p), "pins " << a.id << " and " << b.id << ": < and > disagree");
    CHECK((a.p <= b.p) == (b.p >= a.p), "pins " << a.id << " and " << b.id << ": <= and >= disagree");
}
static void prop(Src &s, Ctx &ctx) {
    std::vector<Known> v;
    std::vector<std::pair<adevs::PinValue<long>, long>> vals;  // and the identity of its pin
    long next = 1;
    v.push_back({first_pin, 0});
    int ops = (int)s.range(1, 30), copies = 0, threads = 0;
    for (int o = 0; o < ops; o++) {
        size_t i = s.below(v.size()), j = s.below(v.size());
        switch (s.weighted({6, 4, 4, 1, 2, 2, 2, 2, 1, 1})) {
            case 0: v.push_back({pin_t(), next++}); break;
            case 1: {
                pin_t c(v[i].p);
                v.push_back({c, v[i].id});
                copies++;
                break;
            }
            case 2: {
                NOTE(ctx, "assign " << v[j].id << " to a copy of " << v[i].id);
                v[i].p = v[j].p;  // itself included
                v[i].id = v[j].id;
                copies++;
                break;
            }
            case 3: {
                bool big = s.chance(1, 8), cp = s.coin();
                int k = (int)s.range(2, 4), n = big ? 1500 : (int)s.range(1, 60);
                NOTE(ctx, k << " threads create " << n << " pins each");
                auto r = create(k, n, cp);
                std::vector<pin_t> all;
                for (auto const &x : r) all.insert(all.end(), x.begin(), x.end());
                std::vector<pin_t> so(all);
                std::sort(so.begin(), so.end());
                for (size_t a = 0; a + 1 < so.size(); a++)
                    CHECK(so[a] != so[a + 1], "two pins created by concurrent threads are equal");
                for (auto const &x : v)
                    CHECK(!std::binary_search(so.begin(), so.end(), x.p), "a pin created by a thread equals an older pin");
                for (int a = 0; a < k; a++) v.push_back({r[a].back(), next++});
                threads++;
                break;
            }
            case 4: vals.push_back({adevs::PinValue<long>(v[i].p, (long)o), v[i].id}); break;
            case 5:
                vals.push_back({adevs::PinValue<long>(), next++});  // its own new pin
                v.push_back({vals.back().first.pin, vals.back().second});
                break;
            case 6:
                if (vals.empty()) break;
                {
                    auto &a = vals[i % vals.size()];
                    auto &b = vals[j % vals.size()];
                    a.first = b.first;
                    a.second = b.second;
                    adevs::PinValue<long> c(a.first);
                    CHECK(c.value == b.first.value, "a copied event has another value");
                    vals.push_back({c, a.second});
                    copies++;
                }
                break;
            case 7: {  // through containers
                std::any x = v[i].p;
                std::list<std::tuple<int, pin_t>> l{{1, std::any_cast<pin_t>(x)}};
                std::swap(v[i], v[j]);
                size_t k = std::min(i, v.size() - 1);
                (void)k;
                v.push_back({std::get<1>(l.front()), v[j].id});
                copies++;
                break;
            }
            case 8: {
                std::vector<pin_t> many(s.range(0, 3000));  // each is new
                std::vector<pin_t> so(many);
                std::sort(so.begin(), so.end());
                for (size_t a = 0; a + 1 < so.size(); a++) CHECK(so[a] != so[a + 1], "two pins of an array are equal");
                for (auto const &x : v)
                    CHECK(!std::binary_search(so.begin(), so.end(), x.p), "a new pin equals an older one");
                if (!many.empty()) v.push_back({many.back(), next++});
                break;
            }
            default:
                if (v.size() > 2) v.erase(v.begin() + i);  // identities are not used again
        }
    }
    for (auto const &x : vals) v.push_back({x.first.pin, x.second});
    for (auto const &a : v)
        for (auto const &b : v) pair(a, b);
    // usable as a key
    std::sort(v.begin(), v.end(), [](Known const &a, Known const &b) { return a.p < b.p; });
    std::map<pin_t, long> m;
    std::set<long> ids;
    for (size_t i = 0; i < v.size(); i++) {
        if (i > 0) CHECK(v[i - 1].p <= v[i].p, "sorting by < leaves pins out of order");
        m[v[i].p] = v[i].id;
        ids.insert(v[i].id);
    }
    CHECK(m.size() == ids.size(), "a map holds " << m.size() << " of " << ids.size() << " pins");
    for (auto const &x : v) CHECK(m.at(x.p) == x.id, "a map finds another pin");
    // never again in this process
    static std::vector<pin_t> older;
    for (auto const &p : older)
        CHECK(m.find(p) == m.end(), "a pin equals a pin of an earlier case");
    if (older.size() < 300)
        for (auto const &x : v)
            if (x.id != 0) older.push_back(x.p);
    ctx.nontrivial(ids.size() >= 3 && copies + threads >= 1);
    if (threads) ctx.label("pins created by concurrent threads");
    if (copies) ctx.label("copies");
}
PBT_MAIN(prop)
