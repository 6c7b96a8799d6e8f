// A small property-based testing core.
//
// A test case is a finite sequence of bounded choices. A generator draws its
// choices from a Src, which takes them from a PRNG seeded by (VERIF_SEED,
// case index), from a recorded sequence (replay and shrinking) or from fuzzer
// supplied bytes. Every consumed choice is mirrored into a shared mapping, so
// that a case can be reproduced even when it kills its process. Smaller
// choices are simpler: shrinking deletes choices and lowers their values.
#ifndef PBT_H
#define PBT_H
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cinttypes>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {

inline uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
inline uint64_t mix(uint64_t a, uint64_t b) { return mix(a * 0x9E3779B97F4A7C15ULL + mix(b)); }

// ---- shared record of the running case
struct Shared {
    static constexpr size_t CAP = 1 << 18;
    volatile uint64_t index;    // case index
    volatile uint64_t n;        // choices consumed so far
    volatile uint64_t state;    // 0 idle 1 running 2 failed 3 cpu limit
    char msg[4096];
    uint64_t choice[CAP];
};
inline Shared*& shared() {
    static Shared* s = nullptr;
    return s;
}

struct Fail {
    std::string msg;
};
// A case the generator cannot complete (counted, never a failure)
struct Discard {};

class Src {
  public:
    enum Mode { RANDOM, REPLAY, BYTES, FORWARD };
    Mode mode = RANDOM;
    uint64_t s = 0;
    std::vector<uint64_t> rec;
    const uint8_t* data = nullptr;
    size_t len = 0;
    size_t pos = 0;
    uint64_t used = 0;
    uint64_t digest = 0;
    bool mirror = true;  // not for the choices made by a thread of the case
    Src* parent = nullptr;

    static Src random(uint64_t seed) {
        Src r;
        r.mode = RANDOM;
        r.s = seed;
        return r;
    }
    static Src replay(std::vector<uint64_t> v) {
        Src r;
        r.mode = REPLAY;
        r.rec = std::move(v);
        return r;
    }
    static Src bytes(const uint8_t* d, size_t n) {
        Src r;
        r.mode = BYTES;
        r.data = d;
        r.len = n;
        return r;
    }
    // takes its choices from another source and remembers them
    static Src forward(Src &p) {
        Src r;
        r.mode = FORWARD;
        r.parent = &p;
        r.mirror = false;
        return r;
    }
    // A choice in [0,bound)
    uint64_t below(uint64_t bound) {
        uint64_t v = 0;
        if (bound < 1) bound = 1;
        if (mode == RANDOM) {
            s += 0x9e3779b97f4a7c15ULL;
            v = mix(s);
            v = (bound & (bound - 1)) == 0 ? (v & (bound - 1)) : v % bound;
        } else if (mode == REPLAY) {
            v = pos < rec.size() ? rec[pos] : 0;
            pos++;
            if (v >= bound) v = bound - 1;
        } else if (mode == FORWARD) {
            v = parent->below(bound);
            rec.push_back(v);
        } else {
            int nb = bound <= 256 ? 1 : bound <= 65536 ? 2 : bound <= (1ULL << 32) ? 4 : 8;
            for (int i = 0; i < nb; i++) {
                v |= (uint64_t)(pos < len ? data[pos] : 0) << (8 * i);
                pos++;
            }
            v %= bound;
        }
        if (mirror && used < Shared::CAP && shared()) {
            shared()->choice[used] = v;
            shared()->n = used + 1;
        }
        used++;
        digest = mix(digest, v + 1);
        if (used >= Shared::CAP) throw Discard();
        return v;
    }
    // In [lo,hi]; lo is the simplest value
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
    // A size in [lo,hi], and now and then in [lo,large]
    int64_t size(int64_t lo, int64_t hi, int64_t large) { return below(32) == 31 ? range(lo, large) : range(lo, hi); }
    // The same, and once in a while in [large,huge]
    int64_t size(int64_t lo, int64_t hi, int64_t large, int64_t huge) {
        uint64_t v = below(512);
        return v == 511 ? range(large, huge) : v % 32 == 31 ? range(lo, large) : range(lo, hi);
    }
    // True with probability num/den; false is the simplest
    bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
    bool coin() { return below(2) == 1; }
    template <class V>
    typename V::value_type const &pick(V const &v) {
        return v[below(v.size())];
    }
    template <class X>
    X of(std::initializer_list<X> l) {
        return *(l.begin() + below(l.size()));
    }
    // weighted index
    int weighted(std::initializer_list<int> w) {
        int tot = 0;
        for (int x : w) tot += x;
        int r = (int)below(tot), i = 0;
        for (int x : w) {
            if (r < x) return i;
            r -= x;
            i++;
        }
        return 0;
    }
    // A permutation of 0..n-1; all zero choices give the identity
    std::vector<int> perm(int n) {
        std::vector<int> p(n);
        for (int i = 0; i < n; i++) p[i] = i;
        for (int i = 0; i + 1 < n; i++) std::swap(p[i], p[i + below(n - i)]);
        return p;
    }
    // A real in [lo,hi] on a grid of 2^20 steps, lo simplest
    double real(double lo, double hi) {
        return lo + (hi - lo) * ((double)below((1 << 20) + 1) / (double)(1 << 20));
    }
};

struct Ctx {
    bool verbose = false, live = false;  // live: print at once, the case may kill its process
    std::string log;
    bool nt = false;
    std::vector<std::string> labels;
    void nontrivial(bool b = true) { nt = nt || b; }
    void label(std::string const &l) { labels.push_back(l); }
    void note(std::string const &x) {
        if (live) {
            fprintf(stdout, "%s\n", x.c_str());
            fflush(stdout);
        } else if (verbose && log.size() < 200000) {
            log += x;
            log += '\n';
        }
    }
};
#define NOTE(ctx, x)                  \
    do {                              \
        if ((ctx).verbose) {          \
            std::ostringstream o__;   \
            o__ << x;                 \
            (ctx).note(o__.str());    \
        }                             \
    } while (0)
#define CHECK(c, x)                                 \
    do {                                            \
        if (!(c)) {                                 \
            std::ostringstream o__;                 \
            o__ << x << "  [" << #c << "]";         \
            throw pbt::Fail{o__.str()};             \
        }                                           \
    } while (0)
#define FAIL(x)                     \
    do {                            \
        std::ostringstream o__;     \
        o__ << x;                   \
        throw pbt::Fail{o__.str()}; \
    } while (0)

typedef void (*Prop)(Src &, Ctx &);

// outcome of one case in this process: 0 ok, 1 failed, 2 discarded
inline int run_case(Prop p, Src &s, Ctx &c, std::string &msg) {
    try {
        p(s, c);
        return 0;
    } catch (Fail &f) {
        msg = f.msg;
        return 1;
    } catch (Discard &) {
        return 2;
    } catch (std::exception &e) {
        msg = std::string("unexpected exception: ") + e.what();
        return 1;
    }
}

inline void cpu_limit(int sec) {
    struct itimerval it;
    memset(&it, 0, sizeof it);
    it.it_value.tv_sec = sec;
    setitimer(ITIMER_PROF, &it, nullptr);
}
inline void on_prof(int) {
    if (shared()) {
        shared()->state = 3;
        strcpy(shared()->msg, "the case does not terminate: its processor time limit ran out");
    }
    _exit(98);
}

inline std::string jstr(std::string const &s) {
    std::string o = "\"";
    for (unsigned char ch : s) {
        char b[8];
        if (ch == '"' || ch == '\\') {
            o += '\\';
            o += ch;
        } else if (ch == '\n')
            o += "\\n";
        else if (ch < 32 || ch > 126) {
            snprintf(b, sizeof b, "\\u%04x", ch);
            o += b;
        } else
            o += ch;
    }
    return o + "\"";
}

inline void map_shared(char const* path) {
    if (path) {
        int fd = open(path, O_RDWR | O_CREAT, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0) {
            perror("status");
            exit(97);
        }
        shared() = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
    } else {
        shared() = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    }
    if (shared() == MAP_FAILED) {
        perror("mmap");
        exit(97);
    }
}

static const int CPU_LIMIT = 30;

// Runs one recorded case in a child; 0 pass/discard, 1 fail
inline int run_forked(Prop p, std::vector<uint64_t> const &v, std::string &msg,
                      std::vector<uint64_t> &used, bool quiet) {
    Shared* sh = shared();
    sh->n = 0;
    sh->state = 1;
    sh->msg[0] = 0;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        if (quiet) {
            int fd = open("/dev/null", O_WRONLY);
            dup2(fd, 1);
            dup2(fd, 2);
        }
        signal(SIGPROF, on_prof);
        cpu_limit(CPU_LIMIT);
        Src s = Src::replay(v);
        Ctx c;
        std::string m;
        int r = run_case(p, s, c, m);
        cpu_limit(0);
        if (r == 1) {
            strncpy(sh->msg, m.c_str(), sizeof(sh->msg) - 1);
            sh->state = 2;
        } else
            sh->state = 0;
        _exit(r == 1 ? 10 : 0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    used.assign(sh->choice, sh->choice + sh->n);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    if (sh->msg[0])
        msg = sh->msg;
    else {
        std::ostringstream o;
        if (WIFSIGNALED(st))
            o << "the case kills its process with signal " << WTERMSIG(st);
        else
            o << "the case kills its process (exit status " << WEXITSTATUS(st)
              << ", sanitizer report, assertion or memory limit)";
        msg = o.str();
    }
    return 1;
}

inline bool simpler(std::vector<uint64_t> const &a, std::vector<uint64_t> const &b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
}

inline std::vector<uint64_t> shrink(Prop p, std::vector<uint64_t> best, std::string &msg, int budget,
                                    int &spent) {
    spent = 0;
    struct timeval t0, t1;
    gettimeofday(&t0, nullptr);
    auto out_of = [&]() {
        gettimeofday(&t1, nullptr);
        return spent >= budget || t1.tv_sec - t0.tv_sec > 60;
    };
    auto attempt = [&](std::vector<uint64_t> const &cand) {
        if (out_of()) return false;
        spent++;
        std::string m;
        std::vector<uint64_t> used;
        if (run_forked(p, cand, m, used, true) == 1) {
            std::vector<uint64_t> nb = used.size() <= cand.size() ? used : cand;
            while (!nb.empty() && nb.back() == 0) nb.pop_back();
            if (simpler(nb, best)) {
                best = nb;
                msg = m;
                return true;
            }
        }
        return false;
    };
    bool progress = true;
    while (progress && !out_of()) {
        progress = false;
        for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {
            size_t i = best.size();
            while (i > 0 && !out_of()) {
                size_t a = i >= len ? i - len : 0;
                std::vector<uint64_t> c(best);
                if (a < c.size()) {
                    c.erase(c.begin() + a, c.begin() + std::min(c.size(), a + len));
                    if (attempt(c)) {
                        progress = true;
                        i = std::min(i, best.size());
                        continue;
                    }
                    // zero the chunk
                    c = best;
                    bool any = false;
                    for (size_t k = a; k < std::min(c.size(), a + len); k++) {
                        any = any || c[k] != 0;
                        c[k] = 0;
                    }
                    if (any && attempt(c)) progress = true;
                }
                i = std::min(a, best.size());
            }
            if (len == 1) break;
        }
        for (size_t i = 0; i < best.size() && !out_of(); i++) {
            for (int k = 0; k < 3 && i < best.size() && best[i] > 0; k++) {
                std::vector<uint64_t> c(best);
                c[i] = k == 0 ? best[i] / 2 : k == 1 ? best[i] - 1 : best[i] / 4 * 3;
                if (attempt(c)) {
                    progress = true;
                    k = -1;
                }
            }
            // delete one choice while lowering an earlier count
            if (i < best.size() && best[i] > 0 && best[i] < 64) {
                for (size_t w = 1; w <= 12 && i + 1 + w <= best.size(); w++) {
                    std::vector<uint64_t> c(best);
                    c[i]--;
                    c.erase(c.begin() + i + 1, c.begin() + i + 1 + w);
                    if (attempt(c)) {
                        progress = true;
                        break;
                    }
                }
            }
        }
    }
    return best;
}

inline std::vector<uint64_t> read_replay(char const* path) {
    FILE* f = fopen(path, "r");
    if (!f) {
        perror(path);
        exit(97);
    }
    std::vector<uint64_t> v;
    char line[256];
    bool in = false;
    while (fgets(line, sizeof line, f)) {
        if (!in) {
            if (strncmp(line, "choices", 7) == 0) in = true;
            continue;
        }
        v.push_back(strtoull(line, nullptr, 10));
    }
    fclose(f);
    return v;
}
inline void write_replay(char const* path, std::vector<uint64_t> const &v, std::string const &msg,
                         std::string const &log) {
    FILE* f = fopen(path, "w");
    std::istringstream is(msg + "\n" + log);
    std::string l;
    while (std::getline(is, l)) fprintf(f, "# %s\n", l.c_str());
    fprintf(f, "choices %zu\n", v.size());
    for (auto x : v) fprintf(f, "%" PRIu64 "\n", x);
    fclose(f);
}

inline char const* arg(int argc, char** argv, char const* name, char const* def) {
    for (int i = 1; i + 1 < argc; i++)
        if (strcmp(argv[i], name) == 0) return argv[i + 1];
    return def;
}

inline int main_impl(int argc, char** argv, Prop p) {
    // The visiting order of address keyed containers is part of the schedule:
    // fix the address space layout so that a case is a function of its choices.
    if (getenv("PBT_NOASLR") == nullptr) {
        setenv("PBT_NOASLR", "1", 1);
        int old = personality(0xffffffff);
        if (old != -1 && !(old & ADDR_NO_RANDOMIZE) && personality(old | ADDR_NO_RANDOMIZE) != -1)
            execv("/proc/self/exe", argv);
    }
    char const* replay = arg(argc, argv, "--replay", nullptr);
    char const* shrinkf = arg(argc, argv, "--shrink", nullptr);
    char const* status = arg(argc, argv, "--status", nullptr);
    char const* out = arg(argc, argv, "--out", nullptr);
    map_shared(status);
    if (replay) {  // run one recorded case in this process
        std::vector<uint64_t> v = read_replay(replay);
        signal(SIGPROF, on_prof);
        cpu_limit(CPU_LIMIT);
        Src s = Src::replay(v);
        Ctx c;
        c.verbose = c.live = getenv("PBT_VERBOSE") != nullptr;
        std::string m;
        int r = run_case(p, s, c, m);
        if (c.verbose) fputs(c.log.c_str(), stdout);
        if (r == 1) {
            printf("FAILED: %s\n", m.c_str());
            return 10;
        }
        printf("passed\n");
        return 0;
    }
    if (shrinkf) {
        std::vector<uint64_t> v = read_replay(shrinkf), used;
        std::string m;
        if (run_forked(p, v, m, used, true) == 0) {
            printf("not reproduced\n");
            return 3;
        }
        int spent = 0;
        v = shrink(p, v, m, atoi(arg(argc, argv, "--budget", "3000")), spent);
        // the log of the minimal case, from a child because it may die
        int fds[2];
        std::string log;
        if (pipe(fds) == 0) {
            pid_t pid = fork();
            if (pid == 0) {
                int fd = open("/dev/null", O_WRONLY);
                dup2(fd, 1);
                dup2(fd, 2);
                close(fds[0]);
                signal(SIGPROF, on_prof);
                cpu_limit(CPU_LIMIT);
                Src s = Src::replay(v);
                Ctx c;
                c.verbose = true;
                std::string mm;
                run_case(p, s, c, mm);
                std::string t = c.log.substr(0, 30000);
                for (size_t o = 0; o < t.size();) {
                    ssize_t k = write(fds[1], t.data() + o, t.size() - o);
                    if (k <= 0) break;
                    o += k;
                }
                _exit(0);
            }
            close(fds[1]);
            char buf[4096];
            ssize_t k;
            while ((k = read(fds[0], buf, sizeof buf)) > 0) log.append(buf, k);
            close(fds[0]);
            waitpid(pid, nullptr, 0);
        }
        write_replay(out, v, m, log);
        printf("%s\n", m.c_str());
        return 10;
    }
    // a run of generated cases
    uint64_t seed = strtoull(arg(argc, argv, "--seed", "1"), nullptr, 10);
    uint64_t start = strtoull(arg(argc, argv, "--start", "0"), nullptr, 10);
    uint64_t count = strtoull(arg(argc, argv, "--count", "100"), nullptr, 10);
    int nsamples = atoi(arg(argc, argv, "--samples", "1"));
    std::map<std::string, uint64_t> labels;
    std::vector<uint64_t> distinct;
    std::unordered_set<uint64_t> seen;
    std::vector<std::string> samples;
    uint64_t ev = 0, nt = 0, disc = 0, choices = 0;
    signal(SIGPROF, on_prof);
    for (uint64_t i = start; i < start + count; i++) {
        shared()->index = i;
        shared()->n = 0;
        shared()->msg[0] = 0;
        shared()->state = 1;
        Ctx c;
        Src s = Src::random(mix(mix(seed, 0x5eed), i));
        std::string m;
        if ((i & 15) == 0) cpu_limit(CPU_LIMIT);
        int r = run_case(p, s, c, m);
        choices += s.used;
        if (r == 1) {
            strncpy(shared()->msg, m.c_str(), sizeof(shared()->msg) - 1);
            shared()->state = 2;
            return 10;
        }
        shared()->state = 0;
        ev++;
        if (r == 2) {
            disc++;
            continue;
        }
        for (auto const &l : c.labels) labels[l]++;
        if (c.nt) {
            nt++;
            if (seen.insert(s.digest).second) distinct.push_back(s.digest);
            if ((int)samples.size() < nsamples && i >= start + count / 4) {
                cpu_limit(0);
                Src s2 = Src::random(mix(mix(seed, 0x5eed), i));
                Ctx c2;
                c2.verbose = true;
                std::string m2;
                run_case(p, s2, c2, m2);
                std::ostringstream o;
                o << "case " << i << " (" << s.used << " choices)\n" << c2.log.substr(0, 2500);
                samples.push_back(o.str());
                cpu_limit(CPU_LIMIT);
            }
        }
    }
    cpu_limit(0);
    FILE* f = out ? fopen(out, "w") : stdout;
    fprintf(f,
            "{\"evaluations\":%" PRIu64 ",\"nontrivial\":%" PRIu64 ",\"discarded\":%" PRIu64
            ",\"choices\":%" PRIu64 ",\n\"labels\":{",
            ev, nt, disc, choices);
    bool first = true;
    for (auto const &l : labels) {
        fprintf(f, "%s%s:%" PRIu64, first ? "" : ",", jstr(l.first).c_str(), l.second);
        first = false;
    }
    fprintf(f, "},\n\"samples\":[");
    first = true;
    for (auto const &x : samples) {
        fprintf(f, "%s%s", first ? "" : ",\n", jstr(x).c_str());
        first = false;
    }
    fprintf(f, "],\n\"digests\":[");
    first = true;
    for (auto x : distinct) {
        fprintf(f, "%s\"%" PRIx64 "\"", first ? "" : ",", x);
        first = false;
    }
    fprintf(f, "]}\n");
    if (out) fclose(f);
    return 0;
}
}  // namespace pbt

#ifdef PBT_FUZZ
#define PBT_MAIN(prop)                                                           \
    extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) {           \
        if (!pbt::shared()) pbt::map_shared(getenv("PBT_STATUS"));                \
        pbt::shared()->n = 0;                                                     \
        pbt::shared()->state = 1;                                                 \
        pbt::shared()->index++;                                                   \
        pbt::shared()->msg[0] = 0;                                                \
        pbt::Src s = pbt::Src::bytes(d, n);                                       \
        pbt::Ctx c;                                                               \
        std::string m;                                                            \
        if (pbt::run_case(prop, s, c, m) == 1) {                                  \
            strncpy(pbt::shared()->msg, m.c_str(), sizeof(pbt::shared()->msg) - 1); \
            pbt::shared()->state = 2;                                             \
            fprintf(stderr, "FAILED: %s\n", m.c_str());                           \
            __builtin_trap();                                                     \
        }                                                                         \
        pbt::shared()->state = 0;                                                 \
        return 0;                                                                 \
    }
#else
#define PBT_MAIN(prop) \
    int main(int argc, char** argv) { return pbt::main_impl(argc, argv, prop); }
#endif
#endif
