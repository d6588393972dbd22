// Minimal property-based testing engine: choice-sequence generation, generic shrinking,
// forked workers, replay files, optional libFuzzer entry point (-DPBT_FUZZ).
#pragma once
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <sys/prctl.h>
#include <string>
#include <typeinfo>
#include <unordered_set>
#include <vector>

namespace pbt {
using u64 = uint64_t;
struct Failure { std::string tag, msg; };
struct Discard {};

inline u64 splitmix(u64 &s) {
    u64 z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

constexpr size_t MAXC = 1 << 17;
struct Slot {                       // one per worker, in shared memory
    volatile u64 case_idx, done, busy_since_ms, heartbeat;
    volatile int law;
    volatile int finished;
    volatile int failed;            // a Failure was recorded in tag/msg
    char tag[128];
    char msg[4096];
    char shown[6000];
    volatile u64 n;
    u64 choice[MAXC];
};

class Ctx {
public:
    enum Mode { RANDOM, REPLAY, BYTES };
    Ctx(Slot *s, u64 seed, double size) : mode(RANDOM), slot(s), rng(seed), size_(size) { s->n = 0; }
    Ctx(Slot *s, std::vector<u64> const &in) : mode(REPLAY), slot(s), rng(0), in_(in), size_(1) { s->n = 0; }
    Ctx(Slot *s, const uint8_t *d, size_t n) : mode(BYTES), slot(s), rng(0), data(d), left(n), size_(1) { s->n = 0; }

    // value in [0,max]; in random mode only [0,rmax] is used
    u64 draw(u64 max, u64 rmax, bool cap = false) {
        u64 v = 0;
        if (max > 0) {
            if (mode == RANDOM) {
                if (rmax > max) rmax = max;
                v = rmax == ~0ull ? splitmix(rng) : splitmix(rng) % (rmax + 1);
            } else if (mode == REPLAY) {
                v = pos < in_.size() ? in_[pos] : 0;
                if (v > max) v = max;
            } else {
                u64 m = max; int k = 0;
                while (m) { m >>= 8; k++; }
                while (k-- > 0 && left > 0) { v = (v << 8) | *data++; left--; }
                if (cap) v %= (rmax + 1); else if (max != ~0ull) v %= (max + 1);
            }
        }
        pos++;
        if (slot->n >= MAXC) throw Discard{};
        slot->choice[slot->n] = v; slot->n = slot->n + 1;
        return v;
    }
    u64 draw(u64 max) { return draw(max, max); }

    // ---- generators --------------------------------------------------
    long i(long lo, long hi) { return lo + (long) draw((u64) (hi - lo)); }
    // length-like integer: grows with the case index
    long len(long lo, long hi) {
        u64 span = (u64) (hi - lo);
        u64 r = (u64) std::ceil(span * size_);
        return lo + (long) draw(span, r);
    }
    // mostly lo..hi, sometimes up to far: thresholds that only larger cases cross
    long wide(long lo, long hi, long far) { bool b = big(); return lo + (long) draw((u64) (far - lo), (u64) ((b ? far : hi) - lo), !b); }
    long lenw(long lo, long hi, long far) { if (big()) return lo + (long) draw((u64) (far - lo), (u64) (far - lo)); return lo + (long) draw((u64) (far - lo), (u64) std::ceil((double) (hi - lo) * size_), true); }
    long z(long n) { u64 v = draw(2 * (u64) n); return (v & 1) ? (long) ((v + 1) / 2) : -(long) (v / 2); }
    bool chance(int percent) { return draw(99) >= (u64) (100 - percent); }
    bool flip() { return draw(1) == 1; }
    template<class V> auto const &pick(V const &v) { return v[(size_t) draw(v.size() - 1)]; }
    // multiples of 1/den in [-n,n]: sums and products of these stay exact
    double dy(long n, long den = 4) { return (double) z(n * den) / (double) den; }
    double unit() { return (double) draw((1ull << 32) - 1) / 4294967296.0; }
    double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
    // mixture: small integers, dyadics, decimals, wide magnitudes
    double num() {
        switch (draw(5)) {
            case 0: return (double) z(10);
            case 1: return dy(50, 8);
            case 2: return (double) z(100000) / 1000.0;
            case 3: return real(-1, 1);
            case 4: return std::ldexp(real(-1, 1), (int) i(-20, 20));
            default: return (double) z(1000000);
        }
    }
    std::vector<size_t> perm(size_t n) {
        std::vector<size_t> p(n);
        for (size_t k = 0; k < n; k++) p[k] = k;
        for (size_t k = 0; k + 1 < n; k++) std::swap(p[k], p[k + (size_t) draw(n - 1 - k)]);
        return p;
    }

    // ---- bookkeeping -------------------------------------------------
    void nontrivial() { nontriv = true; }
    void label(std::string const &l) { labels.insert(l); }
    std::ostringstream &show() { return shown; }
    void assume(bool b) { if (!b) throw Discard{}; }
    [[noreturn]] void fail(std::string const &tag, std::string const &msg) { throw Failure{tag, msg}; }

    bool nontriv = false;
    std::set<std::string> labels;
    std::ostringstream shown;
    Mode mode;
    Slot *slot;
    size_t pos = 0;
private:
    bool big() {
        if (mode == RANDOM) { if (many < 0) many = splitmix(rng) % 24 == 0; return splitmix(rng) % (many ? 2 : 24) == 0; }
        if (mode == BYTES && left > 0) { left--; return *data++ % 16 == 15; }
        return false;
    }
    int many = -1;
    u64 rng;
    std::vector<u64> in_;
    const uint8_t *data = nullptr;
    size_t left = 0;
    double size_;
};

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define REQUIRE(cond, tagstr, expr)                                                       \
    do { if (!(cond)) { std::ostringstream _o; _o.precision(17); _o << expr << "   [" #cond "]"; \
        throw pbt::Failure{tagstr, _o.str()}; } } while (0)

struct Law {
    std::string name, rule;
    int weight;
    int timeout_s;
    int flaky_tries;    // >0: schedule dependent, replay may need several tries
    std::function<void(Ctx &)> body;
};
inline std::vector<Law> &laws() { static std::vector<Law> l; return l; }
struct Reg {
    Reg(const char *n, int w, void (*f)(Ctx &), const char *rule, int timeout = 60, int flaky = 0) {
        laws().push_back({n, rule, w, timeout, flaky, f});
    }
};
// LAW(name, weight, rule [, timeout_s [, flaky_tries]]) { body using Ctx &c }
#define LAW(NAME, WEIGHT, ...)                                                            \
    static void PBT_CAT(law_, NAME)(pbt::Ctx & c);                                        \
    static pbt::Reg PBT_CAT(reg_, NAME)(#NAME, WEIGHT, PBT_CAT(law_, NAME), __VA_ARGS__); \
    static void PBT_CAT(law_, NAME)(pbt::Ctx & c)

// harness hook: reset library globals before each case
inline std::function<void()> &before_case() { static std::function<void()> f; return f; }

inline u64 now_ms() {
    return (u64) std::chrono::duration_cast<std::chrono::milliseconds>(
            std::chrono::steady_clock::now().time_since_epoch()).count();
}

// ---- float comparison --------------------------------------------------
inline bool close(double a, double b, double rel = 1e-9, double abs = 1e-9) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (a == b) return true;
    if (std::isinf(a) || std::isinf(b)) return false;
    return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}
template<class V> std::string vs(V const &v) {
    std::ostringstream o; o.precision(17); o << "[";
    bool f = true;
    for (auto const &x: v) { if (!f) o << ","; o << x; f = false; }
    o << "]"; return o.str();
}

enum Outcome { PASS = 0, FAIL = 1, DISCARD = 2 };

inline Outcome run_case(Law const &law, Ctx &c) {
    if (before_case()) before_case()();
    auto rec = [&](std::string const &t, std::string const &m) {
        strncpy(c.slot->tag, t.c_str(), sizeof c.slot->tag - 1);
        strncpy(c.slot->msg, m.c_str(), sizeof c.slot->msg - 1);
        strncpy(c.slot->shown, c.shown.str().c_str(), sizeof c.slot->shown - 1);
        c.slot->failed = 1;
        return FAIL;
    };
    c.slot->failed = 0;
    c.slot->tag[0] = c.slot->msg[0] = c.slot->shown[0] = 0;
    try { law.body(c); }
    catch (Failure &f) { return rec(f.tag, f.msg); }
    catch (Discard &) { return DISCARD; }
    catch (std::exception &e) { return rec(std::string("exception:") + typeid(e).name(), e.what()); }
    catch (...) { return rec("exception:unknown", "unknown exception"); }
    return PASS;
}

inline std::string jstr(std::string const &s) {
    std::string o = "\"";
    for (unsigned char ch: s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += (char) ch; }
        else if (ch == '\n') o += "\\n";
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
        else o += (char) ch;
    }
    return o + "\"";
}

// ------------------------------------------------------------------ driver
struct Result { std::string kind, tag, msg, shown; std::vector<u64> choices; bool failed = false; };

inline void quiet_fds(std::string const &errfile) {
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    if (errfile.empty()) dup2(n, 2);
    else { int e = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (e >= 0) dup2(e, 2); else dup2(n, 2); }
}

inline std::string tail_report(std::string const &f) {      // the informative line of a sanitizer report
    std::ifstream in(f);
    std::string l, best, last;
    int lines = 0, frames = 0;
    while (std::getline(in, l)) {
        if (l.size() > 300) l.resize(300);
        if (!l.empty()) last = l;
        if (l.find("ERROR: AddressSanitizer") != std::string::npos || l.find("runtime error") != std::string::npos ||
            l.find("Assertion") != std::string::npos || l.find("terminate called") != std::string::npos) {
            best += l + "\n"; lines++;
        } else if (lines && frames < 6 && l.find("    #") == 0) { best += l + "\n"; frames++; }
        if (best.size() > 3000) break;
    }
    return best.empty() ? last : best;
}

inline Ctx *&current() { static Ctx *c = nullptr; return c; }
inline void dump_shown() {
    if (!current()) return;
    strncpy(current()->slot->shown, current()->shown.str().c_str(), sizeof current()->slot->shown - 1);
    current() = nullptr;
}
} // namespace pbt
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
namespace pbt {
// run one case in a child; returns the outcome
inline Result exec_isolated(int law, std::vector<u64> const &choices, Slot *slot, std::string const &dir, int timeout_s, bool verbose = false) {
    Result r; r.choices = choices;
    std::string err = dir + "/child.err";
    slot->failed = 0; slot->n = 0; slot->finished = 0;
    slot->tag[0] = slot->msg[0] = slot->shown[0] = 0;
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
        setpgid(0, 0); prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (!verbose) quiet_fds(err);
        Ctx c(slot, choices);
        current() = &c;
        std::atexit(dump_shown);
        if (&__sanitizer_set_death_callback) __sanitizer_set_death_callback(dump_shown);
        Outcome o = run_case(laws()[law], c);
        current() = nullptr;
        slot->finished = 1 + o;
        _exit(o == FAIL ? 101 : 0);
    }
    u64 t0 = now_ms();
    int st = 0; bool hang = false;
    useconds_t nap = 200;
    while (true) {
        pid_t q = waitpid(p, &st, WNOHANG);
        if (q == p) break;
        if (now_ms() - t0 > (u64) timeout_s * 1000) { hang = true; kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &st, 0); break; }
        usleep(nap); if (nap < 5000) nap += 200;
    }
    kill(-p, SIGKILL);
    r.choices.assign(slot->choice, slot->choice + slot->n);
    if (slot->failed) {
        r.failed = true; r.kind = "oracle"; r.tag = slot->tag; r.msg = slot->msg; r.shown = slot->shown;
    } else if (hang) {
        r.failed = true; r.kind = "hang"; r.tag = "hang"; r.msg = "case did not finish";
    } else if (!slot->finished) {
        r.failed = true; r.kind = "crash";
        std::string rep = tail_report(err);
        char b[64];
        if (WIFSIGNALED(st)) snprintf(b, 64, "signal %d", WTERMSIG(st)); else snprintf(b, 64, "exit %d", WEXITSTATUS(st));
        r.tag = std::string("crash");
        r.msg = std::string(b) + "\n" + rep;
        r.shown = slot->shown;
    }
    return r;
}

inline Result shrink(int law, Result best, Slot *slot, std::string const &dir, double budget_s, int timeout_s, long &execs) {
    u64 t0 = now_ms();
    auto over = [&] { return now_ms() - t0 > (u64) (budget_s * 1000) || execs > 4000; };
    auto attempt = [&](std::vector<u64> const &cand) {
        if (over()) return false;
        execs++;
        Result r = exec_isolated(law, cand, slot, dir, timeout_s);
        if (r.failed && r.kind == best.kind && r.tag == best.tag &&
            (r.choices.size() < best.choices.size() ||
             (r.choices.size() == best.choices.size() && r.choices < best.choices))) { best = r; return true; }
        return false;
    };
    bool progress = true;
    while (progress && !over()) {
        progress = false;
        for (size_t k: {64, 32, 16, 8, 4, 3, 2, 1}) {
            for (size_t i = best.choices.size(); i-- > 0 && !over();) {
                if (i + k > best.choices.size()) continue;
                auto cand = best.choices;
                cand.erase(cand.begin() + i, cand.begin() + i + k);
                if (attempt(cand)) { progress = true; continue; }
                // delete while decrementing an earlier length-like choice
                if (i > 0 && best.choices[i - 1] > 0 && k <= 8) {
                    cand[i - 1]--;
                    if (attempt(cand)) progress = true;
                }
            }
        }
        for (size_t i = 0; i < best.choices.size() && !over(); i++) {
            if (best.choices[i] == 0) continue;
            auto cand = best.choices; cand[i] = 0;
            if (attempt(cand)) { progress = true; continue; }
            u64 lo = 0, hi = best.choices[i];
            while (lo + 1 < hi && !over()) {
                u64 mid = lo + (hi - lo) / 2;
                cand = best.choices; if (i >= cand.size()) break;
                cand[i] = mid;
                if (attempt(cand)) { hi = mid; progress = true; } else lo = mid;
            }
        }
    }
    return best;
}

inline void write_replay(std::string const &path, int law, Result const &r, u64 seed, u64 idx, int hist_workers = 0, std::string const &only = "") {
    std::ofstream o(path);
    o << "{\"law\":" << jstr(laws()[law].name) << ",\"kind\":" << jstr(r.kind) << ",\"tag\":" << jstr(r.tag)
      << ",\"msg\":" << jstr(r.msg) << ",\"case\":" << jstr(r.shown) << ",\"seed\":" << seed << ",\"index\":" << idx
      << ",\"history_workers\":" << hist_workers << ",\"only\":" << jstr(only)
      << ",\"choices\":[";
    for (size_t i = 0; i < r.choices.size(); i++) o << (i ? "," : "") << r.choices[i];
    o << "]}\n";
}
inline bool read_replay(std::string const &path, std::string &law, std::vector<u64> &ch) {
    std::ifstream in(path);
    std::stringstream ss; ss << in.rdbuf();
    std::string s = ss.str();
    auto p = s.find("\"law\":\"");
    if (p == std::string::npos) return false;
    p += 7; law = s.substr(p, s.find('"', p) - p);
    p = s.find("\"choices\":[");
    if (p == std::string::npos) return false;
    p += 11;
    while (p < s.size() && s[p] != ']') {
        if (isdigit((unsigned char) s[p])) { char *e; ch.push_back(strtoull(s.c_str() + p, &e, 10)); p = e - s.c_str(); }
        else p++;
    }
    return true;
}
inline int law_index(std::string const &n) {
    for (size_t i = 0; i < laws().size(); i++) if (laws()[i].name == n) return (int) i;
    return -1;
}

struct Opts {
    u64 seed = 1, cases = 1000; int workers = 8; double budget = 300; std::string dir = "."; std::string only;
    std::string replay, bytes; bool verbose = false; int tries = 3; double shrink_s = 60;
};

inline u64 case_seed(u64 seed, u64 idx) { u64 s = seed * 0x9E3779B97F4A7C15ull + idx * 0xD1B54A32D192ED03ull + 77; splitmix(s); return splitmix(s); }

inline double case_size(u64 idx, u64 round) {
    return std::min(1.0, 0.05 + 1.4 * (double) ((idx / round) % 400) / 400.0 + ((idx % 7) == 0 ? 0.5 : 0.0));
}
inline std::vector<int> schedule(std::string const &only) {
    std::vector<std::pair<double, int>> v;
    for (size_t l = 0; l < laws().size(); l++) {
        if (!only.empty() && laws()[l].name != only) continue;
        int w = only.empty() ? laws()[l].weight : 1;
        for (int k = 0; k < w; k++) v.push_back({(k + 0.5) / w + l * 1e-6, (int) l});
    }
    std::sort(v.begin(), v.end());
    std::vector<int> s;
    for (auto &x: v) s.push_back(x.second);
    return s;
}

inline Slot *make_slots(int n) {
    void *m = mmap(nullptr, sizeof(Slot) * (size_t) n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) { perror("mmap"); exit(3); }
    return (Slot *) m;
}

inline int worker(int w, Opts const &o, std::vector<int> const &sched, Slot *slot) {
    quiet_fds(o.dir + "/w" + std::to_string(w) + ".err");
    std::string scratch = o.dir + "/scratch" + std::to_string(w);
    mkdir(scratch.c_str(), 0755);
    if (chdir(scratch.c_str()) != 0) _exit(3);
    struct St { u64 ev = 0, disc = 0, nt = 0; std::unordered_set<u64> h; std::vector<std::string> samples; std::map<std::string, u64> labels; };
    std::vector<St> st(laws().size());
    u64 t0 = now_ms();
    int rc = 0;
    u64 round = sched.size();
    for (u64 idx = (u64) w; idx < o.cases; idx += (u64) o.workers) {
        if (now_ms() - t0 > (u64) (o.budget * 1000)) break;
        // rotate so that no law is tied to one worker
        int l = sched[(idx + idx / round) % round];
        double size = case_size(idx, round);
        slot->case_idx = idx; slot->law = l; slot->busy_since_ms = now_ms();
        Ctx c(slot, case_seed(o.seed, idx), size);
        Outcome out = run_case(laws()[l], c);
        St &s = st[l];
        s.ev++;
        if (out == DISCARD) s.disc++;
        if (out == PASS) {
            for (auto &x: c.labels) s.labels[x]++;
            if (c.nontriv) {
                s.nt++;
                u64 h = 1469598103934665603ull;
                for (u64 k = 0; k < slot->n; k++) { h ^= slot->choice[k] + 0x9E37; h *= 1099511628211ull; }
                s.h.insert(h);
                if (s.samples.size() < 3 && w < 2 && size > 0.2) {
                    std::string t = c.shown.str();
                    if (t.empty()) { std::ostringstream q; q << "choices:"; for (u64 k = 0; k < std::min<u64>((u64) slot->n, 40); k++) q << " " << slot->choice[k]; t = q.str(); }
                    if (t.size() > 500) t = t.substr(0, 500) + "...";
                    s.samples.push_back(t);
                }
            }
        }
        if (out == FAIL) { rc = 101; break; }
        slot->done = slot->done + 1;
        slot->busy_since_ms = 0;
    }
    slot->busy_since_ms = 0;
    std::ofstream f(o.dir + "/w" + std::to_string(w) + ".json");
    f << "{";
    for (size_t l = 0; l < st.size(); l++) {
        f << (l ? "," : "") << jstr(laws()[l].name) << ":{\"evaluations\":" << st[l].ev << ",\"discarded\":" << st[l].disc
          << ",\"nontrivial\":" << st[l].nt << ",\"labels\":{";
        bool first = true;
        for (auto &x: st[l].labels) { f << (first ? "" : ",") << jstr(x.first) << ":" << x.second; first = false; }
        f << "},\"samples\":[";
        for (size_t k = 0; k < st[l].samples.size(); k++) f << (k ? "," : "") << jstr(st[l].samples[k]);
        f << "],\"hashes\":[";
        first = true;
        size_t cnt = 0;
        for (u64 h: st[l].h) { if (cnt++ > 60000) break; f << (first ? "" : ",") << h; first = false; }
        f << "]}";
    }
    f << "}\n";
    f.close();
    slot->finished = 1;
    _exit(rc);
}

// replays one worker's whole sequence of cases up to idx in a fresh process (for failures that depend on
// state built up by earlier cases); true if the case idx fails again
inline bool exec_history(Opts const &o, u64 idx, Slot *slot, int timeout_s, Result &r) {
    auto sched = schedule(o.only);
    slot->failed = 0; slot->n = 0; slot->finished = 0; slot->tag[0] = slot->msg[0] = slot->shown[0] = 0;
    slot->busy_since_ms = 0;
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        setpgid(0, 0); prctl(PR_SET_PDEATHSIG, SIGKILL);
        quiet_fds(o.dir + "/child.err");
        u64 round = sched.size();
        for (u64 k = idx % (u64) o.workers; k <= idx; k += (u64) o.workers) {
            slot->case_idx = k; slot->busy_since_ms = now_ms();
            Ctx c(slot, case_seed(o.seed, k), case_size(k, round));
            if (run_case(laws()[sched[(k + k / round) % round]], c) == FAIL) _exit(101);
        }
        slot->finished = 1;
        _exit(0);
    }
    int st = 0; bool hang = false;
    while (waitpid(p, &st, WNOHANG) != p) {
        u64 b = slot->busy_since_ms;
        if (b && now_ms() > b && now_ms() - b > (u64) timeout_s * 1000) { hang = true; kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &st, 0); break; }
        usleep(2000);
    }
    kill(-p, SIGKILL);
    if (slot->finished) return false;
    r.failed = true;
    r.choices.assign(slot->choice, slot->choice + slot->n);
    r.kind = slot->failed ? "oracle" : hang ? "hang" : "crash";
    r.tag = slot->failed ? slot->tag : r.kind;
    r.msg = slot->failed ? slot->msg : r.kind == "crash" ? tail_report(o.dir + "/child.err") : "case did not finish";
    r.shown = slot->shown;
    return true;
}

inline int report_failure(int law, std::vector<u64> const &choices, u64 seed, u64 idx, Opts const &o, Slot *slot, std::string const &first_kind) {
    int to = laws()[law].timeout_s;
    std::string sd = o.dir + "/scratchR"; mkdir(sd.c_str(), 0755);
    if (chdir(sd.c_str()) != 0) return 3;
    int tries = std::max(1, laws()[law].flaky_tries);
    Result r;
    for (int k = 0; k < tries && !r.failed; k++) r = exec_isolated(law, choices, slot, o.dir, to * (first_kind == "hang" ? 2 : 1));
    auto history = [&]() {
        if (first_kind == "fuzz") return 2;
        Result h; int n = 0;
        for (int k = 0; k < 3; k++) n += exec_history(o, idx, slot, to * 2, h);
        if (n < 3) { printf("UNREPRODUCED law=%s idx=%llu kind=%s\n", laws()[law].name.c_str(), (unsigned long long) idx, first_kind.c_str()); return 2; }
        write_replay(o.dir + "/failure.json", law, h, seed, idx, o.workers, o.only);
        printf("FAILURE (history of worker %llu) law=%s kind=%s tag=%s\n  %s\n  case: %s\n", (unsigned long long) (idx % (u64) o.workers),
               laws()[law].name.c_str(), h.kind.c_str(), h.tag.c_str(), h.msg.c_str(), h.shown.c_str());
        return 1;
    };
    if (!r.failed) return history();
    long execs = 0;
    Result best = r;
    if (tries == 1) best = shrink(law, r, slot, o.dir, r.kind == "hang" ? 0 : o.shrink_s, to, execs);
    // the replay must fail three more times (schedule-dependent laws get several tries each)
    int ok = 0;
    for (int rep = 0; rep < 3; rep++) {
        for (int k = 0; k < tries; k++) {
            Result x = exec_isolated(law, best.choices, slot, o.dir, to * (best.kind == "hang" ? 2 : 1));
            if (x.failed && (tries > 1 || x.kind == best.kind)) { ok++; break; }
        }
    }
    if (ok < 3) {
        best = r; ok = 0;      // fall back to the unshrunk case
        for (int rep = 0; rep < 3; rep++) for (int k = 0; k < tries; k++)
            if (exec_isolated(law, best.choices, slot, o.dir, to).failed) { ok++; break; }
        if (ok < 3 && tries == 1) return history();
    }
    write_replay(o.dir + "/failure.json", law, best, seed, idx);
    printf("FAILURE law=%s kind=%s tag=%s execs=%ld choices=%zu->%zu\n  %s\n  case: %s\n", laws()[law].name.c_str(), best.kind.c_str(),
           best.tag.c_str(), execs, choices.size(), best.choices.size(), best.msg.c_str(), best.shown.c_str());
    return 1;
}

inline int run(Opts const &o) {
    auto sched = schedule(o.only);
    if (sched.empty()) { fprintf(stderr, "no such law\n"); return 3; }
    Slot *slots = make_slots(o.workers + 1);
    std::vector<pid_t> pid(o.workers);
    std::vector<int> status(o.workers, -1);
    for (int w = 0; w < o.workers; w++) {
        fflush(stdout);
        pid[w] = fork();
        if (pid[w] == 0) { setpgid(0, 0); prctl(PR_SET_PDEATHSIG, SIGKILL); worker(w, o, sched, &slots[w]); }
    }
    int alive = o.workers, bad = -1;
    std::string kind;
    while (alive > 0 && bad < 0) {
        bool any = false;
        for (int w = 0; w < o.workers; w++) {
            if (status[w] != -1) continue;
            int st;
            pid_t q = waitpid(pid[w], &st, WNOHANG);
            if (q == pid[w]) {
                any = true; alive--; status[w] = st;
                if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { bad = w; kind = slots[w].failed ? "oracle" : "crash"; break; }
                if (!slots[w].finished) { bad = w; kind = "crash"; break; }   // somebody called exit(0)
            } else {
                u64 b = slots[w].busy_since_ms;
                if (b && now_ms() > b && now_ms() - b > (u64) laws()[slots[w].law].timeout_s * 1000) { bad = w; kind = "hang"; break; }
            }
        }
        if (!any && bad < 0) usleep(5000);
    }
    if (bad < 0) return 0;
    // let the others finish for a moment?  no: stop them, the failure decides the run
    for (int w = 0; w < o.workers; w++) if (status[w] == -1) { kill(-pid[w], SIGKILL); kill(pid[w], SIGKILL); waitpid(pid[w], nullptr, 0); }
    std::vector<u64> ch(slots[bad].choice, slots[bad].choice + slots[bad].n);
    return report_failure(slots[bad].law, ch, o.seed, slots[bad].case_idx, o, &slots[o.workers], kind);
}

inline int main_(int argc, char **argv) {
    Opts o;
    for (int k = 1; k < argc; k++) {
        std::string a = argv[k];
        auto nx = [&] { return std::string(k + 1 < argc ? argv[++k] : ""); };
        if (a == "--seed") o.seed = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--cases") o.cases = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--workers") o.workers = atoi(nx().c_str());
        else if (a == "--budget") o.budget = atof(nx().c_str());
        else if (a == "--dir") o.dir = nx();
        else if (a == "--law") o.only = nx();
        else if (a == "--replay") o.replay = nx();
        else if (a == "--bytes") o.bytes = nx();
        else if (a == "--shrink") o.shrink_s = atof(nx().c_str());
        else if (a == "-v") o.verbose = true;
        else if (a == "--list") { for (auto &l: laws()) printf("%s\t%d\t%s\n", l.name.c_str(), l.weight, l.rule.c_str()); return 0; }
    }
    char *rp = realpath(o.dir.c_str(), nullptr);
    if (rp) o.dir = rp;
    if (!o.replay.empty()) {
        std::string ln; std::vector<u64> ch;
        if (!read_replay(o.replay, ln, ch)) { fprintf(stderr, "bad replay file\n"); return 3; }
        int l = law_index(ln);
        if (l < 0) { fprintf(stderr, "unknown law %s\n", ln.c_str()); return 3; }
        Slot *s = make_slots(1);
        {
            std::ifstream in(o.replay); std::stringstream ss; ss << in.rdbuf(); std::string t = ss.str();
            auto num = [&](std::string const &k) { auto p = t.find("\"" + k + "\":"); return p == std::string::npos ? 0ull : strtoull(t.c_str() + p + k.size() + 3, nullptr, 10); };
            if (num("history_workers") > 0) {
                Opts h = o; h.seed = num("seed"); h.workers = (int) num("history_workers");
                Result r; bool f = exec_history(h, num("index"), s, 120, r);
                printf("%s (history) law=%s kind=%s tag=%s\n  %s\n  case: %s\n", f ? "FAILS" : "PASSES", ln.c_str(), r.kind.c_str(), r.tag.c_str(), r.msg.c_str(), r.shown.c_str());
                return f ? 1 : 0;
            }
        }
        std::string sd = o.dir + "/scratchR"; mkdir(sd.c_str(), 0755);
        if (chdir(sd.c_str()) != 0) return 3;
        Result r;
        for (int t = 0; t < std::max(1, laws()[l].flaky_tries) && !r.failed; t++) r = exec_isolated(l, ch, s, o.dir, laws()[l].timeout_s * 2, o.verbose);
        printf("%s law=%s kind=%s tag=%s\n  %s\n  case: %s\n", r.failed ? "FAILS" : "PASSES", ln.c_str(), r.kind.c_str(), r.tag.c_str(), r.msg.c_str(), r.shown.c_str());
        return r.failed ? 1 : 0;
    }
    if (!o.bytes.empty()) {          // a libFuzzer artifact: decode into choices, shrink, report
        std::ifstream in(o.bytes, std::ios::binary);
        std::string d((std::istreambuf_iterator<char>(in)), {});
        if (d.empty()) return 0;
        auto sched = schedule(o.only);
        int l = sched[(uint8_t) d[0] % sched.size()];
        Slot *s = make_slots(2);
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
            std::string sd = o.dir + "/scratchB"; mkdir(sd.c_str(), 0755);
            if (chdir(sd.c_str()) != 0) _exit(3);
            quiet_fds(""); alarm(120);
            Ctx c(s, (const uint8_t *) d.data() + 1, d.size() - 1); run_case(laws()[l], c); _exit(0);
        }
        int st; waitpid(p, &st, 0);
        std::vector<u64> ch(s->choice, s->choice + s->n);
        return report_failure(l, ch, 0, 0, o, s + 1, "fuzz");
    }
    return run(o);
}
} // namespace pbt

#if defined(PBT_FUZZ) && !defined(PBT_NOMAIN)
extern "C" int LLVMFuzzerInitialize(int *, char ***) {
    // the library is chatty
    if (!getenv("PBT_VERBOSE")) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); std::cerr.rdbuf(nullptr); std::clog.rdbuf(nullptr); std::cout.rdbuf(nullptr); }
    return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
    static pbt::Slot *s = pbt::make_slots(1);
    static auto sched = pbt::schedule("");
    if (size < 2) return 0;
    int l = sched[data[0] % sched.size()];
    pbt::Ctx c(s, data + 1, size - 1);
    if (pbt::run_case(pbt::laws()[l], c) == pbt::FAIL) { fprintf(stderr, "PBT-FAIL %s %s\n", s->tag, s->msg); abort(); }
    return 0;
}
#elif !defined(PBT_NOMAIN)
int main(int argc, char **argv) { return pbt::main_(argc, argv); }
#endif
