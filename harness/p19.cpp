#include "pbt.hpp"
#include "ufjfmltk/core/ThreadPool.hpp"
using namespace pbt;
using Pool = mltk::ThreadPool;
struct Boom { long v; };
struct Task { std::atomic<int> runs{0}; };
static void work(unsigned w) { volatile unsigned x = 0; if (w == 1) std::this_thread::yield(); else for (unsigned i = 0; i < w * 50; i++) x = x + i; }
LAW(history, 6, "at least two threads and ten tasks", 30, 20) {
    unsigned th = (unsigned) c.wide(1, 6, 20);
    std::vector<std::unique_ptr<Task>> t;            // outlives the pool, also when an assertion unwinds
    struct Fut { std::future<long> f; long want; bool thrown; }; std::vector<Fut> fs;
    Pool pool(th);
    bool paused = false; size_t base = 0;
    c.show() << th << " threads";
    auto add = [&](unsigned w) { t.emplace_back(new Task); auto *p = t.back().get(); return [p, w] { work(w); p->runs++; }; };
    auto check_done = [&](const char *when) {
        REQUIRE(pool.get_tasks_total() == 0 && pool.get_tasks_queued() == 0 && pool.get_tasks_running() == 0, "counters", when << ": " << pool.get_tasks_total() << " tasks left after waiting");
        for (size_t i = base; i < t.size(); i++) REQUIRE(t[i]->runs == 1, "runs", when << ": task " << i << " ran " << t[i]->runs << " times");
    };
    int ops = (int) c.i(1, 9);
    while (ops-- > 0) {
        switch (c.draw(7)) {
            case 0: { size_t n = (size_t) c.wide(1, 12, 300); unsigned w = (unsigned) c.i(0, 20); c.show() << "; push " << n; for (size_t i = 0; i < n; i++) pool.push_task(add(w)); break; }
            case 1: {                                    // several producers
                size_t k = (size_t) c.i(2, 3), n = (size_t) c.wide(1, 10, 80); unsigned w = (unsigned) c.i(0, 5);
                c.show() << "; " << k << " producers push " << n << " each";
                std::vector<Task *> mine; for (size_t i = 0; i < k * n; i++) { t.emplace_back(new Task); mine.push_back(t.back().get()); }
                std::vector<std::thread> ps;
                for (size_t q = 0; q < k; q++) ps.emplace_back([&, q] { for (size_t i = 0; i < n; i++) { auto *p = mine[q * n + i]; pool.push_task([w](Task *x) { work(w); x->runs++; }, p); } });
                for (auto &p: ps) p.join();
                break;
            }
            case 2: {
                size_t n = (size_t) c.wide(1, 6, 60); c.show() << "; submit " << n;
                for (size_t i = 0; i < n; i++) {
                    long v = c.z(1000); bool thr = c.chance(30); unsigned w = (unsigned) c.i(0, 5);
                    t.emplace_back(new Task); auto *p = t.back().get();
                    fs.push_back({pool.submit([p, w](long a, bool e) -> long { work(w); p->runs++; if (e) throw Boom{a}; return a * 3; }, v, thr), thr ? v : v * 3, thr});
                }
                break;
            }
            case 3: {
                if (paused) break;
                long a = c.chance(95) ? c.z(12) : c.z(3000), b = c.chance(95) ? c.z(12) : c.z(3000); unsigned nb = (unsigned) c.wide(0, 12, 60), w = (unsigned) c.i(0, 3);
                c.show() << "; loop " << a << ".." << b << " blocks " << nb;
                long lo = std::min(a, b), hi = std::max(a, b);
                std::vector<std::atomic<int>> hit((size_t) (hi - lo) + 1); std::atomic<int> out{0};
                for (auto &h: hit) h = 0;
                pool.parallelize_loop(a, b, [&](long x, long y) { for (long i = x; i < y; i++) { work(w); if (i < lo || i >= hi) out++; else hit[(size_t) (i - lo)]++; } }, nb);
                REQUIRE(out == 0, "loop-outside", out << " indices outside " << lo << ".." << hi << " were visited");
                for (long i = lo; i < hi; i++) REQUIRE(hit[(size_t) (i - lo)] == 1, "loop", "index " << i << " of " << a << ".." << b << " was visited " << hit[(size_t) (i - lo)] << " times");
                break;
            }
            case 4: {
                paused = true; pool.paused = true; c.show() << "; pause";
                pool.wait_for_tasks();
                size_t n = (size_t) c.i(0, 5); std::vector<Task *> held;
                // a worker may have been past the pause test once; it takes at most one task each
                for (size_t i = 0; i < n + th; i++) { pool.push_task(add(0)); held.push_back(t.back().get()); }
                if (n) {
                    std::this_thread::sleep_for(std::chrono::milliseconds(3));
                    size_t ran = 0; for (auto *h: held) ran += h->runs;
                    REQUIRE(ran <= th, "pause-runs", ran << " of " << held.size() << " tasks pushed while paused were run by " << th << " threads");
                }
                break;
            }
            case 5: { if (paused) { pool.paused = false; paused = false; c.show() << "; resume"; } break; }
            case 6: {
                th = (unsigned) c.i(1, 6); c.show() << "; reset " << th;
                pool.reset(th);
                REQUIRE(pool.get_thread_count() == th, "threads", "thread count " << pool.get_thread_count() << " after reset to " << th);
                REQUIRE(pool.paused == paused, "reset-pause", "reset changed the pause state");
                break;
            }
            default: {
                if (paused) break;
                c.show() << "; wait"; pool.wait_for_tasks(); check_done("wait");
                break;
            }
        }
        for (auto &x: t) REQUIRE(x->runs <= 1, "twice", "a task ran " << x->runs << " times");
    }
    pool.paused = false;
    pool.wait_for_tasks();
    check_done("end");
    for (auto &f: fs) {
        REQUIRE(f.f.wait_for(std::chrono::seconds(5)) == std::future_status::ready, "future", "a submitted task has no outcome after waiting");
        if (f.thrown) {
            long m = -999999; try { f.f.get(); } catch (Boom &e) { m = e.v; }
            REQUIRE(m == f.want, "exception", "expected exception " << f.want << " got " << m);
        } else { long v = f.f.get(); REQUIRE(v == f.want, "value", "expected " << f.want << " got " << v); }
    }
    if (th >= 2 && t.size() >= 10) c.nontrivial();
}
LAW(loops, 3, "at least two blocks and more than three indices", 30, 20) {
    unsigned th = (unsigned) c.wide(1, 6, 20);
    Pool pool(th);
    int reps = (int) c.i(1, 5);
    while (reps-- > 0) {
        int kind = (int) c.i(0, 3); unsigned nb = (unsigned) c.i(0, 20);
        auto go = [&](auto a, auto b) {
            using T = std::common_type_t<decltype(a), decltype(b)>;
            T lo = std::min((T) a, (T) b), hi = std::max((T) a, (T) b);
            c.show() << " loop " << +a << ".." << +b << " blocks " << nb;
            std::vector<std::atomic<int>> hit((size_t) (hi - lo) + 1); std::atomic<int> out{0}, blocks{0};
            for (auto &h: hit) h = 0;
            pool.parallelize_loop(a, b, [&](T x, T y) { blocks++; for (T i = x; i < y; i++) if (i < lo || i >= hi) out++; else hit[(size_t) (i - lo)]++; }, nb);
            REQUIRE(out == 0, "loop-outside", out << " indices outside the range were visited");
            for (T i = lo; i < hi; i++) REQUIRE(hit[(size_t) (i - lo)] == 1, "loop", "index " << +i << " of " << +a << ".." << +b << " was visited " << hit[(size_t) (i - lo)] << " times");
            REQUIRE(lo == hi ? blocks == 0 : blocks >= 1, "blocks", blocks << " blocks for the range");
            if (nb > 1 && hi - lo > 3) c.nontrivial();
        };
        long x = c.chance(95) ? c.z(30) : c.z(4000), y = c.chance(95) ? c.z(30) : c.z(4000);
        if (kind == 0) go((int) x, (int) y); else if (kind == 1) go((size_t) std::labs(x), (size_t) std::labs(y));
        else if (kind == 2) go((long) x, (int) y); else go(0, (size_t) std::labs(y) * 7);
    }
}
LAW(values, 2, "at least five tasks", 30, 20) {
    std::vector<std::unique_ptr<Task>> t;
    Pool pool((unsigned) c.i(1, 6));
    size_t n = (size_t) c.wide(1, 25, 200); c.show() << n << " submissions";
    std::vector<std::future<std::string>> f; std::vector<std::future<bool>> v; std::vector<bool> thr;
    for (size_t i = 0; i < n; i++) {
        t.emplace_back(new Task); auto *p = t.back().get(); bool e = c.chance(25); thr.push_back(e);
        f.push_back(pool.submit([](size_t k, bool e) { if (e) throw (int) k; return "r" + std::to_string(k); }, i, e));
        v.push_back(pool.submit([p, e] { p->runs++; if (e) throw 7; }));
    }
    for (size_t i = 0; i < n; i++) {
        std::string got; try { got = f[i].get(); } catch (int k) { got = "e" + std::to_string(k); }
        REQUIRE(got == (thr[i] ? "e" : "r") + std::to_string(i), "value", "caller " << i << " got " << got);
        std::string g2; try { g2 = v[i].get() ? "true" : "false"; } catch (int k) { g2 = "e" + std::to_string(k); }
        REQUIRE(g2 == (thr[i] ? "e7" : "true"), "void", "caller " << i << " got " << g2);
        REQUIRE(t[i]->runs == 1, "runs", "task " << i << " ran " << t[i]->runs << " times");
    }
    pool.wait_for_tasks();
    if (n >= 5) c.nontrivial();
}
