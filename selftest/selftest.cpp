// Scenarios with known answers for the explorer and the scheduler. One per process: SELFTEST=<name>.
#include "mc.h"
#include "mcsched.h"
#include <thread>
#include <mutex>
#include <atomic>
#include <future>
#include <condition_variable>
#include <shared_mutex>
#include <cstdlib>
using namespace mc;
static int P = 1 << 20;    // preemption bound

typedef std::vector<std::function<void()>> Fns;
static void par(Ctx& c, const Fns& f, const std::function<void()>& after = nullptr) {
    sched::Options o; o.preemptions = P;
    c.shard_point();
    sched::run(c, o, [&] {
        std::vector<std::thread> t;
        for (auto& x : f) t.emplace_back(x);
        for (auto& x : t) x.join();
        if (after) after();
    });
    c.step(sched::operations());
}
// every interleaving of two threads that do n atomic operations each: the order is the state
static void orders(Ctx& c, int threads, int n) {
    std::vector<std::atomic<int>> a(threads); std::string log;
    Fns f;
    for (int t = 0; t < threads; t++) f.push_back([&, t] { for (int i = 0; i < n; i++) { a[t].fetch_add(1); sched::Ignore g; log += char('a' + t); } });
    par(c, f);
    c.state(Hash().s(log));
}
static void lost_update(Ctx& c) {
    std::atomic<int> x{0};
    par(c, {[&] { x.store(x.load() + 1); }, [&] { x.store(x.load() + 1); }});
    c.state(x.load());
}
static void store_buffer(Ctx& c) {
    std::atomic<int> x{0}, y{0}; int a = 9, b = 9;
    par(c, {[&] { x.store(1); a = y.load(); }, [&] { y.store(1); b = x.load(); }});
    c.state(a * 10 + b);
}
static void race(Ctx& c) { int x = 0; par(c, {[&] { x++; }, [&] { x++; }}); c.state(x); }
static void race_rw(Ctx& c) { int x = 0, y = 0; std::atomic<int> k{0}; par(c, {[&] { x = 1; k.store(1, std::memory_order_relaxed); }, [&] { if (k.load(std::memory_order_relaxed)) y = x; }}); c.state(y); }
static void publish(Ctx& c) { int x = 0, y = -1; std::atomic<int> k{0}; par(c, {[&] { x = 1; k.store(1, std::memory_order_release); }, [&] { if (k.load(std::memory_order_acquire)) y = x; }}); c.state(y + 1); }
static void locked(Ctx& c) { int x = 0; std::mutex m; par(c, {[&] { std::lock_guard<std::mutex> l(m); x++; }, [&] { std::lock_guard<std::mutex> l(m); x++; }, [&] { std::lock_guard<std::mutex> l(m); x *= 3; }}); c.state(x); }
static void race_freed(Ctx& c) { int* p = new int(0); std::atomic<int> k{0}; par(c, {[&] { *p = 1; }, [&] { delete p; }}); c.state(0); }
static void deadlock(Ctx& c) { std::mutex a, b; par(c, {[&] { std::lock_guard<std::mutex> l(a); std::lock_guard<std::mutex> k(b); }, [&] { std::lock_guard<std::mutex> l(b); std::lock_guard<std::mutex> k(a); }}); }
static void ordered(Ctx& c) { std::mutex a, b; par(c, {[&] { std::lock_guard<std::mutex> l(a); std::lock_guard<std::mutex> k(b); }, [&] { std::lock_guard<std::mutex> l(a); std::lock_guard<std::mutex> k(b); }}); c.state(0); }
static void missed_signal(Ctx& c) { std::mutex m; std::condition_variable v; std::atomic<bool> ready{false};
    par(c, {[&] { std::unique_lock<std::mutex> l(m); if (!ready) v.wait(l); }, [&] { ready = true; v.notify_one(); }}); }
static void signal(Ctx& c) { std::mutex m; std::condition_variable v; bool ready = false; int x = 0;
    par(c, {[&] { std::unique_lock<std::mutex> l(m); v.wait(l, [&] { return ready; }); x++; }, [&] { { std::lock_guard<std::mutex> l(m); ready = true; x = 5; } v.notify_one(); }}); c.require(x == 6, "x is %d", x); c.state(x); }
static void future(Ctx& c) { int x = 0; c.shard_point(); sched::Options o; o.preemptions = P; sched::run(c, o, [&] { auto f = std::async(std::launch::async, [&] { x = 3; return 4; }); int r = f.get(); c.require(r + x == 7, "sum %d", r + x); }); c.state(x); }
static void two(Ctx& c) { // an order that needs exactly two preemptions
    std::atomic<int> s{0}; 
    par(c, {[&] { int a = s.load(); s.store(a + 1); if (s.load() == 3) s.store(100); }, [&] { int v = s.load(); if (v == 1) { s.store(3); if (s.load() == 100) s.store(200); } }});
    c.require(s.load() != 200, "reached"); }
static void rwlock(Ctx& c) { std::shared_mutex m; int x = 0; par(c, {[&] { std::unique_lock<std::shared_mutex> l(m); x++; }, [&] { std::shared_lock<std::shared_mutex> l(m); volatile int y = x; (void)y; }, [&] { std::shared_lock<std::shared_mutex> l(m); volatile int y = x; (void)y; }}); c.state(x); }
static void rwlock_bad(Ctx& c) { std::shared_mutex m; int x = 0; par(c, {[&] { std::shared_lock<std::shared_mutex> l(m); x++; }, [&] { std::shared_lock<std::shared_mutex> l(m); x++; }}); c.state(x); }
static void staticinit(Ctx& c) { par(c, {[&] { static int* p = new int(3); c.require(*p == 3, "value"); }, [&] { static int* p = new int(4); c.require(*p == 4, "value"); }}); c.state(0); }
static void livelock(Ctx& c) { std::atomic<int> a{0}; par(c, {[&] { while (!a.load()) std::this_thread::yield(); }}); }
static void spin(Ctx& c) { std::atomic<int> a{0}; par(c, {[&] { while (!a.load()) std::this_thread::yield(); }, [&] { a = 1; }}); c.state(0); }
// explorer: 3 * 4 * (1 + 2 + 3) paths
static void tree(Ctx& c) { int a = c.choose(3); int b = c.choose(4); c.shard_point(); int k = c.choose(3); int d = c.choose(k + 1); c.state(((a * 10 + b) * 10 + k) * 10 + d); c.step(); }
static void needle(Ctx& c) { c.shard_point(); int s = 0; for (int i = 0; i < 12; i++) s = s * 2 + c.choose(2); c.require(s != 2741, "found"); }
static void crash(Ctx& c) { c.shard_point(); int a = c.choose(50); if (a == 37) *(volatile int*)8 = 1; }
static void hang(Ctx& c) { c.shard_point(); int a = c.choose(4); volatile int x = 0; if (a == 3) while (true) x = x + 1; }

int main(int argc, char** argv) {
    std::string s = getenv("SELFTEST") ? getenv("SELFTEST") : "";
    if (getenv("SELFTEST_P")) P = atoi(getenv("SELFTEST_P"));
    std::map<std::string, Scenario> m = {
        {"orders2x3", [](Ctx& c) { orders(c, 2, 3); }}, {"orders2x4", [](Ctx& c) { orders(c, 2, 4); }}, {"orders3x2", [](Ctx& c) { orders(c, 3, 2); }},
        {"lost_update", lost_update}, {"store_buffer", store_buffer}, {"race", race}, {"race_rw", race_rw}, {"publish", publish}, {"locked", locked}, {"race_freed", race_freed},
        {"deadlock", deadlock}, {"ordered", ordered}, {"missed_signal", missed_signal}, {"signal", signal}, {"future", future}, {"two", two}, {"rwlock", rwlock}, {"rwlock_bad", rwlock_bad},
        {"staticinit", staticinit}, {"livelock", livelock}, {"spin", spin}, {"tree", tree}, {"needle", needle}, {"crash", crash}, {"hang", hang}};
    if (!m.count(s)) { fprintf(stderr, "no such scenario\n"); return 2; }
    return mc::run(argc, argv, "SELF", {{s, m[s]}}, "self test");
}
