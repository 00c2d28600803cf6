#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "mcsched.h"
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <unistd.h>
#include <errno.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <malloc.h>
#include <atomic>
#include <future>
#include <random>
#include <new>
#include <cxxabi.h>
#include <unordered_map>

// =============================================================================================
// memory functions: also called by instrumented code and by libstdc++, so they are checked as well
// =============================================================================================
namespace { void rangeAccess(const void* p, size_t n, bool write, void* pc); inline bool tracking(); }
static inline void rawcpy(void* d, const void* s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
static inline void rawset(void* d, int v, size_t n) { asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory"); }
extern "C" {
void* memcpy(void* __restrict d, const void* __restrict s, size_t n) { if (n && tracking()) { rangeAccess(s, n, false, __builtin_return_address(0)); rangeAccess(d, n, true, __builtin_return_address(0)); } rawcpy(d, s, n); return d; }
void* memmove(void* d, const void* s, size_t n) {
    if (n && tracking()) { rangeAccess(s, n, false, __builtin_return_address(0)); rangeAccess(d, n, true, __builtin_return_address(0)); }
    if ((char*)d <= (const char*)s || (char*)d >= (const char*)s + n) rawcpy(d, s, n);
    else { void* de = (char*)d + n - 1; const void* se = (const char*)s + n - 1; size_t k = n; asm volatile("std\n rep movsb\n cld" : "+D"(de), "+S"(se), "+c"(k) : : "memory"); }
    return d;
}
void* memset(void* d, int v, size_t n) { if (n && tracking()) rangeAccess(d, n, true, __builtin_return_address(0)); rawset(d, v, n); return d; }
}

namespace {
using mc::Ctx;
const int MAXT = 24;
typedef uint32_t Clk;
struct VC { Clk v[MAXT]; };
inline void vjoin(VC& a, const VC& b) { for (int i = 0; i < MAXT; i++) if (b.v[i] > a.v[i]) a.v[i] = b.v[i]; }
inline void vclear(VC& a) { for (int i = 0; i < MAXT; i++) a.v[i] = 0; }

enum St { FREE, READY, BLOCKED, DONE };
struct Thread {
    int id = 0; St st = FREE; bool detached = false, joined = false, cond_signalled = false, timed_out = false;
    VC vc, acq_pending, rel_fence;
    std::atomic<int> go{0};
    const void* wait = nullptr;       // object this thread is blocked on
    const char* what = "";            // operation about to be executed
    bool timed = false;               // the blocking operation may time out
    int ignore = 0;
    pthread_t real = 0;
    void* (*fn)(void*) = nullptr; void* arg = nullptr;
};
struct Obj { VC vc, rvc; int owner = -1, count = 0, readers = 0; uint32_t reader_mask = 0; long value = 0; int phase = 0; Obj() { vclear(vc); vclear(rvc); } };

struct Rec { uint8_t tid, mask; uint8_t write : 1, atomic : 1; Clk clk; void* pc; };
const int NREC = 6;
struct Cell { uint64_t key; uint32_t gen; int n; Rec r[NREC]; };

struct Global {
    bool active = false;
    Ctx* ctx = nullptr;
    Thread t[MAXT]; int nt = 0, live = 0, created = 1;
    int cur = 0, budget = 0, orders = 0, first = -1, split = 1; bool first_done = true, any_first = false;
    uint64_t points = 0, ops = 0, accesses = 0, same = 0, trace = 0;
    std::unordered_map<const void*, Obj> obj;
    Cell* tab = nullptr; size_t cap = 0, used = 0; uint32_t gen = 1;
};
Global G;
__thread Thread* me = nullptr;

inline bool tracking() { return me && G.live > 1 && me->ignore == 0; }
struct Quiet { Quiet() { if (me) me->ignore++; } ~Quiet() { if (me) me->ignore--; } };

long futex(std::atomic<int>* a, int op, int v) { return syscall(SYS_futex, (int*)a, op | FUTEX_PRIVATE_FLAG, v, nullptr, nullptr, 0); }
void sleepUntilGo(Thread* t) { while (true) { int spin = 0; while (t->go.load(std::memory_order_acquire) == 0 && spin++ < 20) __builtin_ia32_pause(); if (t->go.load(std::memory_order_acquire)) break; futex(&t->go, FUTEX_WAIT, 0); } t->go.store(0, std::memory_order_relaxed); }
void wake(Thread* t) { t->go.store(1, std::memory_order_release); futex(&t->go, FUTEX_WAKE, 1); }

template <typename F> F real(const char* name) { return (F)dlsym(RTLD_NEXT, name); }
#define REAL(name) ([] { static decltype(&name) f; if (!f) f = real<decltype(&name)>(#name); return f; }())

// ---- shadow memory ----
void growTable() {
    Cell* old = G.tab; size_t oc = G.cap;
    G.cap = oc ? oc * 2 : 1 << 16; G.tab = (Cell*)calloc(G.cap, sizeof(Cell)); G.used = 0;
    for (size_t i = 0; i < oc; i++) if (old[i].gen == G.gen) { size_t h = (old[i].key * 0x9E3779B97F4A7C15ull) >> 20; while (G.tab[h & (G.cap - 1)].gen == G.gen) h++; G.tab[h & (G.cap - 1)] = old[i]; G.used++; }
    free(old);
}
Cell* cell(uint64_t key, bool make) {
    size_t h = (key * 0x9E3779B97F4A7C15ull) >> 20;
    while (true) {
        Cell& c = G.tab[h & (G.cap - 1)];
        if (c.gen != G.gen) {
            if (!make) return nullptr;
            if (G.used * 2 > G.cap) { growTable(); return cell(key, make); }
            c.key = key; c.gen = G.gen; c.n = 0; G.used++; return &c;
        }
        if (c.key == key) return &c;
        h++;
    }
}
void newGeneration() { G.gen++; G.used = 0; }
char* demangle(const char* s) { int st; return abi::__cxa_demangle(s, nullptr, nullptr, &st); }
std::string where(void* pc) {
    Dl_info i; char b[64];
    if (dladdr(pc, &i) && i.dli_sname) { std::string s = i.dli_sname; char* d = demangle(i.dli_sname); if (d) s = d; free(d); if (s.size() > 160) s = s.substr(0, 160) + "..."; return s; }
    snprintf(b, sizeof b, "%p", pc); return b;
}
void race(const Rec& o, const Rec& n, uint64_t addr) {
    if (G.ctx->soft_failed()) return;
    G.ctx->soft_fail(mc::fmt("data race: thread %d %s%s in %s and thread %d %s%s in %s access the same memory without synchronisation",
        (int)o.tid, o.atomic ? "atomically " : "", o.write ? "writes" : "reads", where(o.pc).c_str(), (int)n.tid, n.atomic ? "atomically " : "", n.write ? "writes" : "reads", where(n.pc).c_str()));
}
void access1(uint64_t addr, int size, bool write, bool atomic, void* pc) {
    // within one 8-byte cell
    G.accesses++;
    uint8_t mask = (uint8_t)(((1u << size) - 1) << (addr & 7));
    Cell* c = cell(addr >> 3, true);
    Rec n; n.tid = (uint8_t)me->id; n.mask = mask; n.write = write; n.atomic = atomic; n.clk = me->vc.v[me->id]; n.pc = pc;
    int k = 0; bool keep = true;
    for (int i = 0; i < c->n; i++) {
        Rec& o = c->r[i];
        bool drop = false;
        if (o.tid == n.tid) {
            if (o.clk == n.clk && o.mask == mask && o.write == n.write && o.atomic == n.atomic) keep = false;
            // an older access of this thread is covered by the new one
            else if ((o.mask & ~mask) == 0 && (n.write || !o.write) && (!n.atomic || o.atomic)) drop = true;
        } else {
            bool ordered = o.clk <= me->vc.v[o.tid];
            if (!ordered && (o.mask & mask) && (o.write || n.write) && !(o.atomic && n.atomic)) race(o, n, addr);
            else if (ordered && (o.mask & ~mask) == 0 && n.write && !n.atomic) drop = true;
        }
        if (!drop) c->r[k++] = o;
    }
    c->n = k;
    if (!keep) return;
    if (c->n == NREC) { for (int i = 1; i < NREC; i++) c->r[i - 1] = c->r[i]; c->n--; }
    c->r[c->n++] = n;
}
void access(const void* p, size_t size, bool write, bool atomic, void* pc) {
    uint64_t a = (uint64_t)p;
    while (size) { size_t k = 8 - (a & 7); if (k > size) k = size; access1(a, (int)k, write, atomic, pc); a += k; size -= k; }
}
void rangeAccess(const void* p, size_t n, bool write, void* pc) { access(p, n, write, false, pc); }
void forget(const void* p, size_t n) {
    uint64_t a = (uint64_t)p >> 3, e = ((uint64_t)p + n + 7) >> 3;
    if (e - a > 100000) { for (size_t i = 0; i < G.cap; i++) if (G.tab[i].gen == G.gen && G.tab[i].key >= a && G.tab[i].key < e) G.tab[i].n = 0; return; }
    for (; a < e; a++) if (Cell* c = cell(a, false)) c->n = 0;
}

// ---- scheduling ----
void tick(Thread* t) { t->vc.v[t->id]++; }
void op(const char* what, const void* o) { G.ops++; G.trace = G.trace * 1099511628211ull + me->id * 31 + what[0] * 7 + what[1]; if (G.ops > 2000000) G.ctx->hard_fail("does not terminate: two million synchronisation operations"); }
int freeChoice(int n, const char* label) { if (n == 1 || G.orders <= 0) return 0; int k = G.ctx->choose(n, label); if (k) G.orders--; return k; }
void switchTo(int next) {
    if (next == me->id) return;
    Thread* self = me; Thread* n = &G.t[next];
    if (G.ctx->describing()) G.ctx->note("T%d at %s%s -> T%d at %s", self->id, self->what, self->st == BLOCKED ? " (blocked)" : self->st == DONE ? " (ended)" : "", n->id, n->what);
    G.cur = next; G.same = 0;
    wake(n);
    if (self->st == DONE) return;
    sleepUntilGo(self);
}
[[noreturn]] void deadlock() {
    std::string s = "deadlock:";
    for (int i = 0; i < G.nt; i++) if (G.t[i].st == BLOCKED) s += mc::fmt(" thread %d waits forever at %s;", i, G.t[i].what);
    G.ctx->hard_fail(s);
}
// The running thread cannot go on: somebody else has to
void reschedule() {
    Quiet q;
    int en[MAXT], n = 0;
    for (int i = 0; i < G.nt; i++) if (G.t[i].st == READY) en[n++] = i;
    if (!n) { for (int i = 0; i < G.nt; i++) if (G.t[i].st == BLOCKED && G.t[i].timed) { G.t[i].timed_out = true; G.t[i].st = READY; en[n++] = i; break; } }
    if (!n) deadlock();
    int k = freeChoice(n, "next thread");
    switchTo(en[k]);
}
// The running thread could go on; another may be scheduled instead
void pointAt(const char* what) {
    me->what = what;
    if (G.live <= 1) return;
    Quiet q;
    int en[MAXT], n = 0;
    for (int i = 0; i < G.nt; i++) if (i != me->id && G.t[i].st == READY) en[n++] = i;
    if (!n) return;
    uint64_t idx = G.points++;
    if (++G.same > 5000) { G.same = 0; switchTo(en[idx % n]); return; }        // busy waiting
    if (G.budget <= 0) return;
    if (!G.first_done) {
        if (G.first == 0 || idx < (uint64_t)(G.first - 1)) return;
        if (G.first < G.split - 1) { G.first_done = true; G.any_first = true; G.budget--; switchTo(en[n == 1 ? 0 : G.ctx->choose(n, "preempted by")]); return; }
    }
    int k = G.ctx->choose(n + 1, what);
    if (k) { G.budget--; G.any_first = true; switchTo(en[k - 1]); }
}
void yieldNow(const char* what) {
    me->what = what; if (G.live <= 1) return;
    Quiet q; int en[MAXT], n = 0;
    for (int d = 1; d < G.nt; d++) { int i = (me->id + d) % G.nt; if (G.t[i].st == READY) en[n++] = i; }
    if (!n) return;
    G.points++; op(what, nullptr);
    switchTo(en[freeChoice(n, "yields to")]);
}
void block(const void* o, const char* what, bool timed = false) {
    me->wait = o; me->what = what; me->st = BLOCKED; me->timed = timed; me->timed_out = false;
    reschedule();
    me->wait = nullptr; me->timed = false;
}
void wakeAll(const void* o) { for (int i = 0; i < G.nt; i++) if (G.t[i].st == BLOCKED && G.t[i].wait == o) G.t[i].st = READY; }
inline bool managed() { return me && G.active; }
Obj& object(const void* o) { Quiet q; return G.obj[o]; }
void acquire(const VC& v) { vjoin(me->vc, v); }
void release(VC& v) { vjoin(v, me->vc); tick(me); }

// ---- threads ----
void finish() {
    { Quiet q; op("end", me); me->st = DONE; if (me->detached) G.live--; wakeAll(me); me->what = "end"; }
    Thread* self = me;
    // nothing after this point belongs to the controlled execution
    Obj& o = object(self); release(o.vc);
    me->ignore++;
    int en[MAXT], n = 0;
    for (int i = 0; i < G.nt; i++) if (G.t[i].st == READY) en[n++] = i;
    if (!n) { for (int i = 0; i < G.nt; i++) if (G.t[i].st == BLOCKED && G.t[i].timed) { G.t[i].timed_out = true; G.t[i].st = READY; en[n++] = i; break; } }
    if (!n) deadlock();
    int k = freeChoice(n, "next thread");
    me = nullptr;
    Thread* nx = &G.t[en[k]];
    if (G.ctx->describing()) G.ctx->note("T%d ends -> T%d at %s", self->id, nx->id, nx->what);
    G.cur = en[k]; G.same = 0;
    wake(nx);
}
void* entry(void* p) {
    Thread* t = (Thread*)p;
    sleepUntilGo(t);
    me = t;
    { Quiet q; pthread_attr_t a; void* s; size_t n; if (!pthread_getattr_np(pthread_self(), &a)) { pthread_attr_getstack(&a, &s, &n); pthread_attr_destroy(&a); forget(s, n); } }
    void* r = nullptr;
    r = t->fn(t->arg);
    finish();
    return r;
}
} // namespace


// =============================================================================================
// interposed functions
// =============================================================================================
static int refuseFirst = -1, refuseCount = 0, refusedThreads = 0;
extern "C" {
int pthread_create(pthread_t* th, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    if (!managed()) return REAL(pthread_create)(th, a, fn, arg);
    Quiet q;
    // the number of a thread whose end happened before may be used again
    int id = G.nt; Clk clk = 1;
    if (G.nt >= MAXT) for (int i = 1; i < G.nt; i++) if (G.t[i].joined && me->vc.v[i] >= G.t[i].vc.v[i] - 1) { id = i; clk = G.t[i].vc.v[i] + 1; G.obj.erase(&G.t[i]); break; }
    if (id >= MAXT) G.ctx->hard_fail(mc::fmt("more than %d threads", MAXT));
    me->what = "thread creation"; op("create", nullptr);
    if (refuseFirst >= 0) { if (refuseFirst > 0) refuseFirst--; else { refusedThreads++; if (--refuseCount <= 0) refuseFirst = -1; return EAGAIN; } }
    Thread* t = &G.t[id]; t->id = id; t->st = READY; t->detached = t->joined = false; t->fn = fn; t->arg = arg; t->ignore = 0; t->what = "start"; t->go = 0; t->wait = nullptr;
    vclear(t->vc); vclear(t->acq_pending); vclear(t->rel_fence); t->vc = me->vc; tick(me); t->vc.v[t->id] = clk;
    if (a) { int d; if (!pthread_attr_getdetachstate(a, &d) && d == PTHREAD_CREATE_DETACHED) t->detached = true; }
    int r = REAL(pthread_create)(&t->real, a, entry, t);
    if (r) return r;
    if (G.live == 1) newGeneration();
    if (id == G.nt) G.nt++;
    G.live++; G.created++;
    *th = t->real;
    return 0;
}
int pthread_join(pthread_t th, void** ret) {
    if (!managed()) return REAL(pthread_join)(th, ret);
    Quiet q;
    Thread* t = nullptr;
    for (int i = 1; i < G.nt; i++) if (G.t[i].real == th && !G.t[i].joined) t = &G.t[i];
    if (!t) return ESRCH;
    op("join", t);
    while (t->st != DONE) block(t, "join");
    acquire(object(t).vc); t->joined = true; G.live--;
    if (G.live == 1) newGeneration();
    return REAL(pthread_join)(th, ret);
}
int pthread_detach(pthread_t th) {
    if (managed()) for (int i = 1; i < G.nt; i++) if (G.t[i].real == th && !G.t[i].joined) { G.t[i].detached = true; if (G.t[i].st == DONE) G.live--; }
    return REAL(pthread_detach)(th);
}
// ---- mutex ----
static bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
static int lockMutex(pthread_mutex_t* m, bool timed) {
    Quiet q; pointAt("mutex lock"); op("lock", m);
    Obj* o = &object(m);
    if (o->owner == me->id && recursive(m)) { o->count++; return 0; }
    if (o->owner == me->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
    while (o->owner != -1) { block(m, "mutex lock", timed); if (me->timed_out) return ETIMEDOUT; o = &object(m); }
    o->owner = me->id; o->count = 1; acquire(o->vc); return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) { if (!managed()) return REAL(pthread_mutex_lock)(m); return lockMutex(m, false); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { if (!managed()) return REAL(pthread_mutex_timedlock)(m, ts); return lockMutex(m, true); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) { if (!managed()) return REAL(pthread_mutex_clocklock)(m, c, ts); return lockMutex(m, true); }
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!managed()) return REAL(pthread_mutex_trylock)(m);
    Quiet q; pointAt("mutex try_lock"); op("trylock", m); Obj& o = object(m);
    if (o.owner == me->id && recursive(m)) { o.count++; return 0; }
    if (o.owner != -1) return EBUSY;
    o.owner = me->id; o.count = 1; acquire(o.vc); return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!managed()) return REAL(pthread_mutex_unlock)(m);
    Quiet q; op("unlock", m); Obj& o = object(m);
    if (o.owner != me->id) { G.ctx->soft_fail(mc::fmt("thread %d unlocks a mutex it does not hold", me->id)); return EPERM; }
    if (--o.count == 0) { o.owner = -1; release(o.vc); wakeAll(m); }
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) { if (!managed()) return REAL(pthread_mutex_destroy)(m); Quiet q; G.obj.erase(m); return 0; }
// ---- rwlock ----
static int rd(pthread_rwlock_t* l, bool tryit, bool timed) {
    Quiet q; pointAt("shared lock"); op("rdlock", l); Obj* o = &object(l);
    while (o->owner != -1) { if (tryit) return EBUSY; if (o->owner == me->id) return EDEADLK; block(l, "shared lock", timed); if (me->timed_out) return ETIMEDOUT; o = &object(l); }
    o->readers++; acquire(o->vc); return 0;
}
static int wr(pthread_rwlock_t* l, bool tryit, bool timed) {
    Quiet q; pointAt("exclusive lock"); op("wrlock", l); Obj* o = &object(l);
    while (o->owner != -1 || o->readers) { if (tryit) return EBUSY; if (o->owner == me->id) return EDEADLK; block(l, "exclusive lock", timed); if (me->timed_out) return ETIMEDOUT; o = &object(l); }
    o->owner = me->id; acquire(o->vc); acquire(o->rvc); return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { if (!managed()) return REAL(pthread_rwlock_rdlock)(l); return rd(l, false, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { if (!managed()) return REAL(pthread_rwlock_tryrdlock)(l); return rd(l, true, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { if (!managed()) return REAL(pthread_rwlock_wrlock)(l); return wr(l, false, false); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { if (!managed()) return REAL(pthread_rwlock_trywrlock)(l); return wr(l, true, false); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t* l, clockid_t c, const struct timespec* t) { if (!managed()) return REAL(pthread_rwlock_clockrdlock)(l, c, t); return rd(l, false, true); }
int pthread_rwlock_clockwrlock(pthread_rwlock_t* l, clockid_t c, const struct timespec* t) { if (!managed()) return REAL(pthread_rwlock_clockwrlock)(l, c, t); return wr(l, false, true); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    if (!managed()) return REAL(pthread_rwlock_unlock)(l);
    Quiet q; op("rwunlock", l); Obj& o = object(l);
    // A shared unlock is ordered before later exclusive locks only, not before shared ones
    if (o.owner == me->id) { o.owner = -1; release(o.vc); } else if (o.readers > 0) { o.readers--; release(o.rvc); } else { G.ctx->soft_fail("unlock of a shared mutex that is not held"); return EPERM; }
    wakeAll(l); return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t* l) { if (!managed()) return REAL(pthread_rwlock_destroy)(l); Quiet q; G.obj.erase(l); return 0; }
// ---- condition variables ----
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
    Quiet q; pointAt("condition wait"); op("wait", c);
    { Obj& o = object(m); o.owner = -1; o.count = 0; release(o.vc); wakeAll(m); }
    me->cond_signalled = false;
    block(c, "condition wait", timed);
    bool to = me->timed_out && !me->cond_signalled;
    Obj* o = &object(m);
    while (o->owner != -1) { block(m, "mutex lock after condition wait"); o = &object(m); }
    o->owner = me->id; o->count = 1; acquire(o->vc);
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!managed()) return REAL(pthread_cond_wait)(c, m); return condWait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { if (!managed()) return REAL(pthread_cond_timedwait)(c, m, t); return condWait(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) { if (!managed()) return REAL(pthread_cond_clockwait)(c, m, k, t); return condWait(c, m, true); }
int pthread_cond_signal(pthread_cond_t* c) {
    if (!managed()) return REAL(pthread_cond_signal)(c);
    Quiet q; pointAt("condition signal"); op("signal", c); int w[MAXT], n = 0;
    for (int i = 0; i < G.nt; i++) if (G.t[i].st == BLOCKED && G.t[i].wait == c) w[n++] = i;
    if (n) { int k = n == 1 ? 0 : G.ctx->choose(n, "signalled thread"); G.t[w[k]].st = READY; G.t[w[k]].cond_signalled = true; }
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!managed()) return REAL(pthread_cond_broadcast)(c);
    Quiet q; pointAt("condition broadcast"); op("broadcast", c);
    for (int i = 0; i < G.nt; i++) if (G.t[i].st == BLOCKED && G.t[i].wait == c) { G.t[i].st = READY; G.t[i].cond_signalled = true; }
    return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) { if (!managed()) return REAL(pthread_cond_destroy)(c); return 0; }
// ---- once ----
int pthread_once(pthread_once_t* ctl, void (*fn)(void)) {
    if (!managed()) return REAL(pthread_once)(ctl, fn);
    { Quiet q; pointAt("call_once"); op("once", ctl); while (object(ctl).owner != -1) block(ctl, "call_once"); if (*ctl & 2) { acquire(object(ctl).vc); return 0; } object(ctl).owner = me->id; acquire(object(ctl).vc); }
    struct Done { pthread_once_t* c; bool ok = false; ~Done() { Quiet q; Obj& o = object(c); if (ok) *c = 2; o.owner = -1; release(o.vc); wakeAll(c); } } d{ctl};
    fn(); d.ok = true;
    return 0;
}
// ---- semaphores, barriers, spin locks ----
int sem_init(sem_t* s, int p, unsigned v) { if (managed()) { Quiet q; object(s).value = v; } return REAL(sem_init)(s, p, v); }
static int semWait(sem_t* s, bool tryit, bool timed) { Quiet q; pointAt("semaphore wait"); op("semwait", s); while (object(s).value <= 0) { if (tryit) { errno = EAGAIN; return -1; } block(s, "semaphore wait", timed); if (me->timed_out) { errno = ETIMEDOUT; return -1; } } object(s).value--; acquire(object(s).vc); return 0; }
int sem_wait(sem_t* s) { if (!managed()) return REAL(sem_wait)(s); return semWait(s, false, false); }
int sem_trywait(sem_t* s) { if (!managed()) return REAL(sem_trywait)(s); return semWait(s, true, false); }
int sem_timedwait(sem_t* s, const struct timespec* t) { if (!managed()) return REAL(sem_timedwait)(s, t); return semWait(s, false, true); }
int sem_post(sem_t* s) { if (!managed()) return REAL(sem_post)(s); Quiet q; pointAt("semaphore post"); op("sempost", s); Obj& o = object(s); o.value++; release(o.vc); wakeAll(s); return 0; }
int pthread_barrier_init(pthread_barrier_t* b, const pthread_barrierattr_t* a, unsigned n) { if (managed()) { Quiet q; Obj& o = object(b); o.value = n; o.count = 0; o.phase = 0; } return REAL(pthread_barrier_init)(b, a, n); }
int pthread_barrier_wait(pthread_barrier_t* b) {
    if (!managed()) return REAL(pthread_barrier_wait)(b);
    Quiet q; pointAt("barrier"); op("barrier", b); release(object(b).vc); int ph = object(b).phase;
    if (++object(b).count == object(b).value) { object(b).count = 0; object(b).phase++; wakeAll(b); acquire(object(b).vc); return PTHREAD_BARRIER_SERIAL_THREAD; }
    while (object(b).phase == ph) block(b, "barrier");
    acquire(object(b).vc); return 0;
}
int pthread_spin_lock(pthread_spinlock_t* l) { if (!managed()) return REAL(pthread_spin_lock)(l); Quiet q; pointAt("spin lock"); op("spin", (void*)l); while (object((void*)l).owner != -1) block((void*)l, "spin lock"); object((void*)l).owner = me->id; acquire(object((void*)l).vc); return 0; }
int pthread_spin_trylock(pthread_spinlock_t* l) { if (!managed()) return REAL(pthread_spin_trylock)(l); Quiet q; pointAt("spin try_lock"); op("spin", (void*)l); if (object((void*)l).owner != -1) return EBUSY; object((void*)l).owner = me->id; acquire(object((void*)l).vc); return 0; }
int pthread_spin_unlock(pthread_spinlock_t* l) { if (!managed()) return REAL(pthread_spin_unlock)(l); Quiet q; op("spinun", (void*)l); object((void*)l).owner = -1; release(object((void*)l).vc); wakeAll((void*)l); return 0; }
// ---- waiting for time to pass ----
int sched_yield() { if (!managed()) return REAL(sched_yield)(); yieldNow("yield"); return 0; }
int nanosleep(const struct timespec* a, struct timespec* b) { if (!managed()) return REAL(nanosleep)(a, b); yieldNow("sleep"); return 0; }
int clock_nanosleep(clockid_t c, int f, const struct timespec* a, struct timespec* b) { if (!managed()) return REAL(clock_nanosleep)(c, f, a, b); yieldNow("sleep"); return 0; }
int usleep(useconds_t u) { if (!managed()) return REAL(usleep)(u); yieldNow("sleep"); return 0; }
unsigned sleep(unsigned s) { if (!managed()) return REAL(sleep)(s); yieldNow("sleep"); return 0; }
// ---- function-local statics ----
int __cxa_guard_acquire(long long* g) {
    volatile uint8_t* b = (volatile uint8_t*)g;
    if (!managed()) { if (b[0]) return 0; b[1] = 1; return 1; }
    Quiet q; pointAt("static initialisation"); op("guard", g);
    while (true) { if (b[0]) { acquire(object(g).vc); return 0; } if (!b[1]) { b[1] = 1; acquire(object(g).vc); return 1; } block(g, "static initialisation"); }
}
void __cxa_guard_release(long long* g) { volatile uint8_t* b = (volatile uint8_t*)g; b[0] = 1; b[1] = 0; if (managed()) { Quiet q; release(object(g).vc); wakeAll(g); } }
void __cxa_guard_abort(long long* g) { volatile uint8_t* b = (volatile uint8_t*)g; b[1] = 0; if (managed()) { Quiet q; release(object(g).vc); wakeAll(g); } }
// ---- random numbers repeat in every execution ----
static unsigned rnd_state = 1;
void srand(unsigned) {}
static int rnd_forced[64], rnd_n = 0, rnd_i = 0;
int rand() { if (rnd_i < rnd_n) return rnd_forced[rnd_i++]; rnd_state = rnd_state * 1103515245u + 12345u; return (int)((rnd_state >> 1) & 0x7fffffff); }
void srandom(unsigned) {}
long random() { return rand(); }
int rand_r(unsigned* s) { *s = *s * 1103515245u + 12345u; return (int)((*s >> 1) & 0x7fffffff); }
}
// futures
bool std::__atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool timed, chrono::seconds, chrono::nanoseconds) {
    if (!managed()) { while (*(volatile unsigned*)a == v) ::sched_yield(); return true; }
    Quiet q; pointAt("future wait"); op("futex", a);
    while (*(volatile unsigned*)a == v) { block(a, "future wait", timed); if (me->timed_out) return false; }
    return true;
}
bool std::__atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool timed, chrono::seconds s, chrono::nanoseconds ns) { return _M_futex_wait_until(a, v, timed, s, ns); }
void std::__atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a) { if (managed()) { Quiet q; op("notify", a); wakeAll(a); } }

// ---- heap: memory is new for whoever gets it ----
static void* allocate(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); if (me && G.live > 1) { Quiet q; forget(p, n); } return p; }
static void release_(void* p, void* pc) {
    if (!p) return;
    size_t n = malloc_usable_size(p);
    if (me && G.live > 1) { if (tracking()) rangeAccess(p, n, true, pc); Quiet q; forget(p, n); }
    if (n < 65536) rawset(p, 0xBE, n);
    free(p);
}
void* operator new(size_t n) { return allocate(n); }
void* operator new[](size_t n) { return allocate(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return allocate(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return allocate(n); }
void operator delete(void* p) noexcept { release_(p, __builtin_return_address(0)); }
void operator delete[](void* p) noexcept { release_(p, __builtin_return_address(0)); }
void operator delete(void* p, size_t) noexcept { release_(p, __builtin_return_address(0)); }
void operator delete[](void* p, size_t) noexcept { release_(p, __builtin_return_address(0)); }

// =============================================================================================
// instrumentation callbacks
// =============================================================================================
#define PC __builtin_return_address(0)
#define RW(n) \
    void __tsan_read##n(void* p) { if (tracking()) access(p, n, false, false, PC); } \
    void __tsan_write##n(void* p) { if (tracking()) access(p, n, true, false, PC); } \
    void __tsan_unaligned_read##n(void* p) { if (tracking()) access(p, n, false, false, PC); } \
    void __tsan_unaligned_write##n(void* p) { if (tracking()) access(p, n, true, false, PC); } \
    void __tsan_volatile_read##n(void* p) { if (tracking()) access(p, n, false, false, PC); } \
    void __tsan_volatile_write##n(void* p) { if (tracking()) access(p, n, true, false, PC); }
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void* v) { if (tracking() && *p != v) access(p, 8, true, false, PC); }
void __tsan_vptr_read(void** p) { if (tracking()) access(p, 8, false, false, PC); }
void __tsan_read_range(void* p, size_t n) { if (tracking()) access(p, n, false, false, PC); }
void __tsan_write_range(void* p, size_t n) { if (tracking()) access(p, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
}
namespace {
inline bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
void beforeAtomic(const void* p, size_t n, bool write, const char* what, void* pc) {
    if (!managed() || me->ignore) return;
    if (G.live > 1) { access(p, n, write, true, pc); pointAt(what); }
    Quiet q; op(what, p);
}
void afterLoad(const void* p, int mo) { if (!managed() || me->ignore) return; Quiet q; auto it = G.obj.find(p); if (it == G.obj.end()) return; if (acq(mo)) acquire(it->second.vc); else vjoin(me->acq_pending, it->second.vc); }
void beforeStore(const void* p, int mo) { if (!managed() || me->ignore) return; Quiet q; Obj& o = object(p); if (rel(mo)) { o.vc = me->vc; tick(me); } else o.vc = me->rel_fence; }
void rmw(const void* p, int mo) { if (!managed() || me->ignore) return; Quiet q; Obj& o = object(p); if (acq(mo)) acquire(o.vc); else vjoin(me->acq_pending, o.vc); if (rel(mo)) release(o.vc); else vjoin(o.vc, me->rel_fence); }
}
#define ATOMIC(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* p, int mo) { beforeAtomic((void*)p, sizeof(T), false, "atomic load", PC); afterLoad((void*)p, mo); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { beforeAtomic((void*)p, sizeof(T), true, "atomic store", PC); beforeStore((void*)p, mo); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { beforeAtomic((void*)p, sizeof(T), true, "atomic exchange", PC); rmw((void*)p, mo); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { beforeAtomic((void*)p, sizeof(T), true, "atomic add", PC); rmw((void*)p, mo); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { beforeAtomic((void*)p, sizeof(T), true, "atomic sub", PC); rmw((void*)p, mo); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { beforeAtomic((void*)p, sizeof(T), true, "atomic and", PC); rmw((void*)p, mo); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) { beforeAtomic((void*)p, sizeof(T), true, "atomic or", PC); rmw((void*)p, mo); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { beforeAtomic((void*)p, sizeof(T), true, "atomic xor", PC); rmw((void*)p, mo); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo) { beforeAtomic((void*)p, sizeof(T), true, "atomic nand", PC); rmw((void*)p, mo); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T d, int mo, int fmo) { beforeAtomic((void*)p, sizeof(T), true, "atomic compare-exchange", PC); bool ok = __atomic_load_n(p, __ATOMIC_SEQ_CST) == *e; if (ok) rmw((void*)p, mo); else afterLoad((void*)p, fmo); return __atomic_compare_exchange_n(p, e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T d, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(p, e, d, mo, fmo); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T d, int mo, int fmo) { T x = e; __tsan_atomic##bits##_compare_exchange_strong(p, &x, d, mo, fmo); return x; }
extern "C" {
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { if (!managed()) return; if (acq(mo)) vjoin(me->vc, me->acq_pending); if (rel(mo)) { me->rel_fence = me->vc; tick(me); } }
void __tsan_atomic_signal_fence(int) {}
}

// =============================================================================================
namespace mc { namespace sched {
void run(Ctx& c, const Options& o, const std::function<void()>& body) {
    if (!G.tab) growTable();
    int first = 0, split = o.preemptions > 0 ? o.split : 1;
    // position of the first preemption: 0 none, i at point i-1, last at a later point
    if (split > 1) { first = c.choose(split, "first preemption"); c.shard_point(); }
    for (int i = 0; i < MAXT; i++) { G.t[i].st = FREE; G.t[i].joined = false; G.t[i].real = 0; }
    G.obj.clear(); newGeneration();
    G.ctx = &c; G.nt = 1; G.live = 1; G.created = 1; G.cur = 0; G.budget = o.preemptions; G.orders = o.orders; G.points = G.ops = G.accesses = G.same = G.trace = 0;
    G.first = first; G.split = split; G.first_done = split <= 1; G.any_first = false;
    Thread* t = &G.t[0]; t->id = 0; t->st = READY; t->ignore = 0; t->what = "main"; vclear(t->vc); vclear(t->acq_pending); vclear(t->rel_fence); t->vc.v[0] = 1; t->go = 0;
    me = t; G.active = true;
    struct End { ~End() { G.active = false; me = nullptr; } } end;
    body();
    // threads that were not joined run to their end
    { Quiet q; for (int i = 1; i < G.nt; i++) while (G.t[i].st != DONE) block(&G.t[i], "end of the run"); }
    c.step(G.ops);
    if (split > 1 && first && !G.any_first && !c.soft_failed()) c.discard();
    if (c.soft_failed()) c.fail(c.soft_msg());
}
void point(const char* what) { if (managed()) { Quiet q; pointAt(what); op(what, nullptr); } }
int self() { return me ? me->id : 0; }
int threads() { return G.created; }
uint64_t points() { return G.points; }
uint64_t operations() { return G.ops; }
uint64_t accesses() { return G.accesses; }
uint64_t trace() { return G.trace; }
void seed(unsigned s) { rnd_state = s; rnd_n = rnd_i = 0; }
void refuse(int first, int count) { refuseFirst = first; refuseCount = count; refusedThreads = 0; }
int refused() { return refusedThreads; }
void rands(const std::vector<int>& v) { rnd_i = rnd_n = 0; for (int x : v) if (rnd_n < 64) rnd_forced[rnd_n++] = x; }
Ignore::Ignore() { if (me) me->ignore++; }
Ignore::~Ignore() { if (me) me->ignore--; }
} }
