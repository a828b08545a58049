#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sched.hpp"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <exception>
#include <linux/futex.h>
#include <malloc.h>
#include <map>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <string.h>
#include <string>
#include <sys/syscall.h>
#include <unistd.h>
#include <unordered_map>

namespace {
const int MAXT = 64;
typedef uint64_t u64;

struct VC {
    uint32_t c[MAXT];
    void clear() { memset(c, 0, sizeof c); }
    void join(const VC& o, int n)
    {
        for (int i = 0; i < n; ++i)
            if (o.c[i] > c[i])
                c[i] = o.c[i];
    }
};

struct Gate { // hand-over semaphore
    std::atomic<int> v{ 0 };
    void post()
    {
        v.store(1, std::memory_order_release);
        syscall(SYS_futex, (int*)&v, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
    }
    void wait()
    {
        while (!v.exchange(0, std::memory_order_acquire))
            syscall(SYS_futex, (int*)&v, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    }
};

enum St { UNUSED, RUN, W_MUTEX, W_COND, W_JOIN, W_FUTEX, W_ONCE, DONE };
struct Th {
    int id = 0;
    Gate gate;
    St st = UNUSED;
    void* obj = nullptr; // what it waits for
    void* obj2 = nullptr; // the mutex to take back after a condition variable
    unsigned val = 0;
    bool notified = false, timed = false, timedOut = false;
    int target = -1;
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    VC vc;
    bool started = false;
    uintptr_t lo = 0, hi = 0;
};

struct Cell {
    u64 key = 0;
    uint32_t gen = 0;
    uint8_t freed = 0;
    uint8_t nr = 0, nw = 0;
    struct A {
        uint32_t clk;
        uint8_t tid, mask;
        const void* pc;
    } w[2], r[4];
};

struct Exec {
    std::vector<Th*> th;
    int n = 0; // threads of this schedule
    int cur = -1;
    Gate ctrl;
    std::unordered_map<void*, int> owner;
    std::unordered_map<void*, VC> sync;
    std::unordered_map<void*, int> once;
    std::string failure;
    bool dead = false; // threads of this schedule are stuck
    // decisions
    struct D {
        int choice, count;
        std::vector<int> cost;
    };
    std::vector<D> path;
    size_t pos = 0;
    int spent = 0, spur = 0;
    u64 steps = 0;
    sched::Options opt;
    std::vector<void*> quarantine;
    std::function<void()> body;
    bool nondet = false;
};

Exec* E = nullptr;
thread_local Th* me __attribute__((tls_model("initial-exec"))) = nullptr;
thread_local int off __attribute__((tls_model("initial-exec"))) = 0; // inside the runtime

struct Off {
    Off() { ++off; }
    ~Off() { --off; }
};
inline bool on() { return me && !off; }

// ------------------------------------------------------------------ shadow memory
const u64 CELLS = 1 << 19;
Cell* cells = nullptr;
uint32_t gen = 1;
u64 used = 0;
bool racesOn = true;
Cell* cell(u64 key)
{
    u64 h = (key * 0x9e3779b97f4a7c15ULL) >> 45;
    for (;; h = (h + 1) & (CELLS - 1)) {
        Cell& c = cells[h];
        if (c.gen != gen) {
            if (used > CELLS - CELLS / 8)
                return nullptr;
            ++used;
            c.gen = gen;
            c.key = key;
            c.freed = c.nr = c.nw = 0;
            return &c;
        }
        if (c.key == key)
            return &c;
    }
}
std::string where(const void* pc)
{
    Dl_info di;
    char b[256];
    if (dladdr(pc, &di) && di.dli_fname) {
        if (di.dli_sname) {
            int s = 0;
            char* d = abi::__cxa_demangle(di.dli_sname, 0, 0, &s);
            snprintf(b, sizeof b, "%.60s+0x%lx [0x%lx]", d ? d : di.dli_sname, (long)((char*)pc - (char*)di.dli_saddr), (long)((char*)pc - (char*)di.dli_fbase));
            free(d);
        } else
            snprintf(b, sizeof b, "[0x%lx]", (long)((char*)pc - (char*)di.dli_fbase));
        return b;
    }
    snprintf(b, sizeof b, "%p", pc);
    return b;
}
void fail(const std::string& s)
{
    if (E && E->failure.empty())
        E->failure = s;
}
void race(const char* what, const void* pc, int t2, const char* what2, const void* pc2)
{
    if (!E->failure.empty())
        return;
    char b[64];
    snprintf(b, sizeof b, "data race: %s by thread %d at ", what, me->id);
    std::string s = b + where(pc);
    snprintf(b, sizeof b, ", %s by thread %d at ", what2, t2);
    fail(s + b + where(pc2));
}
void access1(u64 key, uint8_t mask, bool wr, const void* pc)
{
    Cell* c = cell(key);
    if (!c)
        return;
    const int t = me->id;
    const uint32_t clk = me->vc.c[t];
    if (c->freed) {
        fail(std::string(wr ? "write to" : "read of") + " freed memory at " + where(pc));
        return;
    }
    for (int i = 0; i < c->nw; ++i) {
        Cell::A& a = c->w[i];
        if (a.tid == t && a.clk == clk && (a.mask & mask) == mask && wr)
            return;
        if (a.tid != t && (a.mask & mask) && a.clk > me->vc.c[a.tid])
            return race(wr ? "write" : "read", pc, a.tid, "write", a.pc);
    }
    if (wr) {
        for (int i = 0; i < c->nr; ++i) {
            Cell::A& a = c->r[i];
            if (a.tid != t && (a.mask & mask) && a.clk > me->vc.c[a.tid])
                return race("write", pc, a.tid, "read", a.pc);
        }
        c->nr = 0;
        int k = -1;
        for (int i = 0; i < c->nw && k < 0; ++i)
            if ((c->w[i].mask & mask) == c->w[i].mask)
                k = i;
        if (k < 0)
            k = c->nw < 2 ? c->nw++ : 0;
        c->w[k] = { clk, (uint8_t)t, mask, pc };
    } else {
        for (int i = 0; i < c->nr; ++i)
            if (c->r[i].tid == t) {
                if (c->r[i].clk == clk)
                    c->r[i].mask |= mask;
                else
                    c->r[i] = { clk, (uint8_t)t, mask, pc };
                return;
            }
        int k = c->nr < 4 ? c->nr++ : 0;
        c->r[k] = { clk, (uint8_t)t, mask, pc };
    }
}
inline void access(const void* p, size_t n, bool wr, const void* pc)
{
    if (!on() || !racesOn || !n)
        return;
    if (E->n < 2 && E->n) {
        // nobody else exists yet: creation orders this before everything the others do
        return;
    }
    Off o;
    u64 a = (u64)p, e = a + n;
    for (u64 k = a >> 3; (k << 3) < e; ++k) {
        uint8_t m = 0xff;
        if ((k << 3) < a)
            m &= 0xff << (a & 7);
        if ((k << 3) + 8 > e)
            m &= 0xff >> ((k << 3) + 8 - e);
        access1(k, m, wr, pc);
    }
}

// ------------------------------------------------------------------ scheduling
bool enabled(Th* t, bool& spurious)
{
    spurious = false;
    switch (t->st) {
    case RUN:
        return true;
    case W_MUTEX: {
        auto it = E->owner.find(t->obj);
        return it == E->owner.end() || it->second < 0;
    }
    case W_COND:
        if (t->timed)
            return true;
        if (E->spur < E->opt.spurious) {
            auto it = E->owner.find(t->obj2);
            if (it == E->owner.end() || it->second < 0) {
                spurious = true;
                return true;
            }
        }
        return false;
    case W_JOIN:
        return E->th[t->target]->st == DONE;
    case W_FUTEX:
        return *(volatile unsigned*)t->obj != t->val || t->notified;
    case W_ONCE:
        return E->once[t->obj] != 1;
    default:
        return false;
    }
}
void die() // this thread will never go on
{
    E->dead = true;
    E->ctrl.post();
    for (;;)
        pause();
}
// the running thread stops here in state me->st; somebody (perhaps itself) goes on
void point(bool ending = false)
{
    Off o;
    Exec& X = *E;
    if (++X.steps > 400000) {
        fail("livelock: the schedule does not end");
        die();
    }
    int opt[MAXT], n = 0;
    bool sp[MAXT];
    bool s;
    const bool mine = !ending && enabled(me, s) && !s;
    if (mine) {
        sp[n] = false;
        opt[n++] = me->id;
    }
    for (int k = 1; k <= X.n; ++k) {
        int i = (me->id + k) % X.n;
        if (i == me->id && (mine || ending))
            continue;
        if (X.th[i]->st != UNUSED && X.th[i]->st != DONE && enabled(X.th[i], s) && !s) {
            sp[n] = false;
            opt[n++] = i;
        }
    }
    const int plain = n;
    for (int i = 0; i < X.n; ++i)
        if (X.th[i]->st == W_COND && enabled(X.th[i], s) && s) {
            sp[n] = true;
            opt[n++] = i;
        }
    int pick = 0;
    if (plain == 0 && n) {
        // only spurious wake-ups could help: that is a deadlock all the same
        n = 0;
    }
    if (!n) {
        bool all = true;
        for (int i = 0; i < X.n; ++i)
            all = all && X.th[i]->st == DONE;
        if (!all) {
            std::string w = "deadlock:";
            for (int i = 0; i < X.n; ++i) {
                static const char* nm[] = { "?", "runs", "waits for a mutex", "waits for a condition", "waits for a thread to end", "waits for a future", "waits for an initialisation", "ended" };
                w += " thread " + std::to_string(i) + " " + nm[X.th[i]->st] + (i + 1 < X.n ? "," : "");
            }
            fail(w);
            X.dead = true;
        }
        X.ctrl.post();
        if (!ending)
            for (;;)
                pause();
        return;
    }
    if (n > 1) {
        if (X.pos < X.path.size()) {
            Exec::D& d = X.path[X.pos];
            if (d.count != n)
                X.nondet = true;
            pick = std::min(d.choice, n - 1);
            X.spent += d.choice < (int)d.cost.size() ? d.cost[pick] : 0;
        } else {
            Exec::D d;
            d.choice = 0;
            d.count = n;
            for (int i = 0; i < n; ++i)
                d.cost.push_back(sp[i] ? 1 : i == 0 ? 0 : (mine || X.opt.delays) ? 1 : 0);
            X.path.push_back(d);
        }
        ++X.pos;
    }
    Th* t = X.th[opt[pick]];
    if (sp[pick])
        ++X.spur;
    // what the chosen one waited for is granted now
    switch (t->st) {
    case W_MUTEX:
        X.owner[t->obj] = t->id;
        t->vc.join(X.sync[t->obj], X.n);
        break;
    case W_COND: // spurious wake-up or time-out: takes the mutex back
        if (t->timed)
            t->timedOut = true;
        if (X.owner.count(t->obj2) && X.owner[t->obj2] >= 0) {
            t->st = W_MUTEX;
            t->obj = t->obj2;
            t = nullptr;
        } else {
            X.owner[t->obj2] = t->id;
            t->vc.join(X.sync[t->obj2], X.n);
        }
        break;
    case W_JOIN:
        t->vc.join(X.th[t->target]->vc, X.n);
        break;
    case W_FUTEX:
        t->vc.join(X.sync[t->obj], X.n);
        break;
    default:
        break;
    }
    if (!t)
        return point(ending);
    t->st = RUN;
    t->notified = false;
    if (t == me)
        return;
    X.cur = t->id;
    t->gate.post();
    if (!ending)
        me->gate.wait();
}
void release(void* obj)
{
    VC& v = E->sync[obj];
    v.join(me->vc, E->n);
    ++me->vc.c[me->id];
}
void acquire(void* obj) { me->vc.join(E->sync[obj], E->n); }

void* poolMain(void* p)
{
    Th* t = (Th*)p;
    for (;;) {
        t->gate.wait();
        me = t;
        if (t->id == 0) {
            try {
                E->body();
            } catch (const std::exception& e) {
                Off o;
                fail(std::string("exception: ") + e.what());
            } catch (...) {
                Off o;
                fail("exception");
            }
        } else
            t->fn(t->arg);
        {
            Off o;
            t->st = DONE;
            ++t->vc.c[t->id];
        }
        point(true);
        me = nullptr;
    }
    return nullptr;
}
template <class F> F real(const char* n)
{
    void* p = dlsym(RTLD_NEXT, n);
    return (F)p;
}
#define REAL(ret, name, ...)                                                                                           \
    static ret (*r)(__VA_ARGS__) = nullptr;                                                                            \
    if (!r)                                                                                                            \
    r = real<ret (*)(__VA_ARGS__)>(#name)

int realCreate(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* x)
{
    REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
    return r(t, a, f, x);
}
Th* newThread(Exec& X)
{
    if (X.n >= MAXT) {
        fail("more than 64 threads in one schedule");
        die();
    }
    if ((int)X.th.size() == X.n) {
        Th* t = new Th;
        t->id = X.n;
        X.th.push_back(t);
        pthread_t p;
        pthread_attr_t a;
        pthread_attr_init(&a);
        pthread_attr_setstacksize(&a, 1 << 20);
        if (realCreate(&p, &a, poolMain, t))
            abort();
        pthread_attr_destroy(&a);
    }
    Th* t = X.th[X.n++];
    t->st = RUN;
    t->vc.clear();
    t->vc.c[t->id] = 1;
    t->notified = t->timed = t->timedOut = false;
    return t;
}
const u64 MAGIC = 0x5c4ed000000000ULL;
} // namespace

// ------------------------------------------------------------------ interposed synchronisation
extern "C" {
int pthread_create(pthread_t* pt, const pthread_attr_t* at, void* (*fn)(void*), void* arg)
{
    if (!on())
        return realCreate(pt, at, fn, arg);
    {
        Off o;
        Th* t = newThread(*E);
        t->fn = fn;
        t->arg = arg;
        t->vc.join(me->vc, E->n);
        ++me->vc.c[me->id];
        *pt = (pthread_t)(MAGIC | t->id);
    }
    point();
    return 0;
}
int pthread_join(pthread_t pt, void** ret)
{
    if (!on() || ((u64)pt & ~63ULL) != MAGIC) {
        REAL(int, pthread_join, pthread_t, void**);
        return r(pt, ret);
    }
    me->st = W_JOIN;
    me->target = (int)((u64)pt & 63);
    point();
    return 0;
}
int pthread_detach(pthread_t pt)
{
    if (((u64)pt & ~63ULL) == MAGIC)
        return 0;
    REAL(int, pthread_detach, pthread_t);
    return r(pt);
}
int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!on()) {
        REAL(int, pthread_mutex_lock, pthread_mutex_t*);
        return r ? r(m) : 0;
    }
    {
        Off o;
        auto it = E->owner.find(m);
        if (it != E->owner.end() && it->second == me->id) {
            fail("a thread locks a mutex it already holds");
        }
    }
    me->st = W_MUTEX;
    me->obj = m;
    point();
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!on()) {
        REAL(int, pthread_mutex_trylock, pthread_mutex_t*);
        return r(m);
    }
    point();
    Off o;
    auto it = E->owner.find(m);
    if (it != E->owner.end() && it->second >= 0)
        return EBUSY;
    E->owner[m] = me->id;
    acquire(m);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!on()) {
        REAL(int, pthread_mutex_unlock, pthread_mutex_t*);
        return r ? r(m) : 0;
    }
    {
        Off o;
        auto it = E->owner.find(m);
        if (it == E->owner.end() || it->second != me->id)
            fail("a thread unlocks a mutex it does not hold");
        E->owner[m] = -1;
        release(m);
    }
    point();
    return 0;
}
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed)
{
    {
        Off o;
        auto it = E->owner.find(m);
        if (it == E->owner.end() || it->second != me->id)
            fail("a thread waits for a condition without holding its mutex");
        E->owner[m] = -1;
        release(m);
        me->st = W_COND;
        me->obj = c;
        me->obj2 = m;
        me->timed = timed;
        me->timedOut = false;
    }
    point();
    me->timed = false;
    return me->timedOut ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (!on()) {
        REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*);
        return r(c, m);
    }
    return condWait(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t)
{
    if (!on()) {
        REAL(int, pthread_cond_timedwait, pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
        return r(c, m, t);
    }
    return condWait(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t)
{
    if (!on()) {
        REAL(int, pthread_cond_clockwait, pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
        return r(c, m, k, t);
    }
    return condWait(c, m, true);
}
static void wake(pthread_cond_t* c, bool all)
{
    {
        Off o;
        for (int i = 0; i < E->n; ++i) {
            Th* t = E->th[i];
            if (t->st == W_COND && t->obj == c) {
                t->st = W_MUTEX;
                t->obj = t->obj2;
                t->timed = false;
                if (!all)
                    break;
            }
        }
    }
    point();
}
int pthread_cond_signal(pthread_cond_t* c)
{
    if (!on()) {
        REAL(int, pthread_cond_signal, pthread_cond_t*);
        return r(c);
    }
    wake(c, false);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    if (!on()) {
        REAL(int, pthread_cond_broadcast, pthread_cond_t*);
        return r(c);
    }
    wake(c, true);
    return 0;
}
int pthread_once(pthread_once_t* ctl, void (*fn)(void))
{
    if (!on()) {
        REAL(int, pthread_once, pthread_once_t*, void (*)(void));
        return r(ctl, fn);
    }
    {
        Off o;
        if (*(int*)ctl == 2) {
            acquire(ctl);
            return 0;
        }
    }
    for (;;) {
        Off o;
        if (*(int*)ctl == 2) {
            acquire(ctl);
            return 0;
        }
        if (E->once[ctl] != 1) {
            E->once[ctl] = 1;
            break;
        }
        me->st = W_ONCE;
        me->obj = ctl;
        point();
    }
    try {
        fn();
    } catch (...) {
        Off o;
        E->once[ctl] = 0;
        throw;
    }
    {
        Off o;
        *(int*)ctl = 2;
        E->once[ctl] = 2;
        release(ctl);
    }
    point();
    return 0;
}
int __cxa_guard_acquire(u64* g)
{
    if (!on()) {
        REAL(int, __cxa_guard_acquire, u64*);
        return r(g);
    }
    for (;;) {
        Off o;
        if (*(volatile char*)g) {
            acquire(g);
            return 0;
        }
        if (E->once[g] != 1) {
            E->once[g] = 1;
            return 1;
        }
        me->st = W_ONCE;
        me->obj = g;
        point();
    }
}
void __cxa_guard_release(u64* g)
{
    if (!on()) {
        REAL(void, __cxa_guard_release, u64*);
        return r(g);
    }
    Off o;
    *(char*)g = 1;
    E->once[g] = 2;
    release(g);
}
void __cxa_guard_abort(u64* g)
{
    if (!on()) {
        REAL(void, __cxa_guard_abort, u64*);
        return r(g);
    }
    Off o;
    E->once[g] = 0;
}
int sched_yield()
{
    if (on())
        point();
    return 0;
}
}
// std::future's own waiting
bool futexWait(void*, unsigned* a, unsigned v, bool hasTimeout, long, long) asm(
    "_ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE");
bool futexWait(void*, unsigned* a, unsigned v, bool hasTimeout, long, long)
{
    if (!on()) {
        while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == v)
            usleep(100);
        return true;
    }
    if (hasTimeout) {
        point();
        return __atomic_load_n(a, __ATOMIC_ACQUIRE) != v;
    }
    me->st = W_FUTEX;
    me->obj = a;
    me->val = v;
    point();
    return true;
}
void futexWake(unsigned* a) asm("_ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj");
void futexWake(unsigned* a)
{
    if (!on())
        return;
    {
        Off o;
        release(a);
        for (int i = 0; i < E->n; ++i)
            if (E->th[i]->st == W_FUTEX && E->th[i]->obj == a)
                E->th[i]->notified = true;
    }
    point();
}

// ------------------------------------------------------------------ memory
extern "C" void __real_free(void*);
extern "C" void* __real_memcpy(void*, const void*, size_t);
extern "C" void* __real_memmove(void*, const void*, size_t);
extern "C" void* __real_memset(void*, int, size_t);
static void freed(void* p, const void* pc)
{
    if (!p)
        return;
    if (!on()) {
        __real_free(p);
        return;
    }
    size_t n = malloc_usable_size(p);
    if (n > 65536)
        n = 65536;
    if (racesOn && E->n >= 2) {
        access(p, n, true, pc);
        Off o;
        for (u64 k = (u64)p >> 3; (k << 3) < (u64)p + n; ++k)
            if (Cell* c = cell(k))
                c->freed = 1;
    }
    Off o;
    E->quarantine.push_back(p);
}
static void* alloc(size_t n)
{
    void* p = malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    return p;
}
void* operator new(size_t n) { return alloc(n); }
void* operator new[](size_t n) { return alloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void* operator new(size_t n, std::align_val_t a) { return aligned_alloc((size_t)a, (n + (size_t)a - 1) / (size_t)a * (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return aligned_alloc((size_t)a, (n + (size_t)a - 1) / (size_t)a * (size_t)a); }
void operator delete(void* p) noexcept { freed(p, __builtin_return_address(0)); }
void operator delete[](void* p) noexcept { freed(p, __builtin_return_address(0)); }
void operator delete(void* p, size_t) noexcept { freed(p, __builtin_return_address(0)); }
void operator delete[](void* p, size_t) noexcept { freed(p, __builtin_return_address(0)); }
void operator delete(void* p, const std::nothrow_t&) noexcept { freed(p, __builtin_return_address(0)); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { freed(p, __builtin_return_address(0)); }
void operator delete(void* p, std::align_val_t) noexcept { freed(p, __builtin_return_address(0)); }
void operator delete[](void* p, std::align_val_t) noexcept { freed(p, __builtin_return_address(0)); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { freed(p, __builtin_return_address(0)); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { freed(p, __builtin_return_address(0)); }
extern "C" {
void __wrap_free(void* p) { freed(p, __builtin_return_address(0)); }
void* __wrap_memcpy(void* d, const void* s, size_t n)
{
    access(s, n, false, __builtin_return_address(0));
    access(d, n, true, __builtin_return_address(0));
    return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n)
{
    access(s, n, false, __builtin_return_address(0));
    access(d, n, true, __builtin_return_address(0));
    return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int v, size_t n)
{
    access(d, n, true, __builtin_return_address(0));
    return __real_memset(d, v, n);
}

// ------------------------------------------------------------------ the callbacks of -fsanitize=thread
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RA __builtin_return_address(0)
#define RW(n)                                                                                                          \
    void __tsan_read##n(void* p) { access(p, n, false, RA); }                                                          \
    void __tsan_write##n(void* p) { access(p, n, true, RA); }                                                          \
    void __tsan_unaligned_read##n(void* p) { access(p, n, false, RA); }                                                \
    void __tsan_unaligned_write##n(void* p) { access(p, n, true, RA); }                                                \
    void __tsan_volatile_read##n(void* p) { access(p, n, false, RA); }                                                 \
    void __tsan_volatile_write##n(void* p) { access(p, n, true, RA); }                                                 \
    void __tsan_read_write##n(void* p) { access(p, n, true, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false, RA); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, RA); }
void __tsan_vptr_read(void** p) { access(p, 8, false, RA); }
void __tsan_vptr_update(void** p, void* v)
{
    if (*p != v)
        access(p, 8, true, RA);
}
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
static inline void atomicBefore(bool schedulable)
{
    if (on() && schedulable && E->n > 1)
        point();
}
static inline void atomicSync(void* a, int mo, bool rd, bool wr)
{
    if (!on())
        return;
    Off o;
    // consume, acquire, acq_rel, seq_cst / release, acq_rel, seq_cst
    if (rd && (mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST))
        acquire(a);
    if (wr && (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST))
        release(a);
}
// reference counts (32-bit additions of +-1) order memory, but are no scheduling points
#define AT(n, T)                                                                                                       \
    extern "C" T __tsan_atomic##n##_load(const volatile T* a, int mo)                                                  \
    {                                                                                                                  \
        atomicBefore(n != 8);                                                                                          \
        T v = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                    \
        atomicSync((void*)a, mo, true, false);                                                                         \
        return v;                                                                                                      \
    }                                                                                                                  \
    extern "C" void __tsan_atomic##n##_store(volatile T* a, T v, int mo)                                               \
    {                                                                                                                  \
        atomicBefore(true);                                                                                            \
        atomicSync((void*)a, mo, false, true);                                                                         \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                      \
    }                                                                                                                  \
    extern "C" T __tsan_atomic##n##_exchange(volatile T* a, T v, int mo)                                               \
    {                                                                                                                  \
        atomicBefore(true);                                                                                            \
        atomicSync((void*)a, mo, true, true);                                                                          \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                            \
    }                                                                                                                  \
    extern "C" T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int mo)                                              \
    {                                                                                                                  \
        atomicBefore(!(n == 32 && (v == (T)1 || v == (T)-1)));                                                         \
        atomicSync((void*)a, mo, true, true);                                                                          \
        return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                                  \
    extern "C" T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int mo)                                              \
    {                                                                                                                  \
        atomicBefore(true);                                                                                            \
        atomicSync((void*)a, mo, true, true);                                                                          \
        return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                                  \
    extern "C" T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int mo)                                              \
    {                                                                                                                  \
        atomicBefore(true);                                                                                            \
        atomicSync((void*)a, mo, true, true);                                                                          \
        return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                                  \
    extern "C" T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int mo)                                               \
    {                                                                                                                  \
        atomicBefore(true);                                                                                            \
        atomicSync((void*)a, mo, true, true);                                                                          \
        return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                                              \
    }                                                                                                                  \
    extern "C" T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int mo)                                              \
    {                                                                                                                  \
        atomicBefore(true);                                                                                            \
        atomicSync((void*)a, mo, true, true);                                                                          \
        return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                                  \
    extern "C" bool __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int)                  \
    {                                                                                                                  \
        atomicBefore(true);                                                                                            \
        atomicSync((void*)a, mo, true, true);                                                                          \
        return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                        \
    }                                                                                                                  \
    extern "C" bool __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int)                    \
    {                                                                                                                  \
        atomicBefore(true);                                                                                            \
        atomicSync((void*)a, mo, true, true);                                                                          \
        return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                        \
    }                                                                                                                  \
    extern "C" T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T e, T v, int mo, int)                         \
    {                                                                                                                  \
        atomicBefore(true);                                                                                            \
        atomicSync((void*)a, mo, true, true);                                                                          \
        __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                              \
        return e;                                                                                                      \
    }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

// ------------------------------------------------------------------ exploration
namespace sched {
void failIn(const std::string& m)
{
    Off o;
    fail(m);
}
int self() { return me ? me->id : -1; }
void yield()
{
    if (on())
        point();
}
void pin(int cpu)
{
    cpu_set_t have, s;
    if (sched_getaffinity(0, sizeof have, &have))
        return;
    int k = 0, n = CPU_COUNT(&have);
    if (n < 1)
        return;
    cpu %= n;
    for (int i = 0; i < CPU_SETSIZE; ++i)
        if (CPU_ISSET(i, &have) && k++ == cpu) {
            CPU_ZERO(&s);
            CPU_SET(i, &s);
            sched_setaffinity(0, sizeof s, &s);
            return;
        }
}
void bookkeeping(int d) { off += d; }
std::string explore(const std::function<void()>& body, const Options& o, Stats& st)
{
    static Exec* keep = nullptr;
    if (!cells)
        cells = (Cell*)calloc(CELLS, sizeof(Cell));
    if (!keep || keep->dead)
        keep = new Exec; // (the stuck threads of a failed schedule are left behind)
    Exec& X = *keep;
    E = &X;
    X.opt = o;
    X.body = body;
    X.path.clear();
    racesOn = o.races;
    auto t0 = std::chrono::steady_clock::now();
    for (;;) {
        X.n = 0;
        X.pos = 0;
        X.spent = X.spur = 0;
        X.steps = 0;
        X.owner.clear();
        X.sync.clear();
        X.once.clear();
        X.failure.clear();
        X.dead = X.nondet = false;
        ++gen;
        used = 0;
        Th* t = newThread(X);
        X.cur = 0;
        t->gate.post();
        X.ctrl.wait();
        ++st.schedules;
        st.steps += X.steps;
        st.maxSteps = std::max(st.maxSteps, X.steps);
        st.maxThreads = std::max<uint64_t>(st.maxThreads, X.n);
        st.decisions += X.pos;
        if (!X.dead) {
            for (void* p : X.quarantine)
                __real_free(p);
            // (threads that have just said they are done may still be on their way back into the pool; their gates wait)
        }
        X.quarantine.clear();
        if (!X.failure.empty()) {
            std::string s = X.failure + "\n   schedule:";
            for (size_t i = 0; i < X.pos && i < X.path.size() && i < 400; ++i)
                s += " " + std::to_string(X.path[i].choice);
            E = nullptr;
            return s;
        }
        if (X.nondet || X.pos < X.path.size()) {
            E = nullptr;
            return "the program is not deterministic under a fixed schedule";
        }
        // next decision sequence within the bound
        int spent = 0;
        for (auto& d : X.path)
            spent += d.cost[d.choice];
        while (!X.path.empty()) {
            Exec::D& d = X.path.back();
            spent -= d.cost[d.choice];
            bool found = false;
            for (int c = d.choice + 1; c < d.count; ++c)
                if (spent + d.cost[c] <= o.preemptions) {
                    d.choice = c;
                    found = true;
                    break;
                }
            if (found)
                break;
            X.path.pop_back();
        }
        if (X.path.empty())
            break;
        if (st.schedules >= o.maxSchedules ||
            ((st.schedules & 63) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > o.maxSeconds)) {
            st.complete = false;
            break;
        }
    }
    E = nullptr;
    return "";
}
} // namespace sched
