// The runtime behind sched.h.  Compiled without instrumentation; stands in for libtsan and wraps the
// pthread calls (see run.py for the list).
#include "sched.h"

#include <errno.h>
#include <inttypes.h>
#include <limits.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <new>
#include <vector>

extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int __real_pthread_join(pthread_t, void**);
int __real_pthread_detach(pthread_t);
int __real_pthread_key_create(pthread_key_t*, void (*)(void*));
int __real_pthread_key_delete(pthread_key_t);
void* __real_pthread_getspecific(pthread_key_t);
int __real_pthread_setspecific(pthread_key_t, const void*);
int __real_pthread_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*);
int __real_pthread_mutex_destroy(pthread_mutex_t*);
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*);
int __real_pthread_cond_destroy(pthread_cond_t*);
int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
int __real_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const timespec*);
int __real_pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*);
int __real_pthread_cond_signal(pthread_cond_t*);
int __real_pthread_cond_broadcast(pthread_cond_t*);
int __real_pthread_once(pthread_once_t*, void (*)());
int __real_sched_yield();
int __real_nanosleep(const timespec*, timespec*);
int __real_clock_nanosleep(clockid_t, int, const timespec*, timespec*);
int __real_usleep(useconds_t);
int __real___cxa_guard_acquire(void*);
void __real___cxa_guard_release(void*);
void __real___cxa_guard_abort(void*);
void __real___assert_fail(const char*, const char*, unsigned, const char*);
}

namespace {

const int kMaxThreads = 12;
const uint64_t kMaxAlone = 1500;    // steps before a fair scheduler would have stepped in
const uint64_t kMaxSteps = 400000;  // a run this long does not complete

struct Clock {
    uint32_t c[kMaxThreads];
    void clear() {
        memset(c, 0, sizeof(c));
    }
    void join(const Clock& o) {
        for (int i = 0; i < kMaxThreads; i++) {
            if (o.c[i] > c[i])
                c[i] = o.c[i];
        }
    }
};

enum State { kFree, kReady, kOnMutex, kOnCond, kOnTimedCond, kOnJoin, kOnGuard, kDone };

struct Thread {
    int id;
    volatile State state;
    const void* wait;
    Clock vc;
    Clock acquire_pending; // for fences
    Clock release_fence;
    int ignore;
    bool timed_out;
    bool armed;
    sigjmp_buf jmp;
    pthread_t handle;
    bool joined, detached;
    uintptr_t stack_lo, stack_hi;
    volatile int token;
    void* (*fn)(void*);
    void* arg;
    void* result;
};

Thread g_threads[kMaxThreads];
int g_nthreads;
bool g_running;
__thread Thread* t_self;

sched::DrawFn g_draw;
void* g_draw_data;
sched::FailFn g_fail;
uint64_t g_den;
bool g_reuse;
uint64_t g_step, g_alone, g_switches;
sched::KeyFn g_key_hook;
void* g_key_data;
bool g_key_live[PTHREAD_KEYS_MAX + 64];
size_t g_nkeys;

// --- clocks of synchronisation objects and shadows of memory -------------------------------------

struct Sync {
    uintptr_t addr;
    Clock clk;
};
const size_t kSyncCap = 1 << 12;
Sync* g_sync;
uint32_t g_sync_used[kSyncCap];
size_t g_nsync;

enum Access { kRead, kWrite, kAtomicRead, kAtomicWrite };
struct Shadow {
    uintptr_t granule;
    bool freed;
    uint32_t clk[4][kMaxThreads];
    uint8_t mask[4][kMaxThreads];
};
const size_t kShadowCap = 1 << 14;
Shadow* g_shadow;
uint32_t g_shadow_used[kShadowCap];
size_t g_nshadow;

std::vector<void*>* g_quarantine;

__attribute__((noreturn, format(printf, 1, 2))) void
Fail(const char* fmt, ...) {
    char text[1024];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(text, sizeof(text), fmt, ap);
    va_end(ap);
    if (t_self)
        t_self->ignore++;
    g_fail(text);
    _exit(99);
}

size_t
Hash(uintptr_t a) {
    a ^= a >> 17;
    a *= 0x9E3779B97F4A7C15ULL;
    return a >> 20;
}

Sync*
GetSync(const volatile void* p) {
    uintptr_t a = uintptr_t(p);
    size_t i = Hash(a) & (kSyncCap - 1);
    while (g_sync[i].addr && g_sync[i].addr != a)
        i = (i + 1) & (kSyncCap - 1);
    if (!g_sync[i].addr) {
        if (g_nsync + 1 >= kSyncCap / 2)
            Fail("harness limit: too many synchronisation objects in one run");
        g_sync[i].addr = a;
        g_sync[i].clk.clear();
        g_sync_used[g_nsync++] = uint32_t(i);
    }
    return &g_sync[i];
}
Shadow*
GetShadow(uintptr_t granule, bool create) {
    size_t i = Hash(granule) & (kShadowCap - 1);
    while (g_shadow[i].granule && g_shadow[i].granule != granule)
        i = (i + 1) & (kShadowCap - 1);
    if (!g_shadow[i].granule) {
        if (!create)
            return nullptr;
        if (g_nshadow + 1 >= kShadowCap * 3 / 4)
            Fail("harness limit: too much memory touched in one run");
        memset(&g_shadow[i], 0, sizeof(Shadow));
        g_shadow[i].granule = granule;
        g_shadow_used[g_nshadow++] = uint32_t(i);
    }
    return &g_shadow[i];
}

bool
Active() {
    return g_running && t_self && !t_self->ignore;
}

const char*
AccessName(int k) {
    static const char* const n[] = {"reads", "writes", "atomically reads", "atomically writes"};
    return n[k];
}

void
Touch(Thread* t, uintptr_t a, size_t size, Access kind) {
    uintptr_t end = a + size;
    while (a < end) {
        uintptr_t g = a >> 3;
        size_t off = a & 7;
        size_t n = 8 - off;
        if (n > end - a)
            n = end - a;
        uint8_t mask = uint8_t(((1u << n) - 1) << off);
        Shadow* s = GetShadow(g, true);
        if (s->freed)
            Fail("thread %d %s %zu bytes of an object that has been freed", t->id, AccessName(kind), size);
        for (int u = 0; u < g_nthreads; u++) {
            if (u == t->id)
                continue;
            for (int k = 0; k < 4; k++) {
                // Two reads, and two atomic accesses, never race.
                bool w = kind == kWrite || kind == kAtomicWrite || k == kWrite || k == kAtomicWrite;
                bool plain = kind <= kWrite || k <= kWrite;
                if (w && plain && (s->mask[k][u] & mask) && s->clk[k][u] > t->vc.c[u])
                    Fail("data race: thread %d %s %zu bytes that thread %d %s without anything ordering the two",
                         t->id, AccessName(kind), size, u, AccessName(k));
            }
        }
        if (s->clk[kind][t->id] == t->vc.c[t->id])
            s->mask[kind][t->id] |= mask;
        else
            s->mask[kind][t->id] = mask;
        s->clk[kind][t->id] = t->vc.c[t->id];
        a += n;
    }
}

void
ForgetRange(uintptr_t lo, uintptr_t hi) {
    for (size_t i = 0; i < g_nshadow; i++) {
        Shadow& s = g_shadow[g_shadow_used[i]];
        uintptr_t a = s.granule << 3;
        if (a >= lo && a < hi) {
            s.freed = false;
            memset(s.clk, 0, sizeof(s.clk));
            memset(s.mask, 0, sizeof(s.mask));
        }
    }
}

// --- the scheduler --------------------------------------------------------------------------------

void
Futex(volatile int* w, int op, int v) {
    syscall(SYS_futex, w, op | FUTEX_PRIVATE_FLAG, v, nullptr, nullptr, 0);
}
void
WaitToken(Thread* t) {
    // Hand-overs are frequent and short: look a little before going to sleep.
    for (int i = 0; i < 60; i++) {
        if (__atomic_load_n(&t->token, __ATOMIC_ACQUIRE))
            break;
        __builtin_ia32_pause();
    }
    while (!__atomic_load_n(&t->token, __ATOMIC_ACQUIRE))
        Futex(&t->token, FUTEX_WAIT, 0);
    __atomic_store_n(&t->token, 0, __ATOMIC_RELAXED);
}
void
GiveToken(Thread* t) {
    __atomic_store_n(&t->token, 1, __ATOMIC_RELEASE);
    Futex(&t->token, FUTEX_WAKE, 1);
}

uint64_t
Draw(uint64_t n) {
    Thread* t = t_self;
    t->ignore++;
    uint64_t v = g_draw(g_draw_data, n);
    t->ignore--;
    return v;
}

// The next thread to run other than the current one; null if there is none.
Thread*
PickOther(bool random) {
    Thread* ready[kMaxThreads];
    int n = 0;
    int self = t_self->id;
    for (int i = 1; i <= g_nthreads; i++) {
        Thread* t = &g_threads[(self + i) % g_nthreads];
        if (t != t_self && (t->state == kReady))
            ready[n++] = t;
    }
    if (!n) {
        // Only a wait with a time limit can end by itself.
        for (int i = 0; i < g_nthreads; i++) {
            if (&g_threads[i] != t_self && g_threads[i].state == kOnTimedCond) {
                g_threads[i].timed_out = true;
                g_threads[i].state = kReady;
                return &g_threads[i];
            }
        }
        return nullptr;
    }
    if (n == 1)
        return ready[0];
    return ready[random ? Draw(uint64_t(n)) : 0];
}

void
SwitchTo(Thread* t) {
    Thread* self = t_self;
    g_alone = 0;
    g_switches++;
    GiveToken(t);
    WaitToken(self);
}

void
CountStep() {
    if (++g_step > kMaxSteps)
        Fail("the operations do not complete: %" PRIu64 " steps taken under a fair schedule", g_step);
}

void
Point() {
    CountStep();
    bool force = ++g_alone > kMaxAlone;
    if (!force && Draw(g_den) != g_den - 1)
        return;
    Thread* t = PickOther(!force);
    g_alone = 0;
    if (t)
        SwitchTo(t);
}

// The current thread cannot go on.
void
Block(State state, const void* on) {
    Thread* self = t_self;
    CountStep();
    self->state = state;
    self->wait = on;
    Thread* t = PickOther(true);
    if (!t) {
        if (state == kOnTimedCond) {
            self->timed_out = true;
            self->state = kReady;
            return;
        }
        Fail("deadlock: thread %d waits %s and no thread can go on", self->id,
             state == kOnMutex   ? "for a mutex"
             : state == kOnCond  ? "for a condition"
             : state == kOnJoin  ? "for a thread to finish"
             : state == kOnGuard ? "for an initialisation"
                                 : "");
    }
    SwitchTo(t);
}

void
Wake(State state, const void* on) {
    for (int i = 0; i < g_nthreads; i++) {
        if (g_threads[i].state == state && g_threads[i].wait == on)
            g_threads[i].state = kReady;
    }
}

void
Acquire(const volatile void* p) {
    t_self->vc.join(GetSync(p)->clk);
}
void
Release(const volatile void* p) {
    GetSync(p)->clk.join(t_self->vc);
    t_self->vc.c[t_self->id]++;
}

void
StackOf(Thread* t) {
    static uintptr_t main_lo, main_hi;
    static pthread_t main_handle;
    if (main_hi && pthread_equal(main_handle, pthread_self())) {
        t->stack_lo = main_lo;
        t->stack_hi = main_hi;
        return;
    }
    pthread_attr_t attr;
    void* base = nullptr;
    size_t size = 0;
    if (pthread_getattr_np(pthread_self(), &attr) == 0) {
        pthread_attr_getstack(&attr, &base, &size);
        pthread_attr_destroy(&attr);
    }
    t->stack_lo = uintptr_t(base);
    t->stack_hi = uintptr_t(base) + size;
    if (t->id == 0) {
        main_lo = t->stack_lo;
        main_hi = t->stack_hi;
        main_handle = pthread_self();
    }
}

void*
Trampoline(void* p) {
    Thread* t = static_cast<Thread*>(p);
    t_self = t;
    WaitToken(t);
    StackOf(t);
    ForgetRange(t->stack_lo, t->stack_hi);
    t->result = t->fn(t->arg);
    // From here on the thread is no part of the run.
    t->state = kDone;
    Wake(kOnJoin, t);
    Thread* next = PickOther(true);
    t_self = nullptr;
    if (!next)
        Fail("deadlock: a thread finished and none of the others can go on");
    g_alone = 0;
    GiveToken(next);
    return t->result;
}

void
OnAbort(int) {
    Thread* t = t_self;
    if (t && t->armed) {
        t->armed = false;
        siglongjmp(t->jmp, 1);
    }
    signal(SIGABRT, SIG_DFL);
    raise(SIGABRT);
}

Thread*
FindThread(pthread_t h) {
    for (int i = 0; i < g_nthreads; i++) {
        if (g_threads[i].state != kFree && !g_threads[i].joined && pthread_equal(g_threads[i].handle, h))
            return &g_threads[i];
    }
    return nullptr;
}

bool
OwnStack(uintptr_t a) {
    return a >= t_self->stack_lo && a < t_self->stack_hi;
}

void
Plain(const volatile void* p, size_t size, bool write) {
    if (!Active())
        return;
    uintptr_t a = uintptr_t(p);
    if (!OwnStack(a))
        Point();
    Touch(t_self, a, size, write ? kWrite : kRead);
}
void
Volatile(const volatile void* p, size_t size, bool write) {
    // What volatile gives in practice: the access happens as it stands, but orders nothing.
    if (!Active())
        return;
    uintptr_t a = uintptr_t(p);
    Point();
    Touch(t_self, a, size, write ? kAtomicWrite : kAtomicRead);
    if (write)
        GetSync(p)->clk = t_self->release_fence;
    else
        t_self->acquire_pending.join(GetSync(p)->clk);
}

bool
IsAcquire(int mo) {
    return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
}
bool
IsRelease(int mo) {
    return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
}

void
AtomicLoadHB(const volatile void* p, size_t size, int mo) {
    Touch(t_self, uintptr_t(p), size, kAtomicRead);
    Sync* s = GetSync(p);
    if (IsAcquire(mo))
        t_self->vc.join(s->clk);
    else
        t_self->acquire_pending.join(s->clk);
}
void
AtomicStoreHB(const volatile void* p, size_t size, int mo, bool rmw) {
    Touch(t_self, uintptr_t(p), size, kAtomicWrite);
    Sync* s = GetSync(p);
    // A read-modify-write continues the release sequence it reads from; a store starts anew.
    if (!rmw)
        s->clk = t_self->release_fence;
    else
        s->clk.join(t_self->release_fence);
    if (IsRelease(mo)) {
        s->clk.join(t_self->vc);
        t_self->vc.c[t_self->id]++;
    }
}

void
OnAlloc(void* p) {
    if (!p || !g_running || !t_self)
        return;
    uintptr_t a = uintptr_t(p);
    size_t n = malloc_usable_size(p);
    for (uintptr_t g = a >> 3; g < (a + n + 7) >> 3; g++) {
        Shadow* s = GetShadow(g, false);
        if (s) {
            s->freed = false;
            memset(s->clk, 0, sizeof(s->clk));
            memset(s->mask, 0, sizeof(s->mask));
        }
    }
}
// True if the block is kept until the end of the run.
bool
OnFree(void* p) {
    if (!p || !g_running || !t_self)
        return false;
    uintptr_t a = uintptr_t(p);
    size_t n = malloc_usable_size(p);
    if (n > 4096 && g_reuse)
        return false;
    if (n <= 4096 && !t_self->ignore) {
        for (uintptr_t g = a >> 3; g < (a + n) >> 3; g++) {
            Shadow* s = GetShadow(g, false);
            if (s && s->freed)
                Fail("thread %d frees an object that has been freed", t_self->id);
            if (s)
                Touch(t_self, g << 3, 8, kWrite);
        }
        for (uintptr_t g = a >> 3; g < (a + n) >> 3; g++)
            GetShadow(g, true)->freed = true;
    }
    if (g_reuse)
        return false;
    t_self->ignore++;
    g_quarantine->push_back(p);
    t_self->ignore--;
    return true;
}

} // namespace

// --- interface ------------------------------------------------------------------------------------

namespace sched {

void
Begin(DrawFn draw, void* data, FailFn fail, uint64_t den, bool reuse) {
    if (!g_sync) {
        g_sync = static_cast<Sync*>(__real_calloc(kSyncCap, sizeof(Sync)));
        g_shadow = static_cast<Shadow*>(__real_calloc(kShadowCap, sizeof(Shadow)));
        g_quarantine = new std::vector<void*>();
        g_quarantine->reserve(1 << 12);
        signal(SIGABRT, OnAbort);
    }
    for (size_t i = 0; i < g_nsync; i++)
        g_sync[g_sync_used[i]].addr = 0;
    g_nsync = 0;
    for (size_t i = 0; i < g_nshadow; i++)
        g_shadow[g_shadow_used[i]].granule = 0;
    g_nshadow = 0;
    g_draw = draw;
    g_draw_data = data;
    g_fail = fail;
    g_den = den < 2 ? 2 : den;
    g_reuse = reuse;
    g_step = g_alone = g_switches = 0;
    Thread* t = &g_threads[0];
    memset((void*)t, 0, sizeof(*t));
    t->handle = pthread_self();
    t->vc.c[0] = 1;
    g_nthreads = 1;
    t->state = kReady;
    t_self = t;
    StackOf(t);
    g_running = true;
}

void
End() {
    for (int i = 1; i < g_nthreads; i++) {
        if (g_threads[i].state != kDone)
            Fail("thread %d is still running at the end", i);
        if (!g_threads[i].joined && !g_threads[i].detached)
            Fail("thread %d was never joined", i);
    }
    g_running = false;
    t_self = nullptr;
    for (void* p : *g_quarantine)
        __real_free(p);
    g_quarantine->clear();
}

int
Self() {
    return t_self ? t_self->id : 0;
}
uint64_t
Now() {
    return ++g_step;
}
uint64_t
Switches() {
    return g_switches;
}
void
Yield() {
    if (Active())
        Point();
}
void
SetKeyHook(KeyFn fn, void* data) {
    g_key_hook = fn;
    g_key_data = data;
}
size_t
LiveKeys() {
    return g_nkeys;
}
void
DropKeys() {
    for (size_t k = 0; k < sizeof(g_key_live) && g_nkeys; k++) {
        if (g_key_live[k]) {
            g_key_live[k] = false;
            g_nkeys--;
            __real_pthread_key_delete(pthread_key_t(k));
        }
    }
}
void
IgnoreBegin() {
    if (t_self)
        t_self->ignore++;
}
void
IgnoreEnd() {
    if (t_self)
        t_self->ignore--;
}
static Thread g_outside;
sigjmp_buf*
ArmAbort() {
    Thread* t = t_self;
    if (!t) {
        signal(SIGABRT, OnAbort);
        t = t_self = &g_outside;
    }
    t->armed = true;
    return &t->jmp;
}
void
DisarmAbort() {
    if (t_self)
        t_self->armed = false;
}

} // namespace sched

// --- wrapped calls --------------------------------------------------------------------------------

extern "C" {

void*
__wrap_malloc(size_t n) {
    void* p = __real_malloc(n);
    OnAlloc(p);
    return p;
}
void*
__wrap_calloc(size_t n, size_t m) {
    void* p = __real_calloc(n, m);
    OnAlloc(p);
    return p;
}
void
__wrap_free(void* p) {
    if (!OnFree(p))
        __real_free(p);
}
void*
__wrap_realloc(void* p, size_t n) {
    if (!p || !g_running || !t_self)
        return __real_realloc(p, n);
    void* q = __wrap_malloc(n);
    if (!q)
        return nullptr;
    size_t old = malloc_usable_size(p);
    memcpy(q, p, old < n ? old : n);
    __wrap_free(p);
    return q;
}

int
__wrap_pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
    if (!g_running || !t_self)
        return __real_pthread_create(out, attr, fn, arg);
    Thread* self = t_self;
    if (!self->ignore)
        Point();
    if (g_nthreads == kMaxThreads)
        Fail("harness limit: too many threads in one run");
    Thread* t = &g_threads[g_nthreads];
    memset((void*)t, 0, sizeof(*t));
    t->id = g_nthreads;
    t->fn = fn;
    t->arg = arg;
    t->vc = self->vc;
    t->vc.c[t->id] = 1;
    self->vc.c[self->id]++;
    int r = __real_pthread_create(&t->handle, attr, Trampoline, t);
    if (r)
        return r;
    *out = t->handle;
    t->state = kReady;
    g_nthreads++;
    if (!self->ignore)
        Point();
    return 0;
}
int
__wrap_pthread_join(pthread_t h, void** out) {
    if (!g_running || !t_self)
        return __real_pthread_join(h, out);
    if (!t_self->ignore)
        Point();
    Thread* t = FindThread(h);
    if (!t)
        return __real_pthread_join(h, out);
    while (t->state != kDone)
        Block(kOnJoin, t);
    t->joined = true;
    t_self->vc.join(t->vc);
    return __real_pthread_join(h, out);
}
int
__wrap_pthread_detach(pthread_t h) {
    if (g_running && t_self) {
        Thread* t = FindThread(h);
        if (t)
            t->detached = true;
    }
    return __real_pthread_detach(h);
}

int
__wrap_pthread_key_create(pthread_key_t* key, void (*fn)(void*)) {
    bool active = Active();
    if (active)
        Point();
    if (g_key_hook && g_key_hook(g_key_data))
        return EAGAIN;
    pthread_key_t k;
    int r = __real_pthread_key_create(&k, fn);
    if (r)
        return r;
    if (k < sizeof(g_key_live))
        g_key_live[k] = true;
    g_nkeys++;
    // The caller sees the key only now.
    if (active)
        Plain(key, sizeof(*key), true);
    *key = k;
    return 0;
}
int
__wrap_pthread_key_delete(pthread_key_t k) {
    if (Active())
        Point();
    if (k >= sizeof(g_key_live) || !g_key_live[k]) {
        if (g_fail)
            Fail("a thread-specific key that does not exist is deleted");
        return EINVAL;
    }
    g_key_live[k] = false;
    g_nkeys--;
    return __real_pthread_key_delete(k);
}
void*
__wrap_pthread_getspecific(pthread_key_t k) {
    if (Active()) {
        Point();
        if (k >= sizeof(g_key_live) || !g_key_live[k])
            Fail("a thread-specific key that does not exist is read");
    }
    return __real_pthread_getspecific(k);
}
int
__wrap_pthread_setspecific(pthread_key_t k, const void* v) {
    if (Active()) {
        Point();
        if (k >= sizeof(g_key_live) || !g_key_live[k])
            Fail("a thread-specific key that does not exist is written");
    }
    return __real_pthread_setspecific(k, v);
}

int
__wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    return __real_pthread_mutex_init(m, a);
}
int
__wrap_pthread_mutex_destroy(pthread_mutex_t* m) {
    return __real_pthread_mutex_destroy(m);
}
int
__wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    if (!g_running || !t_self)
        return __real_pthread_mutex_lock(m);
    if (!t_self->ignore)
        Point();
    for (;;) {
        int r = __real_pthread_mutex_trylock(m);
        if (r == 0) {
            Acquire(m);
            return 0;
        }
        if (r != EBUSY)
            return r;
        Block(kOnMutex, m);
    }
}
int
__wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!g_running || !t_self)
        return __real_pthread_mutex_trylock(m);
    if (!t_self->ignore)
        Point();
    int r = __real_pthread_mutex_trylock(m);
    if (r == 0)
        Acquire(m);
    return r;
}
int
__wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!g_running || !t_self)
        return __real_pthread_mutex_unlock(m);
    if (!t_self->ignore)
        Point();
    Release(m);
    int r = __real_pthread_mutex_unlock(m);
    Wake(kOnMutex, m);
    return r;
}

int
__wrap_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) {
    return __real_pthread_cond_init(c, a);
}
int
__wrap_pthread_cond_destroy(pthread_cond_t* c) {
    return __real_pthread_cond_destroy(c);
}
static int
CondWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
    if (!t_self->ignore)
        Point();
    Thread* self = t_self;
    Release(m);
    int r = __real_pthread_mutex_unlock(m);
    if (r)
        return r;
    Wake(kOnMutex, m);
    self->timed_out = false;
    Block(timed ? kOnTimedCond : kOnCond, c);
    bool out = self->timed_out;
    for (;;) {
        r = __real_pthread_mutex_trylock(m);
        if (r != EBUSY)
            break;
        Block(kOnMutex, m);
    }
    if (r == 0)
        Acquire(m);
    return r ? r : out ? ETIMEDOUT : 0;
}
int
__wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!g_running || !t_self)
        return __real_pthread_cond_wait(c, m);
    return CondWait(c, m, false);
}
int
__wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) {
    if (!g_running || !t_self)
        return __real_pthread_cond_timedwait(c, m, ts);
    return CondWait(c, m, true);
}
int
__wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const timespec* ts) {
    if (!g_running || !t_self)
        return __real_pthread_cond_clockwait(c, m, id, ts);
    return CondWait(c, m, true);
}
int
__wrap_pthread_cond_signal(pthread_cond_t* c) {
    if (!g_running || !t_self)
        return __real_pthread_cond_signal(c);
    if (!t_self->ignore)
        Point();
    Thread* w[kMaxThreads];
    int n = 0;
    for (int i = 0; i < g_nthreads; i++) {
        Thread* t = &g_threads[i];
        if ((t->state == kOnCond || t->state == kOnTimedCond) && t->wait == c)
            w[n++] = t;
    }
    if (n)
        w[n > 1 ? Draw(uint64_t(n)) : 0]->state = kReady;
    return 0;
}
int
__wrap_pthread_cond_broadcast(pthread_cond_t* c) {
    if (!g_running || !t_self)
        return __real_pthread_cond_broadcast(c);
    if (!t_self->ignore)
        Point();
    Wake(kOnCond, c);
    Wake(kOnTimedCond, c);
    return 0;
}

int
__wrap_sched_yield() {
    if (!g_running || !t_self)
        return __real_sched_yield();
    if (t_self->ignore)
        return 0;
    CountStep();
    Thread* t = PickOther(true);
    if (t)
        SwitchTo(t);
    return 0;
}
int
__wrap_nanosleep(const timespec* a, timespec* b) {
    return g_running && t_self ? __wrap_sched_yield() : __real_nanosleep(a, b);
}
int
__wrap_clock_nanosleep(clockid_t id, int flags, const timespec* a, timespec* b) {
    return g_running && t_self ? __wrap_sched_yield() : __real_clock_nanosleep(id, flags, a, b);
}
int
__wrap_usleep(useconds_t us) {
    return g_running && t_self ? __wrap_sched_yield() : __real_usleep(us);
}

// Initialisation of function-local statics: byte 0 done, byte 1 in progress.
int
__wrap___cxa_guard_acquire(void* g) {
    if (!g_running || !t_self)
        return __real___cxa_guard_acquire(g);
    char* b = static_cast<char*>(g);
    if (!t_self->ignore)
        Point();
    while (b[1] && !b[0])
        Block(kOnGuard, g);
    if (b[0]) {
        Acquire(g);
        return 0;
    }
    b[1] = 1;
    return 1;
}
void
__wrap___cxa_guard_release(void* g) {
    if (!g_running || !t_self) {
        __real___cxa_guard_release(g);
        return;
    }
    char* b = static_cast<char*>(g);
    Release(g);
    b[0] = 1;
    b[1] = 0;
    Wake(kOnGuard, g);
}
void
__wrap___cxa_guard_abort(void* g) {
    if (!g_running || !t_self) {
        __real___cxa_guard_abort(g);
        return;
    }
    static_cast<char*>(g)[1] = 0;
    Wake(kOnGuard, g);
}
int
__wrap_pthread_once(pthread_once_t* o, void (*fn)()) {
    if (!g_running || !t_self)
        return __real_pthread_once(o, fn);
    if (!t_self->ignore)
        Point();
    // 0 not begun, 2 done as in glibc; 0x7001 begun by a thread of this run.
    while (*o == 0x7001)
        Block(kOnGuard, o);
    if (*o == 0) {
        *o = 0x7001;
        fn();
        Release(o);
        *o = 2;
        Wake(kOnGuard, o);
    } else {
        Acquire(o);
    }
    return 0;
}

void
__wrap___assert_fail(const char* expr, const char* file, unsigned line, const char* fn) {
    if (t_self && t_self->armed) {
        t_self->armed = false;
        siglongjmp(t_self->jmp, 1);
    }
    if (g_fail)
        Fail("assertion failed: %s (%s:%u)", expr, file, line);
    __real___assert_fail(expr, file, line, fn);
}

// --- what the instrumentation calls ---------------------------------------------------------------

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}

#define ACCESS(n)                                                              \
    void __tsan_read##n(void* p) { Plain(p, n, false); }                       \
    void __tsan_write##n(void* p) { Plain(p, n, true); }                       \
    void __tsan_read_write##n(void* p) { Plain(p, n, false); Plain(p, n, true); } \
    void __tsan_unaligned_read##n(void* p) { Plain(p, n, false); }             \
    void __tsan_unaligned_write##n(void* p) { Plain(p, n, true); }             \
    void __tsan_unaligned_read_write##n(void* p) { Plain(p, n, false); Plain(p, n, true); } \
    void __tsan_volatile_read##n(void* p) { Volatile(p, n, false); }           \
    void __tsan_volatile_write##n(void* p) { Volatile(p, n, true); }           \
    void __tsan_unaligned_volatile_read##n(void* p) { Volatile(p, n, false); } \
    void __tsan_unaligned_volatile_write##n(void* p) { Volatile(p, n, true); }
ACCESS(1)
ACCESS(2)
ACCESS(4)
ACCESS(8)
ACCESS(16)

void
__tsan_read_range(void* p, size_t n) {
    if (n)
        Plain(p, n, false);
}
void
__tsan_write_range(void* p, size_t n) {
    if (n)
        Plain(p, n, true);
}
void
__tsan_vptr_read(void** p) {
    Plain(p, sizeof(void*), false);
}
void
__tsan_vptr_update(void** p, void* v) {
    // Constructors and destructors of a class hierarchy rewrite the same value; only a change counts.
    if (*p != v)
        Plain(p, sizeof(void*), true);
}
void*
__tsan_memcpy(void* d, const void* s, size_t n) {
    if (n && Active()) {
        Plain(s, n, false);
        Plain(d, n, true);
    }
    return memcpy(d, s, n);
}
void*
__tsan_memmove(void* d, const void* s, size_t n) {
    if (n && Active()) {
        Plain(s, n, false);
        Plain(d, n, true);
    }
    return memmove(d, s, n);
}
void*
__tsan_memset(void* d, int c, size_t n) {
    if (n && Active())
        Plain(d, n, true);
    return memset(d, c, n);
}

#define ATOMIC_OP(bits, T, name, builtin)                                      \
    T __tsan_atomic##bits##_##name(volatile T* p, T v, int mo) {               \
        bool a = Active();                                                     \
        if (a) {                                                               \
            Point();                                                           \
            AtomicLoadHB(p, sizeof(T), mo);                                    \
            AtomicStoreHB(p, sizeof(T), mo, true);                             \
        }                                                                      \
        return builtin(p, v, __ATOMIC_SEQ_CST);                                \
    }
#define ATOMIC(bits, T)                                                        \
    T __tsan_atomic##bits##_load(const volatile T* p, int mo) {                \
        if (Active()) {                                                        \
            Point();                                                           \
            AtomicLoadHB(p, sizeof(T), mo);                                    \
        }                                                                      \
        return __atomic_load_n(p, __ATOMIC_SEQ_CST);                           \
    }                                                                          \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) {             \
        if (Active()) {                                                        \
            Point();                                                           \
            AtomicStoreHB(p, sizeof(T), mo, false);                            \
        }                                                                      \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                              \
    }                                                                          \
    ATOMIC_OP(bits, T, exchange, __atomic_exchange_n)                          \
    ATOMIC_OP(bits, T, fetch_add, __atomic_fetch_add)                          \
    ATOMIC_OP(bits, T, fetch_sub, __atomic_fetch_sub)                          \
    ATOMIC_OP(bits, T, fetch_and, __atomic_fetch_and)                          \
    ATOMIC_OP(bits, T, fetch_or, __atomic_fetch_or)                            \
    ATOMIC_OP(bits, T, fetch_xor, __atomic_fetch_xor)                          \
    ATOMIC_OP(bits, T, fetch_nand, __atomic_fetch_nand)                        \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) { \
        bool a = Active();                                                     \
        if (a)                                                                 \
            Point();                                                           \
        bool ok = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        if (a) {                                                               \
            AtomicLoadHB(p, sizeof(T), ok ? mo : fmo);                         \
            if (ok)                                                            \
                AtomicStoreHB(p, sizeof(T), mo, true);                         \
        }                                                                      \
        return ok;                                                             \
    }                                                                          \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) { \
        if (Active() && Draw(8) == 7) {                                        \
            /* A weak exchange may fail for no reason. */                      \
            Point();                                                           \
            AtomicLoadHB(p, sizeof(T), fmo);                                   \
            *e = *p;                                                           \
            return 0;                                                          \
        }                                                                      \
        return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, fmo); \
    }                                                                          \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) { \
        __tsan_atomic##bits##_compare_exchange_strong(p, &e, v, mo, fmo);      \
        return e;                                                              \
    }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)

void
__tsan_atomic_thread_fence(int mo) {
    if (!Active())
        return;
    Point();
    if (IsAcquire(mo))
        t_self->vc.join(t_self->acquire_pending);
    if (IsRelease(mo)) {
        t_self->release_fence = t_self->vc;
        t_self->vc.c[t_self->id]++;
    }
}
void __tsan_atomic_signal_fence(int) {}

} // extern "C"

void*
operator new(size_t n) {
    void* p = __wrap_malloc(n ? n : 1);
    if (!p)
        abort();
    return p;
}
void*
operator new[](size_t n) {
    return operator new(n);
}
void*
operator new(size_t n, const std::nothrow_t&) noexcept {
    return __wrap_malloc(n ? n : 1);
}
void*
operator new[](size_t n, const std::nothrow_t&) noexcept {
    return __wrap_malloc(n ? n : 1);
}
void
operator delete(void* p) noexcept {
    __wrap_free(p);
}
void
operator delete[](void* p) noexcept {
    __wrap_free(p);
}
void
operator delete(void* p, size_t) noexcept {
    __wrap_free(p);
}
void
operator delete[](void* p, size_t) noexcept {
    __wrap_free(p);
}
