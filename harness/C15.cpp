// C15: the mutex excludes, and its ownership assertion is exact.
// Non-trivial: a thread found the mutex busy (a failed try_lock, or an acquisition during which another
// thread held it).
#include "../engine/vp.h"

#include "common/conc.h"

#include <chrono>
#include <condition_variable>
#include <mutex>

#include <amtl/am-mutex.h>

static const int kWorkers = 3;
static const int kMutexes = 2;

struct Hold {
    int mutex, thread;
    uint64_t from, to; // it is not held outside; 0 for not over yet
};
struct Failed {
    int mutex, thread;
    uint64_t from, to;
};

struct Book {
    int holder[kMutexes];
    std::vector<Hold> holds;
    std::vector<Failed> failed;
    uint64_t sections[kMutexes];
    size_t waits;
    bool contended;
};
static Book g_book;

// What the mutexes protect: plain memory.
struct Shared {
    ke::Mutex* m[kMutexes];
    uint64_t count[kMutexes];
    int last[kMutexes];
    std::condition_variable_any* cv;
    long tokens;
};

static size_t
BeginAcquire(int m) {
    uint64_t now = sched::Now();
    sched::Ignore ig;
    g_book.holds.push_back({m, sched::Self(), now, 0});
    return g_book.holds.size() - 1;
}
static void
CancelAcquire(size_t h) {
    uint64_t now = sched::Now();
    sched::Ignore ig;
    Hold& x = g_book.holds[h];
    g_book.failed.push_back({x.mutex, x.thread, x.from, now});
    x.mutex = -1;
}
static void
Acquired(int m) {
    sched::Ignore ig;
    VP_CHECK(g_book.holder[m] == -1, "thread %d acquired mutex %d while thread %d holds it", sched::Self(), m, g_book.holder[m]);
    g_book.holder[m] = sched::Self();
    g_book.sections[m]++;
    VP_LOG("thread %d has mutex %d", sched::Self(), m);
}
static void
Releasing(int m) {
    sched::Ignore ig;
    VP_CHECK(g_book.holder[m] == sched::Self(), "thread %d lost mutex %d to thread %d", sched::Self(), m, g_book.holder[m]);
    g_book.holder[m] = -1;
    VP_LOG("thread %d lets go of mutex %d", sched::Self(), m);
}
static void
Released(size_t h) {
    uint64_t now = sched::Now();
    sched::Ignore ig;
    g_book.holds[h].to = now;
}

static void
Probe(Shared* sh, int m) {
    bool mine;
    {
        sched::Ignore ig;
        mine = g_book.holder[m] == sched::Self();
    }
    ke::Mutex* mu = sh->m[m];
    bool aborted = sched::Aborts([mu] { mu->AssertCurrentThreadOwns(); });
#ifdef NDEBUG
    CONC_CHECK(!aborted, "the assertion does something in a release build");
    (void)mine;
#else
    CONC_CHECK(!mine || !aborted, "the assertion fails in thread %d, which holds mutex %d", sched::Self(), m);
    CONC_CHECK(mine || aborted, "the assertion passes in thread %d, which does not hold mutex %d", sched::Self(), m);
#endif
}

// The work done under the lock.
static void
Inside(Shared* sh, int m, int reps) {
    for (int i = 0; i < reps; i++) {
        uint64_t c = sh->count[m];
        sh->last[m] = sched::Self();
        sh->count[m] = c + 1;
        bool same = sh->last[m] == sched::Self();
        CONC_CHECK(same, "another thread wrote under mutex %d in the middle of thread %d's section", m, sched::Self());
    }
}

enum Way { kLock, kTry, kGuard, kUnique, kUniqueTry, kUniqueDefer, kUniqueRelock, kRetry, kNumWays };
enum Kind { kProbe, kSection, kBoth, kPost, kWait, kTimedWait, kNumKinds };
struct Op {
    uint8_t kind, mutex, way, reps, inner, probe;
};

static void Section(Shared* sh, const Op& op, int m, int way, int depth);

static void
Body(Shared* sh, const Op& op, int m, int depth) {
    Acquired(m);
    if (op.probe & 1)
        Probe(sh, m);
    if (op.probe & 2)
        Probe(sh, 1 - m);
    Inside(sh, m, op.reps);
    // The second mutex is always taken inside the first, so that no order of threads deadlocks.
    if (depth == 0 && m == 0 && (op.inner & 1))
        Section(sh, op, 1, (op.inner >> 1) % kNumWays, 1);
    if (op.probe & 4)
        Probe(sh, m);
    Releasing(m);
}

static void
Section(Shared* sh, const Op& op, int m, int way, int depth) {
    ke::Mutex& mu = *sh->m[m];
    size_t h = BeginAcquire(m);
    switch (way) {
        case kLock:
            mu.lock();
            Body(sh, op, m, depth);
            mu.unlock();
            break;
        case kTry:
            if (!mu.try_lock()) {
                CancelAcquire(h);
                return;
            }
            Body(sh, op, m, depth);
            mu.unlock();
            break;
        case kGuard: {
            std::lock_guard<ke::Mutex> l(mu);
            Body(sh, op, m, depth);
            break;
        }
        case kUnique: {
            std::unique_lock<ke::Mutex> l(mu);
            Body(sh, op, m, depth);
            std::unique_lock<ke::Mutex> k(std::move(l));
            break;
        }
        case kUniqueTry: {
            std::unique_lock<ke::Mutex> l(mu, std::try_to_lock);
            if (!l.owns_lock()) {
                CancelAcquire(h);
                return;
            }
            Body(sh, op, m, depth);
            break;
        }
        case kUniqueDefer: {
            std::unique_lock<ke::Mutex> l(mu, std::defer_lock);
            if (op.probe & 2)
                Probe(sh, m);
            l.lock();
            Body(sh, op, m, depth);
            break;
        }
        case kUniqueRelock: {
            std::unique_lock<ke::Mutex> l(mu);
            Body(sh, op, m, 1);
            l.unlock();
            if (op.probe & 2)
                Probe(sh, m);
            l.lock();
            Body(sh, op, m, depth);
            break;
        }
        case kRetry: {
            // Give up after a few attempts.
            bool got = false;
            for (int i = 0; i < 3 && !got; i++) {
                got = mu.try_lock();
                if (!got) {
                    CancelAcquire(h);
                    if (op.probe & 1)
                        Probe(sh, m);
                    h = BeginAcquire(m);
                }
            }
            if (!got) {
                sched::Ignore ig;
                g_book.holds[h].mutex = -1;
                return;
            }
            Body(sh, op, m, depth);
            mu.unlock();
            break;
        }
    }
    Released(h);
    if (op.probe & 4)
        Probe(sh, m);
}

static void
RunOps(Shared* sh, const std::vector<Op>& ops) {
    for (const Op& op : ops) {
        switch (op.kind) {
            case kProbe:
                Probe(sh, op.mutex);
                break;
            case kSection:
                Section(sh, op, op.mutex, op.way, 0);
                break;
            case kBoth: {
                size_t h0 = BeginAcquire(0), h1 = BeginAcquire(1);
                if (op.way & 1) {
                    std::lock(*sh->m[op.mutex], *sh->m[1 - op.mutex]);
                    std::lock_guard<ke::Mutex> a(*sh->m[0], std::adopt_lock), b(*sh->m[1], std::adopt_lock);
                    Acquired(0);
                    Acquired(1);
                    Probe(sh, 0);
                    Probe(sh, 1);
                    Inside(sh, 0, op.reps);
                    Inside(sh, 1, op.reps);
                    Releasing(1);
                    Releasing(0);
                } else {
                    std::scoped_lock<ke::Mutex, ke::Mutex> l(*sh->m[op.mutex], *sh->m[1 - op.mutex]);
                    Acquired(0);
                    Acquired(1);
                    Probe(sh, 0);
                    Probe(sh, 1);
                    Inside(sh, 0, op.reps);
                    Inside(sh, 1, op.reps);
                    Releasing(1);
                    Releasing(0);
                }
                Released(h0);
                Released(h1);
                break;
            }
            case kPost: {
                size_t h = BeginAcquire(0);
                sh->m[0]->lock();
                Acquired(0);
                sh->tokens++;
                if (op.way & 1)
                    sh->cv->notify_one();
                Releasing(0);
                sh->m[0]->unlock();
                Released(h);
                if (!(op.way & 1))
                    sh->cv->notify_all();
                break;
            }
            case kWait: {
                size_t h = BeginAcquire(0);
                std::unique_lock<ke::Mutex> l(*sh->m[0]);
                Acquired(0);
                while (!sh->tokens) {
                    if (op.probe & 1)
                        Probe(sh, 0);
                    Releasing(0);
                    sh->cv->wait(l);
                    Acquired(0);
                    Probe(sh, 0);
                }
                sh->tokens--;
                Inside(sh, 0, op.reps);
                Releasing(0);
                l.unlock();
                Released(h);
                if (op.probe & 2)
                    Probe(sh, 0);
                break;
            }
            case kTimedWait: {
                size_t h = BeginAcquire(0);
                sh->m[0]->lock();
                Acquired(0);
                if (!sh->tokens) {
                    Releasing(0);
                    sh->cv->wait_for(*sh->m[0], std::chrono::milliseconds(5));
                    Acquired(0);
                    Probe(sh, 0);
                }
                Inside(sh, 0, op.reps);
                Releasing(0);
                sh->m[0]->unlock();
                Released(h);
                break;
            }
        }
    }
}

static void
Case(vp::Src& s, bool waits) {
    size_t n = 1 + s.draw(kWorkers);
    std::vector<std::vector<Op>> ops(n + 1);
    bool one = s.coin();
    g_book.holds.clear();
    g_book.failed.clear();
    g_book.waits = 0;
    for (int m = 0; m < kMutexes; m++) {
        g_book.holder[m] = -1;
        g_book.sections[m] = 0;
    }
    for (size_t i = 0; i <= n; i++) {
        size_t k = s.draw(4) + (i ? 1 : 0);
        for (size_t j = 0; j < k; j++) {
            Op op;
            op.kind = uint8_t(s.draw(waits ? kNumKinds : 3));
            if (op.kind == kProbe && s.coin())
                op.kind = kSection;
            op.mutex = uint8_t(s.draw(2));
            if (one)
                op.mutex = 0;
            op.way = uint8_t(s.draw(kNumWays));
            op.reps = uint8_t(s.draw(3));
            op.inner = uint8_t(s.chance(1, 3) ? 1 + 2 * s.draw(kNumWays) : 0);
            op.probe = uint8_t(s.draw(8));
            if (one && op.kind == kBoth)
                op.kind = kSection;
            // The first thread provides what the others wait for at the end.
            if (i == 0 && op.kind == kWait)
                op.kind = kTimedWait;
            if (op.kind == kWait)
                g_book.waits++;
            ops[i].push_back(op);
        }
    }
    {
        conc::Run run(s);
        Shared* sh = new Shared();
        for (int m = 0; m < kMutexes; m++)
            sh->m[m] = new ke::Mutex();
        sh->cv = new std::condition_variable_any();
        {
            std::vector<std::thread> threads;
            threads.reserve(n);
            for (size_t i = 1; i <= n; i++)
                threads.emplace_back([sh, &ops, i] { RunOps(sh, ops[i]); });
            RunOps(sh, ops[0]);
            for (size_t i = 0; i < g_book.waits; i++) {
                size_t h = BeginAcquire(0);
                sh->m[0]->lock();
                Acquired(0);
                sh->tokens++;
                Releasing(0);
                sh->m[0]->unlock();
                Released(h);
                sh->cv->notify_all();
            }
            for (auto& t : threads)
                t.join();
        }
        for (int m = 0; m < kMutexes; m++) {
            Probe(sh, m);
            bool got = sh->m[m]->try_lock();
            CONC_CHECK(got, "try_lock failed on mutex %d, which nobody holds", m);
            Acquired(m);
            Probe(sh, m);
            Releasing(m);
            sh->m[m]->unlock();
            Probe(sh, m);
            delete sh->m[m];
        }
        delete sh->cv;
        delete sh;
    }
    bool contended = false;
    for (auto& f : g_book.failed) {
        bool excused = false;
        for (auto& h : g_book.holds)
            excused |= h.mutex == f.mutex && h.thread != f.thread && h.from <= f.to && (!h.to || h.to >= f.from);
        VP_CHECK(excused, "try_lock in thread %d failed on mutex %d, which nobody else held", f.thread, f.mutex);
        contended = true;
    }
    for (auto& a : g_book.holds) {
        for (auto& b : g_book.holds)
            contended |= a.mutex >= 0 && a.mutex == b.mutex && a.thread != b.thread && a.from > b.from && a.from < b.to;
    }
    if (!g_book.failed.empty())
        s.mark("try_lock failed");
    if (contended)
        s.nontrivial();
}

VP_TARGET(Sections, 60000, 3000000, 0) {
    Case(s, false);
}
VP_TARGET(Waits, 60000, 3000000, 0) {
    Case(s, true);
}
