// C12: thread-safe reference counts destroy exactly once, after everything that was done before.
// Non-trivial: at least two preemptions happened while the references were in use.
#include "../engine/vp.h"

#include "common/conc.h"
#include "common/sizes.h"

#include <amtl/am-refcounting-threadsafe.h>

static const int kMax = 5;

// What the harness knows; only touched with the scheduler's attention off.
struct Book {
    int held[kMax];
    int destroyed;
    int destroyer;
    void reset() {
        memset(this, 0, sizeof(*this));
        destroyer = -1;
    }
};
static Book g_book;

// Work done on an object while a reference is held: plain memory, one slot per thread.
struct Payload {
    int slots[kMax];
    int stamp;
    Payload()
     : slots(),
       stamp(0x5eed)
    {}
    void use(int who) {
        slots[who]++;
        CONC_CHECK(stamp == 0x5eed, "thread %d uses an object that was destroyed", who);
    }
    // Called by the destructor: reads what every thread wrote.
    void finish() {
        int sum = 0;
        for (int i = 0; i < kMax; i++)
            sum += slots[i];
        stamp = sum;
        sched::Ignore ig;
        for (int i = 0; i < kMax; i++)
            VP_CHECK(g_book.held[i] == 0, "destroyed by thread %d while thread %d holds %d references", sched::Self(), i,
                     g_book.held[i]);
        VP_CHECK(++g_book.destroyed == 1, "destroyed twice");
        g_book.destroyer = sched::Self();
    }
};

struct Plain : public ke::RefcountedThreadsafe<Plain> {
    Payload p;
    ~Plain() {
        p.finish();
    }
};
struct Virtual : public ke::VirtualRefcountedThreadsafe {
    Payload p;
    ~Virtual() {
        p.finish();
    }
};
struct Other {
    virtual ~Other() {}
    long pad = 7;
};
struct DerivedVirtual : public Other, public Virtual {
    int more = 3;
};
struct Forwarded : public ke::IRefcounted, public ke::RefcountedThreadsafe<Forwarded> {
    KE_IMPL_REFCOUNTING_TS(Forwarded)
    Payload p;
    virtual ~Forwarded() {
        p.finish();
    }
};

static void
Drop(Plain* o) {
    bool alive = o->Release();
    sched::Ignore ig;
    bool mine = g_book.destroyed && g_book.destroyer == sched::Self();
    VP_CHECK(alive == !mine, "Release() in thread %d returned %s but the object was %s by it", sched::Self(),
             alive ? "true" : "false", mine ? "destroyed" : "not destroyed");
}
static void
Drop(Virtual* o) {
    o->Release();
}
static void
Drop(Forwarded* o) {
    o->Release();
}

static void
Count(int who, int by) {
    sched::Ignore ig;
    g_book.held[who] += by;
}

enum Op { kUse, kAddRef, kRelease, kPointer, kCopy, kMove, kAdopt, kTake, kAssign, kNumOps };

template <typename T>
static void
Work(T* o, int who, const std::vector<uint8_t>& ops, int start) {
    // |start| references are this thread's own.
    int own = start;
    for (uint8_t op : ops) {
        if (!own)
            return;
        switch (op) {
            case kUse:
                o->p.use(who);
                break;
            case kAddRef:
                o->AddRef();
                Count(who, 1);
                own++;
                break;
            case kRelease:
                Count(who, -1);
                own--;
                Drop(o);
                break;
            case kPointer: {
                ke::RefPtr<T> p(o);
                p->p.use(who);
                break;
            }
            case kCopy: {
                ke::RefPtr<T> p(o);
                ke::RefPtr<T> q(p);
                p = nullptr;
                q->p.use(who);
                break;
            }
            case kMove: {
                ke::RefPtr<T> p(o);
                ke::RefPtr<T> q(std::move(p));
                q->p.use(who);
                break;
            }
            case kAdopt: {
                // Hands one of our references to a smart pointer, which drops it.
                ke::RefPtr<T> p(ke::AdoptRef(o));
                p->p.use(who);
                Count(who, -1);
                own--;
                break;
            }
            case kTake: {
                ke::RefPtr<T> p(o);
                T* raw = p.take().take();
                Count(who, 1);
                own++;
                raw->p.use(who);
                break;
            }
            case kAssign: {
                ke::RefPtr<T> p(o), q;
                q = p;
                p = q;
                q = q;
                p->p.use(who);
                break;
            }
        }
    }
    while (own--) {
        Count(who, -1);
        Drop(o);
    }
}

template <typename T>
static void
Case(vp::Src& s) {
    size_t n = 2 + s.draw(3);
    std::vector<std::vector<uint8_t>> ops(n + 1);
    std::vector<int> refs(n + 1);
    for (size_t i = 0; i <= n; i++) {
        refs[i] = 1 + int(s.draw(2));
        size_t k = s.draw(6);
        for (size_t j = 0; j < k; j++)
            ops[i].push_back(uint8_t(s.draw(kNumOps)));
    }
    bool last = s.coin(); // thread 0 keeps its references until the others have finished
    bool started_with_pointer = s.coin();
    g_book.reset();
    if (vp::g_describe) {
        static const char* const names[] = {"use", "AddRef", "Release", "pointer", "copy", "move", "adopt", "take", "assign"};
        for (size_t i = 0; i <= n; i++) {
            std::string t;
            for (uint8_t o : ops[i])
                t += std::string(" ") + names[o];
            VP_LOG("thread %zu: %d references,%s then releases what it holds", i, refs[i], t.c_str());
        }
    }
    uint64_t switches;
    {
        conc::Run run(s);
        T* o = new T();
        for (size_t i = 0; i <= n; i++) {
            for (int j = 0; j < refs[i]; j++)
                o->AddRef();
            Count(int(i), refs[i]);
        }
        std::vector<std::thread> threads;
        threads.reserve(n);
        for (size_t i = 1; i <= n; i++) {
            if (started_with_pointer) {
                // The reference travels to the thread inside a smart pointer.
                ke::RefPtr<T> p(ke::AdoptRef(o));
                threads.emplace_back([p = std::move(p), i, &ops, &refs]() mutable {
                    T* raw = p.take().take();
                    Work(raw, int(i), ops[i], refs[i]);
                });
            } else {
                threads.emplace_back([o, i, &ops, &refs] { Work(o, int(i), ops[i], refs[i]); });
            }
        }
        if (!last)
            Work(o, 0, ops[0], refs[0]);
        for (auto& t : threads)
            t.join();
        if (last) {
            CONC_CHECK(g_book.destroyed == 0, "destroyed while thread 0 still holds references");
            Work(o, 0, ops[0], refs[0]);
        }
        switches = sched::Switches();
    }
    VP_CHECK(g_book.destroyed == 1, "every reference was released but the object was destroyed %d times", g_book.destroyed);
    if (switches >= n + 3)
        s.nontrivial();
    s.mark(g_book.destroyer == 0 ? "destroyed by the first thread" : "destroyed by another thread");
}

VP_TARGET(PlainBase, 60000, 3000000, 0) {
    Case<Plain>(s);
}
VP_TARGET(VirtualBase, 60000, 3000000, 0) {
    if (s.coin())
        Case<Virtual>(s);
    else
        Case<DerivedVirtual>(s);
}
VP_TARGET(ForwardedBase, 60000, 3000000, 0) {
    Case<Forwarded>(s);
}

// So many references that a narrow count would wrap; one thread.
template <typename T>
static void
Many(vp::Src& s) {
    size_t n = LargeSize(s, 300000);
    g_book.reset();
    VP_LOG("%zu references", n);
    T* o = new T();
    g_book.held[0] = int(n);
    for (size_t i = 0; i < n; i++)
        o->AddRef();
    size_t smart = s.draw(4);
    for (size_t i = 0; i < smart; i++) {
        ke::RefPtr<T> p(o);
        p->p.use(0);
    }
    VP_CHECK(g_book.destroyed == 0, "destroyed with %zu references", n);
    for (size_t i = 0; i < n; i++) {
        g_book.held[0]--;
        VP_CHECK(g_book.destroyed == 0, "destroyed with %zu of %zu references left", n - i, n);
        o->Release();
    }
    VP_CHECK(g_book.destroyed == 1, "%zu references were released but the object was destroyed %d times", n, g_book.destroyed);
    if (n > 256)
        s.nontrivial();
}
VP_TARGET(ManyReferences, 1200, 40000, 0) {
    switch (s.draw(3)) {
        case 0:
            Many<Plain>(s);
            break;
        case 1:
            Many<Virtual>(s);
            break;
        default:
            Many<Forwarded>(s);
    }
}
