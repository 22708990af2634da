// C13: reads and assignments of an atomic reference are linearizable, keep what they return alive and
// publish what was done before.
// Non-trivial: two operations on one reference overlap in time and at least one is an assignment.
#include "../engine/vp.h"

#include "common/conc.h"

#include <set>

#include <amtl/am-refcounting-threadsafe.h>

static const int kThreads = 4;  // the first thread included
static const int kObjects = 40; // made in one case at most

struct Book {
    int made;
    int destroyed[kObjects];
    int held[kObjects]; // references the threads hold themselves
    bool noted[kObjects][kThreads];
    int started[2], finished[2]; // assignments
    int noter[2]; // who wrote a note into the object just before the last assignment; -1 nobody
};
static Book g_book;
static vp::Src* g_src;

struct Data {
    int id;
    int twice;
    int note[kThreads] = {};
    explicit Data(int n)
     : id(n),
       twice(2 * n)
    {}
    // Plain reads of what the maker wrote.
    int look() const {
        int a = id;
        int b = twice;
        CONC_CHECK(b == 2 * a && a >= 0 && a < kObjects, "an object obtained from the reference is half made or dead");
        return a;
    }
    void finish() {
        int a = id;
        id = -1;
        twice = -1;
        sched::Ignore ig;
        VP_CHECK(a >= 0 && a < kObjects, "destroyed twice");
        VP_CHECK(g_book.held[a] == 0, "object %d is destroyed while references to it are held", a);
        VP_CHECK(++g_book.destroyed[a] == 1, "object %d is destroyed twice", a);
    }
};
struct Plain : public ke::RefcountedThreadsafe<Plain> {
    Data d;
    explicit Plain(int n)
     : d(n)
    {}
    ~Plain();
};
struct Virtual : public ke::VirtualRefcountedThreadsafe {
    Data d;
    explicit Virtual(int n)
     : d(n)
    {}
    ~Virtual();
};

struct Event {
    bool assign;
    int ref;
    int value; // id, -1 null
    int thread;
    uint64_t from, to;
};
static std::vector<Event> g_events;

static bool
Linearize(const std::vector<Event>& ev, uint32_t done, int value, std::set<std::pair<uint32_t, int>>& seen) {
    if (done == (1u << ev.size()) - 1)
        return true;
    if (!seen.insert({done, value}).second)
        return false;
    // An operation may come next unless another one that is not done yet ended before it began.
    uint64_t first_end = UINT64_MAX;
    for (size_t i = 0; i < ev.size(); i++) {
        if (!(done >> i & 1))
            first_end = std::min(first_end, ev[i].to);
    }
    for (size_t i = 0; i < ev.size(); i++) {
        if ((done >> i & 1) || ev[i].from > first_end)
            continue;
        if (!ev[i].assign && ev[i].value != value)
            continue;
        if (Linearize(ev, done | 1u << i, ev[i].assign ? ev[i].value : value, seen))
            return true;
    }
    return false;
}

enum Op { kGet, kAssignNew, kAssignNull, kAssignHeld, kDropHeld, kGetTwice, kMoveAcross, kAssignNoted, kNumOps };
struct Step {
    uint8_t op, ref;
};

static int
NewId() {
    sched::Ignore ig;
    VP_CHECK(g_book.made < kObjects, "harness limit");
    return g_book.made++;
}
template <typename T>
static int
IdOf(T* p) {
    return p ? p->d.look() : -1;
}
static void
Hold(int id, int by) {
    sched::Ignore ig;
    if (id >= 0)
        g_book.held[id] += by;
}

template <typename T>
struct Shared {
    ke::AtomicRef<T>* refs[2];
};

template <typename F>
static void
Record(bool assign, int ref, F&& f, int noter = -1) {
    if (assign) {
        sched::Ignore ig;
        g_book.noter[ref] = g_book.started[ref] == g_book.finished[ref] ? noter : -1;
        g_book.started[ref]++;
    }
    uint64_t from = sched::Now();
    int v = f();
    uint64_t to = sched::Now();
    sched::Ignore ig;
    if (assign)
        g_book.finished[ref]++;
    g_events.push_back({assign, ref, v, sched::Self(), from, to});
    VP_LOG("thread %d %s %d: %d  [%" PRIu64 ", %" PRIu64 "]", sched::Self(), assign ? "assigns reference" : "gets reference",
           ref, v, from, to);
}

// Some objects look at a reference while they are destroyed; their destruction must not happen inside
// an operation that keeps the reference busy.
static void* g_reenter[kObjects];
static int g_reenter_ref[kObjects];

template <typename T>
static void
Destroyed(Data& d) {
    int id = d.id;
    void* to;
    int ref;
    {
        sched::Ignore ig;
        VP_CHECK(id >= 0 && id < kObjects, "destroyed twice");
        to = g_reenter[id];
        ref = g_reenter_ref[id];
    }
    d.finish();
    if (to) {
        Record(false, ref, [&] {
            ke::RefPtr<T> p(static_cast<ke::AtomicRef<T>*>(to)->get());
            T* raw = p;
            return IdOf(raw);
        });
    }
}
Plain::~Plain() {
    Destroyed<Plain>(d);
}
Virtual::~Virtual() {
    Destroyed<Virtual>(d);
}

template <typename T>
static void
Work(Shared<T>* sh, const std::vector<Step>& steps) {
    ke::RefPtr<T> held;
    int held_id = -1;
    auto set_held = [&](ke::AlreadyRefed<T>&& got, int id) {
        Hold(held_id, -1);
        held = std::move(got);
        held_id = id;
    };
    for (const Step& st : steps) {
        ke::AtomicRef<T>& ref = *sh->refs[st.ref];
        switch (st.op) {
            case kGet:
            case kGetTwice: {
                ke::AlreadyRefed<T> got(nullptr);
                int id = -1;
                int before;
                bool quiet;
                {
                    sched::Ignore ig;
                    before = g_book.started[st.ref];
                    quiet = before == g_book.finished[st.ref];
                }
                Record(false, st.ref, [&] {
                    ke::AlreadyRefed<T> g = ref.get();
                    T* raw = g.take();
                    id = IdOf(raw);
                    Hold(id, 1);
                    set_held(ke::AdoptRef(raw), id);
                    return id;
                });
                int noter = -1;
                {
                    // No assignment was under way, so this is the object that the last one published.
                    sched::Ignore ig;
                    if (quiet && g_book.started[st.ref] == before)
                        noter = g_book.noter[st.ref];
                }
                T* published = held;
                if (published && noter >= 0) {
                    int found = published->d.note[noter];
                    CONC_CHECK(found == noter + 1,
                               "what thread %d wrote into the object before assigning it is lost", noter);
                    sched::Ignore ig;
                    g_src->mark("note read");
                }
                if (st.op == kGetTwice) {
                    // A second, short-lived reference.
                    Record(false, st.ref, [&] {
                        ke::RefPtr<T> p(ref.get());
                        T* raw = p;
                        return IdOf(raw);
                    });
                }
                break;
            }
            case kAssignNew: {
                int id = NewId();
                T* obj = new T(id);
                Record(true, st.ref, [&] {
                    ref = obj;
                    return id;
                });
                break;
            }
            case kAssignNull:
                Record(true, st.ref, [&] {
                    ref = nullptr;
                    return -1;
                });
                break;
            case kAssignHeld:
                Record(true, st.ref, [&] {
                    ref = held;
                    return held_id;
                });
                break;
            case kAssignNoted: {
                // Something is written into the object first, whether or not it is the current one already.
                int self = sched::Self();
                T* obj = held;
                bool write = false;
                if (obj) {
                    sched::Ignore ig;
                    write = self < kThreads && !g_book.noted[held_id][self];
                    if (write)
                        g_book.noted[held_id][self] = true;
                }
                if (write)
                    obj->d.note[self] = self + 1;
                Record(
                    true, st.ref,
                    [&] {
                        ref = held;
                        return held_id;
                    },
                    write ? self : -1);
                break;
            }
            case kDropHeld:
                Hold(held_id, -1);
                held_id = -1;
                held = nullptr;
                break;
            case kMoveAcross: {
                int id = -1;
                ke::RefPtr<T> p;
                Record(false, st.ref, [&] {
                    p = ref.get();
                    T* raw = p;
                    id = IdOf(raw);
                    Hold(id, 1);
                    return id;
                });
                Record(true, 1 - st.ref, [&] {
                    *sh->refs[1 - st.ref] = p;
                    return id;
                });
                Hold(id, -1);
                break;
            }
        }
        if (held_id >= 0)
            CONC_CHECK(!g_book.destroyed[held_id], "object %d died while a reference to it is held", held_id);
        T* raw = held;
        if (raw)
            raw->d.look();
    }
    Hold(held_id, -1);
}

template <typename T>
static void
Case(vp::Src& s) {
    size_t n = 1 + s.draw(kThreads - 1);
    std::vector<std::vector<Step>> steps(n + 1);
    size_t ops[2] = {0, 0};
    bool one = s.coin(); // all on one reference
    for (size_t i = 0; i <= n; i++) {
        size_t k = 1 + s.draw(4);
        for (size_t j = 0; j < k; j++) {
            Step st;
            st.op = uint8_t(s.draw(kNumOps));
            st.ref = uint8_t(s.draw(2));
            if (one)
                st.ref = 0;
            size_t cost = st.op == kDropHeld ? 0 : st.op == kGetTwice ? 2 : 1;
            ops[st.ref] += cost;
            if (st.op == kMoveAcross)
                ops[1 - st.ref]++;
            if (ops[0] > 12 || ops[1] > 12)
                break;
            steps[i].push_back(st);
        }
    }
    int init[2] = {-1, -1};
    memset(&g_book, 0, sizeof(g_book));
    g_book.noter[0] = g_book.noter[1] = -1;
    g_src = &s;
    g_events.clear();
    for (int r = 0; r < 2; r++) {
        if (s.coin())
            init[r] = g_book.made++;
        VP_LOG("reference %d starts as %d", r, init[r]);
    }
    memset(g_reenter, 0, sizeof(g_reenter));
    int curious[3] = {-1, -1, -1};
    size_t ncurious = s.draw(4);
    for (size_t i = 0; i < ncurious; i++) {
        curious[i] = int(s.draw(8));
        g_reenter_ref[curious[i]] = one ? 0 : int(s.draw(2));
        VP_LOG("object %d looks at reference %d when it is destroyed", curious[i], g_reenter_ref[curious[i]]);
    }
    {
        conc::Run run(s);
        Shared<T> sh;
        for (int r = 0; r < 2; r++)
            sh.refs[r] = init[r] >= 0 ? new ke::AtomicRef<T>(new T(init[r])) 
                      : s.coin()   ? new ke::AtomicRef<T>(nullptr)
                                   : new ke::AtomicRef<T>();
        for (size_t i = 0; i < ncurious; i++)
            g_reenter[curious[i]] = sh.refs[g_reenter_ref[curious[i]]];
        {
            std::vector<std::thread> threads;
            threads.reserve(n);
            for (size_t i = 1; i <= n; i++)
                threads.emplace_back([&sh, &steps, i] { Work(&sh, steps[i]); });
            Work(&sh, steps[0]);
            for (auto& t : threads)
                t.join();
        }
        {
            sched::Ignore ig;
            memset(g_reenter, 0, sizeof(g_reenter));
        }
        for (int r = 0; r < 2; r++) {
            Record(false, r, [&] {
                ke::RefPtr<T> p(sh.refs[r]->get());
                T* raw = p;
                return IdOf(raw);
            });
        }
        {
            // Nothing but the references themselves keeps objects alive now.
            sched::Ignore ig;
            for (int i = 0; i < g_book.made; i++) {
                bool current = false;
                for (size_t e = g_events.size() - 2; e < g_events.size(); e++)
                    current |= g_events[e].value == i;
                VP_CHECK(g_book.held[i] == 0, "harness error");
                VP_CHECK(g_book.destroyed[i] == (current ? 0 : 1), "object %d is %s and %s", i,
                         current ? "in a reference" : "in no reference", g_book.destroyed[i] ? "destroyed" : "alive");
            }
        }
        for (int r = 0; r < 2; r++)
            delete sh.refs[r];
    }
    for (int i = 0; i < g_book.made; i++)
        VP_CHECK(g_book.destroyed[i] == 1, "object %d is destroyed %d times in all", i, g_book.destroyed[i]);
    bool overlap = false;
    for (int r = 0; r < 2; r++) {
        std::vector<Event> ev;
        for (auto& e : g_events) {
            if (e.ref == r)
                ev.push_back(e);
        }
        for (auto& a : ev) {
            for (auto& b : ev)
                overlap |= &a != &b && a.assign && a.from < b.to && b.from < a.to;
        }
        std::set<std::pair<uint32_t, int>> seen;
        VP_CHECK(Linearize(ev, 0, init[r], seen), "no order of the operations on reference %d explains what they returned", r);
    }
    if (overlap)
        s.nontrivial();
}

VP_TARGET(PlainObjects, 60000, 3000000, 0) {
    Case<Plain>(s);
}
VP_TARGET(VirtualObjects, 40000, 2000000, 0) {
    Case<Virtual>(s);
}
