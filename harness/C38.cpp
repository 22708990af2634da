// C38: user code that the library calls may use the library itself.
// Non-trivial: at least one operation ran to its end inside a call that the library made.
#include "../engine/vp.h"

#include <assert.h>
#include <stdlib.h>

#include <algorithm>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include <amtl/am-deque.h>
#include <amtl/am-fixedarray.h>
#include <amtl/am-function.h>
#include <amtl/am-hashmap.h>
#include <amtl/am-hashset.h>
#include <amtl/am-inlinelist.h>
#include <amtl/am-maybe.h>
#include <amtl/am-mutex.h>
#include <amtl/am-priority-queue.h>
#include <amtl/am-raii.h>
#include <amtl/am-refcounting-threadsafe.h>
#include <amtl/am-refcounting.h>
#include <amtl/am-string.h>
#include <amtl/am-thread.h>
#include <amtl/am-threadlocal.h>
#include <amtl/am-time.h>
#include <amtl/am-vector.h>
#include <amtl/experimental/am-argparser.h>
#include <amtl/os/am-path.h>
#include <amtl/os/am-system-errors.h>

#include "common/track.h"

// ---- What the library calls, and what may happen there. ----
static vp::Src* S;
static unsigned depth, budget, gap, pace, nested;
static void Op();

static void
Hook() {
    if (!S || !budget || depth >= 3)
        return;
    if (gap) {
        gap--;
        return;
    }
    gap = unsigned(S->draw(pace));
    budget--;
    depth++;
    VP_LOG("%*s{\n", depth * 2, "");
    Op();
    VP_LOG("%*s}\n", depth * 2, "");
    depth--;
    nested++;
}
#define OP_LOG(fmt, ...) VP_LOG("%*s" fmt "\n", depth * 2 + 2, "" __VA_OPT__(, ) __VA_ARGS__)

// A value whose every member calls out.
struct H {
    tk::Val v;
    H()
     : v(0)
    {
        Hook();
    }
    explicit H(long i)
     : v(i)
    {
        Hook();
    }
    H(const H& o)
     : v(o.v)
    {
        Hook();
    }
    H(H&& o)
     : v(std::move(o.v))
    {
        Hook();
    }
    H& operator =(const H& o) {
        v = o.v;
        Hook();
        return *this;
    }
    H& operator =(H&& o) {
        v = std::move(o.v);
        Hook();
        return *this;
    }
    ~H() {
        Hook();
    }
    long n() const {
        return v.v();
    }
    bool operator ==(const H& o) const {
        Hook();
        return n() == o.n();
    }
    bool operator !=(const H& o) const {
        Hook();
        return n() != o.n();
    }
};

// An allocator that calls out.
struct Alloc {
    void reportOutOfMemory() {
        vp::Fail("an allocation failed");
    }
    void reportAllocationOverflow() {
        vp::Fail("an allocation overflowed");
    }
    void am_free(void* p) {
        Hook();
        free(p);
    }
    void* am_malloc(size_t bytes) {
        Hook();
        void* p = malloc(bytes);
        Hook();
        return p;
    }
};

// ---- Tables ----
// The table a lookup is going on in, which the functions that it calls may look into, too.
struct Looker {
    virtual void look() = 0;
};
static Looker* looking;

static void
LookHook() {
    if (Looker* l = looking) {
        if (S && budget && S->draw(pace * 2) == 1) {
            looking = nullptr;
            budget--;
            nested++;
            l->look();
            looking = l;
        }
    }
    Looker* saved = looking;
    looking = nullptr;
    Hook();
    looking = saved;
}
struct IntPolicy {
    static uint32_t hash(long k) {
        LookHook();
        return uint32_t(k % 17);  // collisions call matches()
    }
    static bool matches(long a, long b) {
        LookHook();
        return a == b;
    }
};
template <typename A>
static void
MapOp(vp::Src& s) {
    typedef ke::HashMap<long, H, IntPolicy, A> C;
    std::unique_ptr<C> c(new C());
    VP_CHECK(c->init(), "init failed");
    std::map<long, long> m;
    struct Look : public Looker {
        C* c;
        std::map<long, long>* m;
        void look() override {
            long k = long(S->draw(40));
            auto r = c->find(k);
            auto in = m->find(k);
            OP_LOG("look up %ld in the same map", k);
            VP_CHECK(r.found() == (in != m->end()), "key %ld is%s found from inside a lookup", k, r.found() ? "" : " not");
            if (r.found())
                VP_CHECK(r->value.n() == in->second, "key %ld has another value inside a lookup", k);
        }
    } look;
    look.c = c.get();
    look.m = &m;
    long next = 1;
    // As a rule quick to grow.
    long keys = 1 + long(s.draw(40));
    for (size_t steps = 0; steps < 40 && s.more(depth ? 6 : 20); steps++) {
        long k = long(s.draw(uint64_t(keys)));
        auto in = m.find(k);
        unsigned op = unsigned(s.draw(9));
        OP_LOG("map: operation %u on key %ld", op, k);
        switch (op) {
            case 6:
                // Enough to grow.
                for (long i = 0, n = 13 + long(s.draw(20)); i < n; i++) {
                    auto p = c->findForAdd(50 + i);
                    bool there = m.count(50 + i) == 1;
                    VP_CHECK(p.found() == there, "key %ld is%s in the map", 50 + i, there ? " not" : "");
                    if (there)
                        continue;
                    VP_CHECK(c->add(p, 50 + i, H(next)), "add failed");
                    m[50 + i] = next++;
                }
                break;
            case 0:
            case 1:
            case 2:
            case 3: {
                looking = &look;
                auto p = c->findForAdd(k);
                looking = nullptr;
                VP_CHECK(p.found() == (in != m.end()), "key %ld is%s in the map", k, p.found() ? "" : " not");
                if (!p.found()) {
                    VP_CHECK(c->add(p, k, H(next)), "add failed");
                    VP_CHECK(p->value.n() == next, "the insertion handle shows another value");
                    m[k] = next++;
                } else {
                    p->value = H(next);
                    in->second = next++;
                }
                break;
            }
            case 4:
                c->removeIfExists(k);
                m.erase(k);
                break;
            case 5: {
                looking = &look;
                auto r = c->find(k);
                looking = nullptr;
                VP_CHECK(r.found() == (in != m.end()), "key %ld is%s in the map", k, r.found() ? "" : " not");
                if (r.found()) {
                    VP_CHECK(r->value.n() == in->second, "key %ld has %ld, expected %ld", k, r->value.n(), in->second);
                    Hook();
                    VP_CHECK(r->value.n() == in->second, "a result changed meanwhile");
                    if (s.coin()) {
                        c->remove(r);
                        m.erase(in);
                    }
                }
                break;
            }
            case 7: {
                C d(std::move(*c));
                Hook();
                c.reset(new C(std::move(d)));
                look.c = c.get();
                break;
            }
            default: {
                bool erase = s.draw(4) == 3;
                size_t n = 0;
                for (auto i = c->iter(); !i.empty(); i.next()) {
                    n++;
                    long key = i->key;
                    auto f = m.find(key);
                    VP_CHECK(f != m.end() && i->value.n() == f->second, "iteration shows key %ld wrongly", key);
                    Hook();
                    if (erase && key % 2) {
                        i.erase();
                        m.erase(f);
                        n--;
                    }
                }
                VP_CHECK(n == m.size(), "iteration shows %zu entries, expected %zu", n, m.size());
                if (s.draw(8) == 7) {
                    c->clear();
                    m.clear();
                }
            }
        }
        VP_CHECK(c->elements() == m.size(), "the map has %zu elements, expected %zu", c->elements(), m.size());
    }
    for (auto& e : m) {
        auto r = c->find(e.first);
        VP_CHECK(r.found() && r->value.n() == e.second, "key %ld is lost or wrong", e.first);
    }
}

struct TextPolicy {
    static uint32_t hash(const std::string& k) {
        LookHook();
        return ke::HashCharSequence(k.c_str(), k.size()) % 11;
    }
    static bool matches(const std::string& a, const std::string& b) {
        LookHook();
        return a == b;
    }
};
static void
SetOp(vp::Src& s) {
    ke::HashSet<std::string, TextPolicy> c;
    VP_CHECK(c.init(), "init failed");
    std::map<std::string, int> m;
    for (size_t steps = 0; steps < 40 && s.more(depth ? 6 : 20); steps++) {
        std::string k = "name" + std::to_string(s.draw(30));
        if (s.coin())
            k += " which is longer than the others are";
        unsigned op = unsigned(s.draw(4));
        OP_LOG("set: operation %u on %s", op, k.c_str());
        switch (op) {
            case 0:
            case 1:
                c.add(k);
                m[k] = 1;
                break;
            case 2:
                c.removeIfExists(k);
                m.erase(k);
                break;
            default:
                VP_CHECK(c.has(k) == (m.count(k) == 1), "%s is%s in the set", k.c_str(), c.has(k) ? "" : " not");
        }
        VP_CHECK(c.elements() == m.size(), "the set has %zu elements, expected %zu", c.elements(), m.size());
    }
    for (auto& e : m)
        VP_CHECK(c.has(e.first), "%s is lost", e.first.c_str());
}

// ---- Queues, arrays, vectors ----
struct Order {
    long salt = 0;
    bool operator ()(const H& a, const H& b) const {
        Hook();
        return (a.n() ^ salt) < (b.n() ^ salt);
    }
};
static void
QueueOp(vp::Src& s) {
    Order o;
    o.salt = long(s.draw(8));
    ke::PriorityQueue<H, Order> q(o);
    std::vector<long> m;
    auto better = [&](long a, long b) { return (a ^ o.salt) < (b ^ o.salt); };
    auto serve = [&] {
        auto best = std::min_element(m.begin(), m.end(), better);
        VP_CHECK(q.peek().n() == *best, "peek shows %ld, expected %ld", q.peek().n(), *best);
        H got = q.pop();
        VP_CHECK(got.n() == *best, "pop gave %ld, expected %ld", got.n(), *best);
        m.erase(best);
    };
    for (size_t steps = 0; steps < 40 && s.more(depth ? 6 : 20); steps++) {
        long v = long(s.draw(60));
        unsigned op = unsigned(s.draw(6));
        OP_LOG("queue: operation %u with %ld", op, v);
        switch (op) {
            case 5:
                for (unsigned i = 2 + unsigned(s.draw(12)); i-- > 0;) {
                    long w = long(s.draw(60));
                    q.emplace(w);
                    m.push_back(w);
                }
                break;
            case 0:
            case 1:
                q.add(H(v));
                m.push_back(v);
                break;
            case 2:
                q.emplace(v);
                m.push_back(v);
                break;
            default:
                if (!m.empty())
                    serve();
        }
        VP_CHECK(q.empty() == m.empty(), "the queue is%s empty", q.empty() ? "" : " not");
    }
    while (!m.empty())
        serve();
    VP_CHECK(q.empty(), "the queue has one too many");
}
template <typename C>
static void
Same(C& x, const std::vector<long>& y, const char* what) {
    VP_CHECK(x.size() == y.size(), "%s has %zu elements, expected %zu", what, x.size(), y.size());
    for (size_t i = 0; i < y.size(); i++)
        VP_CHECK(x[i].n() == y[i], "%s: element %zu is %ld, expected %ld", what, i, x[i].n(), y[i]);
}
static void
ArrayOp(vp::Src& s) {
    typedef ke::FixedArray<H, Alloc> C;
    size_t n[2] = {size_t(s.draw(6)), size_t(s.draw(6))};
    C a(n[0]), b(n[1]);
    C* x[2] = {&a, &b};
    std::vector<long> y[2] = {std::vector<long>(n[0]), std::vector<long>(n[1])};
    for (size_t steps = 0; steps < 20 && s.more(depth ? 4 : 10); steps++) {
        size_t w = s.draw(2);
        unsigned op = unsigned(s.draw(6));
        OP_LOG("arrays of %zu and %zu: operation %u on %zu", y[0].size(), y[1].size(), op, w);
        switch (op) {
            case 0:
            case 1:
                if (!y[w].empty()) {
                    size_t at = s.draw(y[w].size());
                    long v = long(s.draw(100));
                    x[w]->at(at) = H(v);
                    y[w][at] = v;
                }
                break;
            case 2:
                *x[w] = *x[1 - w];
                y[w] = y[1 - w];
                break;
            case 3:
                *x[w] = std::move(*x[1 - w]);
                y[w] = y[1 - w];
                y[1 - w].clear();
                break;
            case 4: {
                C c(*x[w]);
                Same(c, y[w], "a copy");
                bool eq = *x[0] == *x[1];
                VP_CHECK(eq == (y[0] == y[1]), "the arrays compare %s", eq ? "equal" : "different");
                break;
            }
            default: {
                std::vector<H> v;
                for (long i : y[w])
                    v.emplace_back(i);
                C c(v), d(std::move(v));
                Same(c, y[w], "an array from a vector");
                Same(d, y[w], "an array from a moved vector");
            }
        }
        Same(a, y[0], "array 0");
        Same(b, y[1], "array 1");
    }
}
static void
VectorOp(vp::Src& s) {
    std::vector<H> x[2];
    std::deque<H> q;
    std::vector<long> y[2], z;
    for (size_t steps = 0; steps < 30 && s.more(depth ? 6 : 14); steps++) {
        size_t w = s.draw(2);
        unsigned op = unsigned(s.draw(9));
        long v = long(s.draw(100));
        OP_LOG("vectors of %zu and %zu: operation %u on %zu", y[0].size(), y[1].size(), op, w);
        std::vector<H>& c = x[w];
        std::vector<long>& m = y[w];
        switch (op) {
            case 0: {
                size_t at = s.draw(m.size() + 1);
                H h(v);
                ke::InsertAt(&c, at, h);
                m.insert(m.begin() + at, v);
                break;
            }
            case 1: {
                size_t at = s.draw(m.size() + 1);
                ke::InsertAt(&c, at, H(v));
                m.insert(m.begin() + at, v);
                break;
            }
            case 2: {
                size_t at = s.draw(m.size() + 1);
                ke::EmplaceAt(&c, at, v);
                m.insert(m.begin() + at, v);
                break;
            }
            case 3:
                if (!m.empty()) {
                    size_t at = s.draw(m.size());
                    ke::RemoveAt(&c, at);
                    m.erase(m.begin() + at);
                }
                break;
            case 4:
                if (!m.empty()) {
                    H h = ke::PopBack(&c);
                    VP_CHECK(h.n() == m.back(), "PopBack gave %ld, expected %ld", h.n(), m.back());
                    m.pop_back();
                }
                break;
            case 5: {
                long cut = long(s.draw(100));
                ke::EraseIf(&c, [cut](const H& h) {
                    Hook();
                    return h.n() < cut;
                });
                m.erase(std::remove_if(m.begin(), m.end(), [cut](long i) { return i < cut; }), m.end());
                break;
            }
            case 6:
                ke::MoveExtend(&c, &x[1 - w]);
                m.insert(m.end(), y[1 - w].begin(), y[1 - w].end());
                y[1 - w].clear();
                VP_CHECK(x[1 - w].empty(), "MoveExtend left something in its source");
                break;
            case 7:
                q.emplace_back(v);
                z.push_back(v);
                break;
            default:
                if (!z.empty()) {
                    bool front = s.coin();
                    H h = front ? ke::PopFront(&q) : ke::PopBack(&q);
                    long want = front ? z.front() : z.back();
                    VP_CHECK(h.n() == want, "a deque gave %ld, expected %ld", h.n(), want);
                    if (front)
                        z.erase(z.begin());
                    else
                        z.pop_back();
                }
        }
        Same(x[0], y[0], "vector 0");
        Same(x[1], y[1], "vector 1");
        Same(q, z, "the deque");
    }
}

// ---- Functions, optionals, references, guards ----
struct Small {
    long* out;
    void operator ()(long i) const {
        Hook();
        *out += i;
        Hook();
    }
};
static void
FunctionOp(vp::Src& s) {
    // A function that calls itself, and owns a value.
    ke::Function<long(long, H)> f, g;
    long add = long(s.draw(50));
    ke::Function<long(long, H)>* again = s.coin() ? &f : &g;
    f = [h = H(add), again](long n, H arg) {
        Hook();
        long mine = h.n() + arg.n();
        return n <= 0 ? mine : mine + (*again)(n - 1, H(arg.n() + 1));
    };
    g = f;
    long sum = 0;
    ke::Function<void(long)> small(Small{&sum});
    ke::Function<void(long)> kept = small;
    for (size_t steps = 0; steps < 10 && s.more(depth ? 2 : 5); steps++) {
        long n = long(s.draw(5)), arg = long(s.draw(50)), want = 0;
        for (long i = 0; i <= n; i++)
            want += add + arg + i;
        OP_LOG("function: %ld calls with %ld", n + 1, arg);
        long got = f(n, H(arg));
        VP_CHECK(got == want, "a function that calls itself gave %ld, expected %ld", got, want);
        switch (s.draw(4)) {
            case 0: {
                auto h = std::move(g);
                Hook();
                g = std::move(h);
                break;
            }
            case 1: {
                auto h = g;
                g = nullptr;
                Hook();
                g = h;
                break;
            }
            case 2:
                sum = 0;
                small(3);
                kept(4);
                VP_CHECK(sum == 7, "a small function added up to %ld", sum);
                break;
            default:
                got = g(0, H(1));
                VP_CHECK(got == add + 1, "a copied function gave %ld, expected %ld", got, add + 1);
        }
    }
}
static void
MaybeOp(vp::Src& s) {
    ke::Maybe<H> x[2];
    long m[2] = {-1, -1};
    for (size_t steps = 0; steps < 20 && s.more(depth ? 4 : 10); steps++) {
        size_t w = s.draw(2);
        unsigned op = unsigned(s.draw(5));
        OP_LOG("optionals: operation %u on %zu", op, w);
        switch (op) {
            case 0:
                m[w] = long(s.draw(100));
                x[w].init(m[w]);
                break;
            case 1:
                x[w] = x[1 - w];
                m[w] = m[1 - w];
                break;
            case 2:
                x[w] = std::move(x[1 - w]);
                m[w] = m[1 - w];
                m[1 - w] = -1;
                break;
            case 3:
                x[w] = ke::Nothing();
                m[w] = -1;
                break;
            default:
                m[w] = long(s.draw(100));
                x[w] = ke::Some(H(m[w]));
        }
        for (size_t i = 0; i < 2; i++) {
            VP_CHECK(x[i].isValid() == (m[i] >= 0), "optional %zu is%s valid", i, x[i].isValid() ? "" : " not");
            if (m[i] >= 0)
                VP_CHECK(x[i]->n() == m[i], "optional %zu has %ld, expected %ld", i, x[i]->n(), m[i]);
        }
    }
}
struct Plain : public ke::Refcounted<Plain> {
    H h;
    bool* alive;
    Plain(long i, bool* a)
     : h(i),
       alive(a)
    {
        *alive = true;
    }
    ~Plain() {
        *alive = false;
        Hook();
    }
};
struct Atomic : public ke::RefcountedThreadsafe<Atomic> {
    H h;
    bool* alive;
    Atomic(long i, bool* a)
     : h(i),
       alive(a)
    {
        *alive = true;
    }
    ~Atomic() {
        *alive = false;
        Hook();
    }
};
struct Virtual : public ke::VirtualRefcounted {
    H h;
    bool* alive;
    Virtual(long i, bool* a)
     : h(i),
       alive(a)
    {
        *alive = true;
    }
    ~Virtual() override {
        *alive = false;
        Hook();
    }
};
template <typename T>
static void
RefOp(vp::Src& s) {
    bool alive[64] = {};
    size_t made = 0;
    {
        ke::RefPtr<T> r[4];
        long m[4] = {-1, -1, -1, -1};
        for (size_t steps = 0; steps < 24 && s.more(depth ? 4 : 12); steps++) {
            size_t a = s.draw(4), b = s.draw(4);
            unsigned op = unsigned(s.draw(6));
            OP_LOG("references: operation %u on %zu and %zu", op, a, b);
            switch (op) {
                case 0:
                case 1:
                    r[a] = new T(long(made), &alive[made]);
                    m[a] = long(made++);
                    break;
                case 2:
                    r[a] = r[b];
                    m[a] = m[b];
                    break;
                case 3:
                    r[a] = std::move(r[b]);
                    if (a != b) {
                        m[a] = m[b];
                        m[b] = -1;
                    }
                    break;
                case 4:
                    r[a] = nullptr;
                    m[a] = -1;
                    break;
                default: {
                    ke::RefPtr<T> t = r[b];
                    Hook();
                    r[a] = t.forget();
                    m[a] = m[b];
                }
            }
            for (size_t i = 0; i < 4; i++) {
                VP_CHECK(!r[i] == (m[i] < 0), "reference %zu is%s null", i, !r[i] ? "" : " not");
                if (m[i] >= 0)
                    VP_CHECK(r[i]->h.n() == m[i], "reference %zu refers to %ld, expected %ld", i, r[i]->h.n(), m[i]);
            }
            for (size_t i = 0; i < made; i++) {
                bool held = std::find(m, m + 4, long(i)) != m + 4;
                VP_CHECK(alive[i] == held, "object %zu is %s", i, alive[i] ? "alive without a reference" : "dead but held");
            }
        }
    }
    for (size_t i = 0; i < made; i++)
        VP_CHECK(!alive[i], "object %zu outlives its references", i);
}
static void
GuardOp(vp::Src& s) {
    std::vector<int> log, want;
    unsigned n = 1 + unsigned(s.draw(4)), cancelled = unsigned(s.draw(16));
    H place(100);
    std::function<void(unsigned)> go = [&](unsigned i) {
        if (i == n)
            return;
        auto g = ke::MakeScopeGuard([&log, i] {
            Hook();
            log.push_back(int(i));
            Hook();
        });
        ke::SaveAndSet<H> sas(&place, H(long(i)));
        VP_CHECK(place.n() == long(i), "the place holds %ld, expected %u", place.n(), i);
        go(i + 1);
        VP_CHECK(place.n() == long(i), "the place holds %ld, expected %u again", place.n(), i);
        if (cancelled >> i & 1)
            g.cancel();
    };
    OP_LOG("%u guards, cancelled %x", n, cancelled);
    go(0);
    VP_CHECK(place.n() == 100, "the place holds %ld in the end", place.n());
    for (unsigned i = n; i-- > 0;) {
        if (!(cancelled >> i & 1))
            want.push_back(int(i));
    }
    VP_CHECK(log == want, "the guards ran in another order");
    H t = ke::ReturnAndVoid(place);
    VP_CHECK(t.n() == 100 && place.n() == 0, "ReturnAndVoid is wrong");
}

// ---- Option values of a type of the user's, read by user code ----
struct Wide {
    long n = -1;
};
namespace ke {
namespace args {
template <>
struct ValuePolicy<Wide> : public BaseValuePolicy {
    static bool consumeValue(const char* arg, Wide* out) {
        Hook();
        out->n = strtol(arg, nullptr, 16);
        Hook();
        return true;
    }
};
} // namespace args
} // namespace ke

struct Echo : public ke::args::IOption {
    std::vector<std::string> seen;
    Echo(ke::args::Parser& p, const char* shortForm, const char* longForm)
     : IOption(shortForm, longForm, nullptr, "help")
    {
        p.add(this);
    }
    bool consumeValue(const char* arg) override {
        Hook();
        seen.push_back(arg);
        Hook();
        return true;
    }
    bool willRepeat() const override {
        Hook();
        return true;
    }
    void reset() override {
        Hook();
        seen.clear();
    }
};
static void
ParserOp(vp::Src& s) {
    ke::args::Parser p;
    Echo e(p, "e", "echo");
    ke::args::Option<Wide> w(p, "w", "wide", {}, "help");
    ke::args::RepeatOption<Wide> many(p, "m", "many", "help");
    ke::args::ToggleOption t(p, "t", "toggle", ke::Some(false), "help");
    ke::args::Option<std::string> pos(p, "name", "help");
    p.collect_extra_args();
    p.enable_inline_values();
    for (unsigned round = 0; round < 2; round++) {
        std::vector<std::string> args;
        std::vector<std::string> echo, extra;
        std::vector<long> manyWant;
        long wide = -1;
        bool toggle = false, named = false;
        std::string name;
        unsigned steps = 0;
        while (steps++ < 8 && s.more(5)) {
            long v = long(s.draw(4096));
            std::string hex = ke::StringPrintf("%lx", v);
            switch (s.draw(6)) {
                case 0:
                    args.push_back(s.coin() ? "-e" : "--echo");
                    args.push_back("v" + hex);
                    echo.push_back("v" + hex);
                    break;
                case 1:
                    if (s.coin()) {
                        args.push_back("-m" + hex);
                    } else {
                        args.push_back("--many");
                        args.push_back(hex);
                    }
                    manyWant.push_back(v);
                    break;
                case 2:
                    if (wide < 0) {
                        args.push_back("-w");
                        args.push_back(hex);
                        wide = v;
                    }
                    break;
                case 3:
                    if (!toggle) {
                        args.push_back("-t");
                        toggle = true;
                    }
                    break;
                default:
                    args.push_back("x" + hex);
                    if (!named)
                        name = "x" + hex;
                    else
                        extra.push_back("x" + hex);
                    named = true;
            }
        }
        if (!named) {
            args.push_back("only");
            name = "only";
        }
        std::string line;
        for (auto& a : args)
            line += " " + a;
        OP_LOG("parse%s", line.c_str());
        VP_CHECK(p.parse(args), "the arguments were refused:%s", line.c_str());
        VP_CHECK(e.seen == echo, "the echo option saw other values");
        VP_CHECK(w.hasValue() == (wide >= 0), "the wide option has %s value", w.hasValue() ? "a" : "no");
        if (wide >= 0)
            VP_CHECK(w.value().n == wide, "the wide option has %ld, expected %ld", w.value().n, wide);
        VP_CHECK(t.value() == toggle, "the toggle is %d", int(t.value()));
        VP_CHECK(pos.hasValue() && pos.value() == name, "the name is wrong");
        VP_CHECK(p.extra_args() == extra, "the extra arguments are wrong");
        VP_CHECK(many.values().size() == manyWant.size(), "the repeated option has %zu values, expected %zu", many.values().size(), manyWant.size());
        for (size_t i = 0; i < manyWant.size(); i++)
            VP_CHECK(many.values()[i].n == manyWant[i], "repeated value %zu is %ld, expected %ld", i, many.values()[i].n, manyWant[i]);
        p.reset();
    }
}

// ---- Calls that call nothing back: what they gave must survive what comes next. ----
struct Link : public ke::InlineListNode<Link> {
    long v;
    explicit Link(long i)
     : v(i)
    {}
};
static void
LeafOp(vp::Src& s) {
    unsigned op = unsigned(s.draw(8));
    long v = long(s.draw(100000));
    std::string text(s.draw(80), char('a' + s.draw(26)));
    char want[256];
    OP_LOG("leaf %u with %ld", op, v);
    switch (op) {
        case 0: {
            auto a = ke::Sprintf("%ld:%s", v, text.c_str());
            Hook();
            snprintf(want, sizeof(want), "%ld:%s", v, text.c_str());
            VP_CHECK(a && !strcmp(a.get(), want), "Sprintf's text is \"%s\"", a ? a.get() : "(null)");
            break;
        }
        case 1: {
            std::string a = ke::StringPrintf("%s/%08lx", text.c_str(), v);
            Hook();
            snprintf(want, sizeof(want), "%s/%08lx", text.c_str(), v);
            VP_CHECK(a == want, "StringPrintf's text is \"%s\"", a.c_str());
            break;
        }
        case 2: {
            char buf[32];
            size_t n = ke::SafeSprintf(buf, sizeof(buf), "%ld %s", v, text.c_str());
            Hook();
            snprintf(want, sizeof(want), "%ld %s", v, text.c_str());
            want[31] = '\0';
            VP_CHECK(n == strlen(want) && !strcmp(buf, want), "SafeSprintf's text is \"%s\"", buf);
            break;
        }
        case 3: {
            std::vector<std::string> parts = ke::Split(std::to_string(v) + "," + text + ",z", ",");
            Hook();
            VP_CHECK(parts.size() == 3 && parts[0] == std::to_string(v) && parts[1] == text && parts[2] == "z", "Split is wrong");
            std::string a = ke::Join(parts, "--");
            Hook();
            VP_CHECK(a == std::to_string(v) + "--" + text + "--z", "Join's text is \"%s\"", a.c_str());
            break;
        }
        case 4: {
            char buf[64];
            ke::path::Format(buf, sizeof(buf), "a\\%ld\\b", v);
            Hook();
            snprintf(want, sizeof(want), "a/%ld/b", v);
            VP_CHECK(!strcmp(buf, want), "the path is \"%s\"", buf);
            break;
        }
        case 5: {
            char buf[64];
            ke::FormatSystemErrorCode(int(v % 100), buf, sizeof(buf));
            Hook();
            char buf2[64];
            ke::FormatSystemErrorCode(int(v % 100), buf2, sizeof(buf2));
            VP_CHECK(!strcmp(buf, buf2), "the message of error %ld is \"%s\", then \"%s\"", v % 100, buf, buf2);
            break;
        }
        case 6: {
            ke::ThreadLocal<intptr_t> t;
            VP_CHECK(t.get() == 0, "a new thread-local variable has a value");
            t = v;
            Hook();
            VP_CHECK(t.get() == v, "a thread-local variable has %ld, expected %ld", long(t.get()), v);
            break;
        }
        default: {
            ke::InlineList<Link> list;
            std::vector<std::unique_ptr<Link>> links;
            std::vector<long> order;
            for (long i = 0; i < v % 6; i++) {
                links.emplace_back(new Link(i));
                list.append(links.back().get());
                order.push_back(i);
            }
            size_t n = 0;
            for (auto i = list.begin(); i != list.end(); i++) {
                VP_CHECK(n < order.size() && (*i)->v == order[n], "link %zu is wrong", n);
                n++;
                Hook();
            }
            VP_CHECK(n == order.size(), "the list shows %zu links, expected %zu", n, order.size());
            while (!list.empty())
                list.remove(*list.begin());
        }
    }
}

static void
Op() {
    vp::Src& s = *S;
    // Nested operations look up things by themselves; what goes on outside is not theirs.
    Looker* saved = looking;
    looking = nullptr;
    switch (s.draw(14)) {
        case 0:
            LeafOp(s);
            break;
        case 1:
        case 2:
            MapOp<ke::SystemAllocatorPolicy>(s);
            break;
        case 3:
            MapOp<Alloc>(s);
            break;
        case 4:
            SetOp(s);
            break;
        case 5:
        case 6:
            QueueOp(s);
            break;
        case 7:
            ArrayOp(s);
            break;
        case 8:
            VectorOp(s);
            break;
        case 9:
            FunctionOp(s);
            break;
        case 10:
            MaybeOp(s);
            break;
        case 11:
            switch (s.draw(3)) {
                case 0:
                    RefOp<Plain>(s);
                    break;
                case 1:
                    RefOp<Atomic>(s);
                    break;
                default:
                    RefOp<Virtual>(s);
            }
            break;
        case 12:
            GuardOp(s);
            break;
        default:
            ParserOp(s);
    }
    looking = saved;
}

static void
Run(vp::Src& s, void (*outer)(vp::Src&), unsigned most = 300) {
    long base = tk::g.live;
    S = &s;
    depth = 0;
    nested = 0;
    budget = 1 + unsigned(s.draw(8));
    // Some nest at the first calls, others only after hundreds of them.
    pace = 2u << s.draw(8);
    if (pace > most)
        pace = most;
    gap = unsigned(s.draw(pace));
    looking = nullptr;
    outer(s);
    S = nullptr;
    VP_CHECK(tk::g.live == base, "lifetime: %ld value(s) outlive their containers", tk::g.live - base);
    if (nested)
        s.nontrivial();
}
VP_TARGET(Tables, 24000, 600000, 0) {
    switch (s.draw(3)) {
        case 0:
            return Run(s, MapOp<ke::SystemAllocatorPolicy>);
        case 1:
            return Run(s, MapOp<Alloc>);
        default:
            return Run(s, SetOp);
    }
}
VP_TARGET(Sequences, 24000, 600000, 0) {
    switch (s.draw(3)) {
        case 0:
            return Run(s, QueueOp);
        case 1:
            return Run(s, ArrayOp);
        default:
            return Run(s, VectorOp);
    }
}
VP_TARGET(Holders, 24000, 600000, 0) {
    switch (s.draw(6)) {
        case 0:
            return Run(s, FunctionOp);
        case 1:
            return Run(s, MaybeOp);
        case 2:
            return Run(s, RefOp<Plain>);
        case 3:
            return Run(s, RefOp<Atomic>);
        case 4:
            return Run(s, RefOp<Virtual>);
        default:
            return Run(s, GuardOp);
    }
}
VP_TARGET(Parsers, 12000, 300000, 0) {
    Run(s, ParserOp, 6);
}
VP_TARGET(Leaves, 12000, 300000, 0) {
    Run(s, [](vp::Src& s) {
        for (int i = 0; i < 4; i++)
            LeafOp(s);
    }, 4);
}
