// C37: the library's own types are proper elements of its containers, and of the standard ones.
// Non-trivial: the container held at least two elements at once and one was moved, replaced or removed.
#include "../engine/vp.h"

#include <assert.h>

#include <algorithm>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <utility>
#include <vector>

#include <amtl/am-deque.h>
#include <amtl/am-fixedarray.h>
#include <amtl/am-flags.h>
#include <amtl/am-function.h>
#include <amtl/am-hashmap.h>
#include <amtl/am-hashset.h>
#include <amtl/am-inlinelist.h>
#include <amtl/am-maybe.h>
#include <amtl/am-priority-queue.h>
#include <amtl/am-raii.h>
#include <amtl/am-refcounting-threadsafe.h>
#include <amtl/am-refcounting.h>
#include <amtl/am-vector.h>

#include "common/track.h"

using tk::Val;

struct IntPolicy {
    static uint32_t hash(int k) {
        return ke::HashInt32(k);
    }
    static bool matches(int a, int b) {
        return a == b;
    }
};

// ---- Elements: how to make one that stands for a number, and how to read the number back. ----
struct Obj : public ke::Refcounted<Obj> {
    Val v;
    explicit Obj(long i)
     : v(i)
    {}
};
struct VObj : public ke::VirtualRefcounted {
    Val v;
    explicit VObj(long i)
     : v(i)
    {}
};
struct TObj : public ke::RefcountedThreadsafe<TObj> {
    Val v;
    explicit TObj(long i)
     : v(i)
    {}
};
template <typename O>
struct RefE {
    typedef ke::RefPtr<O> T;
    static const bool kCopy = true, kAssign = true, kDefault = true;
    static T make(long i) {
        return T(new O(i));
    }
    static long id(const T& t) {
        VP_CHECK(t.get() != nullptr, "a reference became null");
        return t->v.v();
    }
    static bool blank(const T& t) {
        return !t;
    }
};
struct MaybeE {
    typedef ke::Maybe<Val> T;
    static const bool kCopy = true, kAssign = true, kDefault = true;
    static T make(long i) {
        T t;
        t.init(i);
        return t;
    }
    static long id(const T& t) {
        VP_CHECK(t.isValid(), "a Maybe lost its value");
        return t->v();
    }
    static bool blank(const T& t) {
        return !t.isValid();
    }
};
struct Functions {
    typedef ke::Function<long()> T;
    static const bool kCopy = true, kAssign = true, kDefault = true;
    static long id(const T& t) {
        VP_CHECK(bool(t), "a function lost its target");
        return t();
    }
    static bool blank(const T& t) {
        return !t;
    }
};
struct SmallFnE : Functions {
    static T make(long i) {
        Val v(i);
        return T([v]() -> long { return v.v(); });
    }
};
struct BigFnE : Functions {
    static T make(long i) {
        Val a(i), b(i + 1), c(i + 2), d(i + 3);
        return T([a, b, c, d]() -> long {
            VP_CHECK(b.v() == a.v() + 1 && c.v() == a.v() + 2 && d.v() == a.v() + 3, "a capture changed");
            return a.v();
        });
    }
};
// Of both kinds in turn.
struct MixedFnE : Functions {
    static T make(long i) {
        if (i % 3 == 0)
            return SmallFnE::make(i);
        if (i % 3 == 1)
            return BigFnE::make(i);
        // A function that holds another one.
        T inner = i % 2 ? SmallFnE::make(i) : BigFnE::make(i);
        return T([inner]() -> long { return inner(); });
    }
};
template <typename In>
struct FixE {
    typedef ke::FixedArray<typename In::T> T;
    static const bool kCopy = true, kAssign = true, kDefault = true;
    static T make(long i) {
        std::vector<typename In::T> v;
        for (long k = 0; k < 1 + i % 4; k++)
            v.push_back(In::make(i));
        return T(std::move(v));
    }
    static long id(const T& t) {
        VP_CHECK(t.size() > 0, "an array lost its elements");
        long i = In::id(t[0]);
        VP_CHECK(t.size() == size_t(1 + i % 4), "an array changed its size");
        for (const auto& e : t)
            VP_CHECK(In::id(e) == i, "an array's elements changed");
        return i;
    }
    static bool blank(const T& t) {
        return t.empty();
    }
};
template <typename In>
struct MaybeOfE {
    typedef ke::Maybe<typename In::T> T;
    static const bool kCopy = true, kAssign = true, kDefault = true;
    static T make(long i) {
        if (i % 2)
            return ke::Some(In::make(i));
        T t;
        t.init(In::make(i));
        return t;
    }
    static long id(const T& t) {
        VP_CHECK(t.isValid(), "a Maybe lost its value");
        return In::id(*t);
    }
    static bool blank(const T& t) {
        return !t.isValid();
    }
};
enum class Bit : uint64_t { None = 0 };
struct FlagsE {
    typedef ke::Flags<Bit> T;
    static const bool kCopy = true, kAssign = true, kDefault = true;
    static T make(long i) {
        return T(Bit(uint64_t(i) << 20 | 1));
    }
    static long id(const T& t) {
        return long(t.bits() >> 20);
    }
    static bool blank(const T& t) {
        return !t;
    }
};
// These can only be moved.
template <typename In>
struct MapE {
    typedef ke::HashMap<int, typename In::T, IntPolicy> T;
    static const bool kCopy = false, kAssign = false, kDefault = false;
    static T make(long i) {
        T t;
        VP_CHECK(t.init(), "init failed");
        for (long k = 0; k <= i % 20; k++) {
            auto p = t.findForAdd(int(k));
            VP_CHECK(!p.found() && t.add(p, int(k), In::make(i)), "add failed");
        }
        return t;
    }
    static long id(const T& t) {
        auto r = t.find(0);
        VP_CHECK(r.found(), "a map lost an entry");
        long i = In::id(r->value);
        for (long k = 1; k <= i % 20; k++) {
            auto f = t.find(int(k));
            VP_CHECK(f.found() && In::id(f->value) == i, "a map's entries changed");
        }
        return i;
    }
};
template <typename In>
struct ById {
    bool operator ()(const typename In::T& a, const typename In::T& b) const {
        return In::id(a) < In::id(b);
    }
};
template <typename In>
struct QueueE {
    typedef ke::PriorityQueue<typename In::T, ById<In>> T;
    static const bool kCopy = false, kAssign = false, kDefault = false;
    static T make(long i) {
        T t;
        for (long k = i % 6; k >= 0; k--)
            t.add(In::make(i + k));
        return t;
    }
    static long id(const T& t) {
        VP_CHECK(!t.empty(), "a queue lost its elements");
        return In::id(t.peek());
    }
};
struct OwnE {
    typedef std::unique_ptr<Val> T;
    static const bool kCopy = false, kAssign = true, kDefault = true;
    static T make(long i) {
        return T(new Val(i));
    }
    static long id(const T& t) {
        VP_CHECK(t != nullptr, "a pointer became null");
        return t->v();
    }
    static bool blank(const T& t) {
        return !t;
    }
};

// ---- Containers ----
template <typename E, typename C>
static void
SameList(const C& c, const std::vector<long>& m, const char* what) {
    VP_CHECK(c.size() == m.size(), "%s: %zu elements, expected %zu", what, size_t(c.size()), m.size());
    size_t i = 0;
    for (const auto& e : c) {
        long id = E::id(e);
        VP_CHECK(id == m[i], "%s: element %zu is %ld, expected %ld", what, i, id, m[i]);
        i++;
    }
}

template <typename E>
static void
Vectors(vp::Src& s) {
    typedef typename E::T T;
    std::vector<T> v[2];
    std::vector<long> m[2];
    long next = 1;
    bool two = false, changed = false;
    size_t steps = 0;
    while (steps++ < 60 && s.more(16)) {
        unsigned w = unsigned(s.draw(2));
        std::vector<T>& x = v[w];
        std::vector<long>& y = m[w];
        size_t at = y.empty() ? 0 : s.draw(y.size());
        unsigned op = unsigned(s.draw(13));
        VP_LOG("vector %u: operation %u at %zu of %zu\n", w, op, at, y.size());
        if (y.size() >= 2) {
            two = true;
            changed |= op >= 2;
        }
        switch (op) {
            case 0:
            case 1:
                x.push_back(E::make(next));
                y.push_back(next++);
                break;
            case 2:
                ke::InsertAt(&x, at, E::make(next));
                y.insert(y.begin() + at, next++);
                break;
            case 3:
                if (y.empty())
                    break;
                ke::RemoveAt(&x, at);
                y.erase(y.begin() + at);
                break;
            case 4: {
                if (y.empty())
                    break;
                T t = ke::PopBack(&x);
                VP_CHECK(E::id(t) == y.back(), "PopBack gave %ld, expected %ld", E::id(t), y.back());
                y.pop_back();
                break;
            }
            case 5: {
                long mod = 2 + long(s.draw(3));
                ke::EraseIf(&x, [=](const T& t) -> bool { return E::id(t) % mod == 0; });
                y.erase(std::remove_if(y.begin(), y.end(), [=](long i) { return i % mod == 0; }), y.end());
                break;
            }
            case 6:
                ke::MoveExtend(&x, &v[1 - w]);
                y.insert(y.end(), m[1 - w].begin(), m[1 - w].end());
                m[1 - w].clear();
                break;
            case 7:
                std::sort(x.begin(), x.end(), [](const T& a, const T& b) { return E::id(a) > E::id(b); });
                std::sort(y.begin(), y.end(), [](long a, long b) { return a > b; });
                break;
            case 8:
                std::rotate(x.begin(), x.begin() + at, x.end());
                std::rotate(y.begin(), y.begin() + at, y.end());
                break;
            case 9:
                if (y.empty())
                    break;
                {
                    size_t b = s.draw(y.size());
                    using std::swap;
                    if (at != b) {
                        swap(x[at], x[b]);
                        swap(y[at], y[b]);
                    }
                }
                break;
            case 10:
                if constexpr (E::kCopy) {
                    std::vector<T> c(x);
                    SameList<E>(c, y, "copy");
                    if (s.coin()) {
                        v[1 - w] = c;
                        m[1 - w] = y;
                    }
                    if (!y.empty()) {
                        c[at] = E::make(next++);
                        SameList<E>(x, y, "source of a changed copy");
                        x[at] = v[w][s.draw(y.size())];
                        y[at] = E::id(x[at]);
                    }
                }
                break;
            case 11:
                if (y.empty())
                    break;
                x[at] = E::make(next);
                y[at] = next++;
                break;
            default:
                ke::EmplaceAt(&x, at, E::make(next));
                y.insert(y.begin() + at, next++);
        }
        SameList<E>(v[0], m[0], "vector 0");
        SameList<E>(v[1], m[1], "vector 1");
    }
    if (two && changed)
        s.nontrivial();
}

template <typename E>
static void
Deques(vp::Src& s) {
    typedef typename E::T T;
    std::deque<T> x;
    std::vector<long> y;
    long next = 1;
    bool two = false;
    size_t steps = 0;
    while (steps++ < 60 && s.more(16)) {
        switch (s.draw(6)) {
            case 0:
            case 1:
                x.push_back(E::make(next));
                y.push_back(next++);
                break;
            case 2:
                x.push_front(E::make(next));
                y.insert(y.begin(), next++);
                break;
            case 3:
                if (!y.empty()) {
                    T t = ke::PopFront(&x);
                    VP_CHECK(E::id(t) == y.front(), "PopFront gave %ld, expected %ld", E::id(t), y.front());
                    y.erase(y.begin());
                }
                break;
            case 4:
                if (!y.empty()) {
                    T t = ke::PopBack(&x);
                    VP_CHECK(E::id(t) == y.back(), "PopBack gave %ld, expected %ld", E::id(t), y.back());
                    y.pop_back();
                }
                break;
            default:
                std::reverse(x.begin(), x.end());
                std::reverse(y.begin(), y.end());
        }
        two |= y.size() >= 2;
        VP_LOG("deque of %zu\n", y.size());
        SameList<E>(x, y, "deque");
    }
    if (two)
        s.nontrivial();
}

template <typename E>
static void
Maps(vp::Src& s) {
    typedef typename E::T T;
    typedef ke::HashMap<int, T, IntPolicy> C;
    std::unique_ptr<C> c(new C());
    VP_CHECK(c->init(size_t(1) << s.draw(6)), "init failed");
    std::map<int, long> m;
    long next = 1;
    bool two = false, changed = false;
    size_t steps = 0;
    int keys = 1 + int(s.draw(60));
    while (steps++ < 150 && s.more(30)) {
        int k = int(s.draw(uint64_t(keys)));
        auto in = m.find(k);
        unsigned op = unsigned(s.draw(10));
        VP_LOG("map: operation %u on key %d (%s)\n", op, k, in == m.end() ? "new" : "there");
        if (m.size() >= 2) {
            two = true;
            changed |= op >= 6;
        }
        switch (op) {
            default: {
                auto p = c->findForAdd(k);
                VP_CHECK(p.found() == (in != m.end()), "key %d is%s in the map", k, p.found() ? "" : " not");
                if (!p.found()) {
                    T t = E::make(next);
                    VP_CHECK(c->add(p, k, std::move(t)), "add failed");
                    VP_CHECK(E::id(p->value) == next, "the value is wrong after add");
                    m[k] = next++;
                } else if constexpr (E::kAssign) {
                    p->value = E::make(next);
                    in->second = next++;
                }
                break;
            }
            case 6:
                c->removeIfExists(k);
                m.erase(k);
                break;
            case 7:
                c.reset(new C(std::move(*c)));
                break;
            case 8:
                if (s.draw(4) == 3) {
                    c->clear();
                    m.clear();
                }
                break;
            case 9:
                for (auto it = c->iter(); !it.empty(); it.next()) {
                    auto f = m.find(it->key);
                    VP_CHECK(f != m.end() && E::id(it->value) == f->second, "iteration shows a wrong entry");
                    if (s.draw(4) == 3) {
                        it.erase();
                        m.erase(f);
                    }
                }
        }
        VP_CHECK(c->elements() == m.size(), "%zu elements, expected %zu", c->elements(), m.size());
        for (auto& e : m) {
            auto f = c->find(e.first);
            VP_CHECK(f.found(), "key %d is lost", e.first);
            VP_CHECK(E::id(f->value) == e.second, "key %d has %ld, expected %ld", e.first, E::id(f->value), e.second);
        }
    }
    if (two && changed)
        s.nontrivial();
}

template <typename E>
static void
Queues(vp::Src& s) {
    typedef typename E::T T;
    typedef ke::PriorityQueue<T, ById<E>> Q;
    std::unique_ptr<Q> q(new Q());
    std::multiset<long> m;
    size_t steps = 0;
    bool two = false;
    while (steps++ < 120 && s.more(30)) {
        switch (s.draw(6)) {
            case 0:
            case 1:
            case 2: {
                long i = long(s.draw(40));
                if (s.coin())
                    q->add(E::make(i));
                else
                    q->emplace(E::make(i));
                m.insert(i);
                break;
            }
            case 3:
                q.reset(new Q(std::move(*q)));
                break;
            default:
                if (!m.empty()) {
                    VP_CHECK(E::id(q->peek()) == *m.begin(), "peek shows %ld, expected %ld", E::id(q->peek()), *m.begin());
                    T t = q->pop();
                    VP_CHECK(E::id(t) == *m.begin(), "pop gave %ld, expected %ld", E::id(t), *m.begin());
                    m.erase(m.begin());
                    two |= m.size() >= 2;
                }
        }
        VP_LOG("queue of %zu\n", m.size());
        VP_CHECK(q->empty() == m.empty(), "empty() is %d with %zu element(s)", q->empty(), m.size());
    }
    if (two)
        s.nontrivial();
}

template <typename E>
static void
Arrays(vp::Src& s) {
    typedef typename E::T T;
    typedef ke::FixedArray<T> A;
    A a[2];
    std::vector<long> m[2];
    long next = 1;
    bool two = false, changed = false;
    size_t steps = 0;
    while (steps++ < 40 && s.more(12)) {
        unsigned w = unsigned(s.draw(2));
        A& x = a[w];
        std::vector<long>& y = m[w];
        unsigned op = unsigned(s.draw(7));
        VP_LOG("array %u: operation %u on %zu\n", w, op, y.size());
        if (y.size() >= 2) {
            two = true;
            changed |= op >= 1;
        }
        switch (op) {
            case 0:
            case 1: {
                std::vector<T> v;
                y.clear();
                for (size_t n = s.draw(7); n > 0; n--) {
                    v.push_back(E::make(next));
                    y.push_back(next++);
                }
                if constexpr (E::kCopy) {
                    if (s.coin()) {
                        const std::vector<T>& cv = v;
                        x = A(cv);
                        SameList<E>(v, y, "source of a copying construction");
                        break;
                    }
                }
                x = A(std::move(v));
                break;
            }
            case 2:
                a[1 - w] = std::move(x);
                m[1 - w] = y;
                y.clear();
                break;
            case 3:
                if constexpr (E::kCopy) {
                    a[1 - w] = x;
                    m[1 - w] = y;
                }
                break;
            case 4:
                if (!y.empty()) {
                    size_t at = s.draw(y.size());
                    x[at] = E::make(next);
                    y[at] = next++;
                }
                break;
            case 5: {
                A t(std::move(x));
                SameList<E>(t, y, "moved array");
                VP_CHECK(x.size() == 0, "a moved-from array is not empty");
                x = std::move(t);
                break;
            }
            default:
                if constexpr (E::kDefault) {
                    A fresh(s.draw(5));
                    for (auto& e : fresh)
                        VP_CHECK(E::blank(e), "a new array's element is not a default value");
                    y.clear();
                    for (auto& e : fresh) {
                        e = E::make(next);
                        y.push_back(next++);
                    }
                    x = std::move(fresh);
                }
        }
        SameList<E>(a[0], m[0], "array 0");
        SameList<E>(a[1], m[1], "array 1");
    }
    if (two && changed)
        s.nontrivial();
}

// Single places: Maybe, std::optional, functions, guards, objects with a count.
template <typename E>
struct Holder : public ke::Refcounted<Holder<E>> {
    typename E::T t;
    explicit Holder(long i)
     : t(E::make(i))
    {}
};

template <typename E>
static void
Places(vp::Src& s) {
    typedef typename E::T T;
    ke::Maybe<T> x[3];
    long m[3] = {-1, -1, -1};
    std::optional<T> o[2];
    long mo[2] = {-1, -1};
    ke::RefPtr<Holder<E>> r[3];
    long mr[3] = {-1, -1, -1};
    long next = 1;
    unsigned held = 0;
    bool moved = false;
    size_t steps = 0;
    while (steps++ < 60 && s.more(20)) {
        size_t i = s.draw(3), j = s.draw(3), k = i & 1;
        unsigned op = unsigned(s.draw(11));
        VP_LOG("operation %u on %zu, %zu\n", op, i, j);
        switch (op) {
            case 0:
                x[i].init(E::make(next));
                m[i] = next++;
                break;
            case 1: {
                ke::Maybe<T> t(std::move(x[i]));
                VP_CHECK(t.isValid() == (m[i] >= 0), "a moved Maybe is%s valid", t.isValid() ? "" : " not");
                VP_CHECK(!x[i].isValid(), "a moved-from Maybe is still valid");
                if (t.isValid())
                    VP_CHECK(E::id(*t) == m[i], "a moved Maybe has %ld, expected %ld", E::id(*t), m[i]);
                x[j] = std::move(t);
                long old = m[i];
                m[i] = -1;
                m[j] = old;
                moved = true;
                break;
            }
            case 2:
                if constexpr (E::kCopy) {
                    x[j] = x[i];
                    m[j] = m[i];
                    ke::Maybe<T> t(x[i]);
                    if (m[i] >= 0)
                        VP_CHECK(E::id(t.get()) == m[i], "a copied Maybe has %ld, expected %ld", E::id(t.get()), m[i]);
                }
                break;
            case 3:
                o[k].emplace(E::make(next));
                mo[k] = next++;
                break;
            case 4:
                if constexpr (E::kAssign) {
                    if (m[i] >= 0) {
                        o[k] = std::move(*x[i]);
                        mo[k] = m[i];
                        x[i].init(E::make(next));
                        m[i] = next++;
                    }
                }
                break;
            case 5:
                r[i] = new Holder<E>(next);
                mr[i] = next++;
                break;
            case 6:
                r[i] = r[j];
                mr[i] = mr[j];
                break;
            case 7:
                if (mr[i] >= 0) {
                    if constexpr (E::kAssign) {
                        r[i]->t = E::make(next);
                        for (size_t q = 0; q < 3; q++)
                            if (q != i && r[q].get() == r[i].get())
                                mr[q] = next;
                        mr[i] = next++;
                    }
                }
                break;
            case 8: {
                // A guard owns what its callback captures.
                long got = -1, want = next++;
                bool cancel = s.draw(3) == 2;
                {
                    auto g = ke::MakeScopeGuard([t = E::make(want), &got] { got = E::id(t); });
                    auto h(std::move(g));
                    if (cancel)
                        h.cancel();
                }
                VP_CHECK(got == (cancel ? -1 : want), "the guard's callback saw %ld", got);
                moved = true;
                break;
            }
            case 9:
                if constexpr (E::kCopy) {
                    // A function owns its captures, wherever it goes.
                    long want = next++;
                    T t = E::make(want);
                    ke::Function<long()> f([t] { return E::id(t); }), g(f), h;
                    h = std::move(f);
                    VP_CHECK(!f && g() == want && h() == want, "a function's capture is wrong");
                    std::vector<ke::Function<long()>> fs;
                    for (int q = 0; q < 5; q++) {
                        fs.push_back(q % 2 ? g : h);
                        ke::InsertAt(&fs, s.draw(fs.size()), q % 2 ? ke::Function<long()>([t] { return E::id(t); }) : g);
                    }
                    for (auto& e : fs)
                        VP_CHECK(e() == want, "a function in a vector has another capture");
                    VP_CHECK(E::id(t) == want, "the captured value changed");
                }
                break;
            default:
                if constexpr (E::kCopy && E::kAssign && E::kDefault) {
                    long a = next++, b = next++;
                    T t = E::make(a);
                    {
                        ke::SaveAndSet<T> sas(&t, E::make(b));
                        VP_CHECK(E::id(t) == b, "a save-and-set did not set");
                    }
                    VP_CHECK(E::id(t) == a, "a save-and-set did not restore");
                    T u = ke::ReturnAndVoid(t);
                    VP_CHECK(E::id(u) == a && E::blank(t), "ReturnAndVoid is wrong");
                }
        }
        unsigned now = 0;
        for (size_t q = 0; q < 3; q++) {
            now += (m[q] >= 0) + (mr[q] >= 0);
            VP_CHECK(x[q].isValid() == (m[q] >= 0), "Maybe %zu is%s valid", q, x[q].isValid() ? "" : " not");
            if (m[q] >= 0)
                VP_CHECK(E::id(*x[q]) == m[q], "Maybe %zu has %ld, expected %ld", q, E::id(*x[q]), m[q]);
            VP_CHECK(!!r[q] == (mr[q] >= 0), "reference %zu is%s null", q, r[q] ? " not" : "");
            if (mr[q] >= 0)
                VP_CHECK(E::id(r[q]->t) == mr[q], "reference %zu shows %ld, expected %ld", q, E::id(r[q]->t), mr[q]);
        }
        for (size_t q = 0; q < 2; q++) {
            VP_CHECK(o[q].has_value() == (mo[q] >= 0), "optional %zu is%s set", q, o[q] ? "" : " not");
            if (mo[q] >= 0)
                VP_CHECK(E::id(*o[q]) == mo[q], "optional %zu has %ld, expected %ld", q, E::id(*o[q]), mo[q]);
        }
        if (now > held)
            held = now;
    }
    if (held >= 2 && moved)
        s.nontrivial();
}

// Node-based standard containers, for what cannot be assigned.
template <typename E>
static void
Nodes(vp::Src& s) {
    typedef typename E::T T;
    std::list<T> x;
    std::vector<long> y;
    std::map<int, T> c;
    std::map<int, long> m;
    long next = 1;
    bool two = false;
    size_t steps = 0;
    while (steps++ < 40 && s.more(14)) {
        int k = int(s.draw(8));
        switch (s.draw(5)) {
            case 0:
                x.push_back(E::make(next));
                y.push_back(next++);
                break;
            case 1:
                x.emplace_front(E::make(next));
                y.insert(y.begin(), next++);
                break;
            case 2:
                if (!y.empty()) {
                    T t(std::move(x.front()));
                    x.pop_front();
                    VP_CHECK(E::id(t) == y.front(), "the list's front is %ld, expected %ld", E::id(t), y.front());
                    y.erase(y.begin());
                }
                break;
            case 3:
                c.erase(k);
                c.emplace(k, E::make(next));
                m[k] = next++;
                break;
            default:
                c.erase(k);
                m.erase(k);
        }
        two |= y.size() >= 2;
        VP_LOG("list of %zu, map of %zu\n", y.size(), m.size());
        SameList<E>(x, y, "list");
        VP_CHECK(c.size() == m.size(), "map size");
        for (auto& e : m) {
            auto f = c.find(e.first);
            VP_CHECK(f != c.end() && E::id(f->second) == e.second, "key %d of a std::map is wrong", e.first);
        }
    }
    if (two)
        s.nontrivial();
}

template <typename F>
static void
Ledger(F&& f) {
    long base = tk::g.live;
    f();
    VP_CHECK(tk::g.live == base, "lifetime: %ld value(s) outlive their containers", tk::g.live - base);
}

template <typename E>
static void
Assignable(vp::Src& s, unsigned what) {
    switch (what) {
        case 0:
            return Ledger([&] { Vectors<E>(s); });
        case 1:
            return Ledger([&] { Deques<E>(s); });
        case 2:
            return Ledger([&] { Maps<E>(s); });
        case 3:
            return Ledger([&] { Queues<E>(s); });
        case 4:
            return Ledger([&] { Arrays<E>(s); });
        case 5:
            return Ledger([&] { Nodes<E>(s); });
        default:
            return Ledger([&] { Places<E>(s); });
    }
}
template <typename E>
static void
Movable(vp::Src& s, unsigned what) {
    switch (what % 3) {
        case 0:
            return Ledger([&] { Maps<E>(s); });
        case 1:
            return Ledger([&] { Nodes<E>(s); });
        default:
            return Ledger([&] { Places<E>(s); });
    }
}

VP_TARGET(References, 24000, 600000, vp::kLeakCheck) {
    unsigned what = unsigned(s.draw(7));
    switch (s.draw(3)) {
        case 0:
            return Assignable<RefE<Obj>>(s, what);
        case 1:
            return Assignable<RefE<VObj>>(s, what);
        default:
            return Assignable<RefE<TObj>>(s, what);
    }
}
VP_TARGET(FunctionValues, 24000, 600000, vp::kLeakCheck) {
    unsigned what = unsigned(s.draw(7));
    switch (s.draw(3)) {
        case 0:
            return Assignable<SmallFnE>(s, what);
        case 1:
            return Assignable<BigFnE>(s, what);
        default:
            return Assignable<MixedFnE>(s, what);
    }
}
VP_TARGET(Values, 24000, 600000, vp::kLeakCheck) {
    unsigned what = unsigned(s.draw(7));
    switch (s.draw(4)) {
        case 0:
            return Assignable<MaybeE>(s, what);
        case 1:
            return Assignable<FixE<MaybeE>>(s, what);
        case 2:
            return Assignable<FlagsE>(s, what);
        default:
            return Assignable<OwnE>(s, what);
    }
}
VP_TARGET(Nested, 24000, 600000, vp::kLeakCheck) {
    unsigned what = unsigned(s.draw(7));
    switch (s.draw(5)) {
        case 0:
            return Assignable<MaybeOfE<RefE<Obj>>>(s, what);
        case 1:
            return Assignable<MaybeOfE<MixedFnE>>(s, what);
        case 2:
            return Assignable<FixE<RefE<Obj>>>(s, what);
        case 3:
            return Assignable<FixE<MaybeOfE<MixedFnE>>>(s, what);
        default:
            return Assignable<MaybeOfE<FixE<MaybeE>>>(s, what);
    }
}
VP_TARGET(MoveOnlyContainers, 24000, 600000, vp::kLeakCheck) {
    unsigned what = unsigned(s.draw(3));
    switch (s.draw(4)) {
        case 0:
            return Movable<MapE<MaybeE>>(s, what);
        case 1:
            return Movable<MapE<MixedFnE>>(s, what);
        case 2:
            return Movable<QueueE<RefE<Obj>>>(s, what);
        default:
            return Movable<QueueE<OwnE>>(s, what);
    }
}

// ---- Values that own others of their kind, replaced by one of those. ----
struct Model {
    long id = -1;  // -1: an empty optional; unused for arrays
    std::vector<Model> kids;
};
struct MaybeTree {
    Val v;
    std::vector<ke::Maybe<MaybeTree>> kids;
    explicit MaybeTree(long i)
     : v(i)
    {}
};
struct ArrayTree {
    Val v;
    ke::FixedArray<ArrayTree> kids;
    ArrayTree()
     : v(0)
    {}
};
struct RefTree : public ke::Refcounted<RefTree> {
    Val v;
    ke::RefPtr<RefTree> kid;
    explicit RefTree(long i)
     : v(i)
    {}
};

// Trees of optionals: a node may be empty, and a full one has up to three below it.
static ke::Maybe<MaybeTree>
MakeTree(vp::Src& s, Model* m, unsigned depth, long* next) {
    ke::Maybe<MaybeTree> t;
    m->id = -1;
    m->kids.clear();
    if (s.draw(6) == 5)
        return t;
    m->id = (*next)++;
    t.init(m->id);
    unsigned n = depth ? unsigned(s.draw(4)) : 0;
    m->kids.resize(n);
    for (unsigned i = 0; i < n; i++)
        t->kids.push_back(MakeTree(s, &m->kids[i], depth - 1, next));
    return t;
}
struct MaybeAt {
    ke::Maybe<MaybeTree>* t;
    Model* m;
    size_t end;  // one past the last of its descendants
};
static void
Walk(ke::Maybe<MaybeTree>& t, Model& m, std::vector<MaybeAt>* out) {
    size_t at = out->size();
    out->push_back({&t, &m, 0});
    VP_CHECK(t.isValid() == (m.id >= 0), "an optional is%s valid", t.isValid() ? "" : " not");
    if (t.isValid()) {
        VP_CHECK(t->v.v() == m.id, "an optional has %ld, expected %ld", t->v.v(), m.id);
        VP_CHECK(t->kids.size() == m.kids.size(), "an optional owns %zu others, expected %zu", t->kids.size(), m.kids.size());
        for (size_t i = 0; i < m.kids.size(); i++)
            Walk(t->kids[i], m.kids[i], out);
    }
    (*out)[at].end = out->size();
}
static void
MaybeTrees(vp::Src& s) {
    long next = 1;
    Model m;
    ke::Maybe<MaybeTree> root = MakeTree(s, &m, 3, &next);
    bool inner = false;
    for (size_t steps = 0; steps < 12 && s.more(6); steps++) {
        std::vector<MaybeAt> all;
        Walk(root, m, &all);
        if (all.size() > 300)
            break;
        size_t a = s.coin() ? 0 : s.draw(all.size()), b = s.draw(all.size());
        bool above = b < a && a < all[b].end;  // the source owns the target
        bool below = a < b && b < all[a].end;  // the target owns the source
        Model value = *all[b].m;
        unsigned op = unsigned(s.draw(4));
        VP_LOG("%s %zu to %zu of %zu%s\n", op < 2 && !above ? "move" : "copy", b, a, all.size(), below ? " (inner)" : above ? " (outer)" : "");
        inner |= below || above;
        if (op == 3) {
            *all[a].t = MakeTree(s, all[a].m, 2, &next);
        } else if (op < 2 && !above) {
            if (a != b)
                *all[b].m = Model();
            *all[a].m = value;
            *all[a].t = std::move(*all[b].t);
        } else {
            *all[a].m = value;
            *all[a].t = *all[b].t;
        }
    }
    std::vector<MaybeAt> all;
    Walk(root, m, &all);
    if (inner)
        s.nontrivial();
}

static ke::FixedArray<ArrayTree>
MakeArray(vp::Src& s, Model* m, unsigned depth, long* next) {
    size_t n = s.draw(4);
    ke::FixedArray<ArrayTree> t(n);
    m->kids.assign(n, Model());
    for (size_t i = 0; i < n; i++) {
        t[i].v = Val(m->kids[i].id = (*next)++);
        if (depth)
            t[i].kids = MakeArray(s, &m->kids[i], depth - 1, next);
    }
    return t;
}
struct ArrayAt {
    ke::FixedArray<ArrayTree>* t;
    Model* m;
    size_t end;
};
static void
Walk(ke::FixedArray<ArrayTree>& t, Model& m, std::vector<ArrayAt>* out) {
    size_t at = out->size();
    out->push_back({&t, &m, 0});
    VP_CHECK(t.size() == m.kids.size(), "an array has %zu elements, expected %zu", t.size(), m.kids.size());
    for (size_t i = 0; i < t.size(); i++) {
        VP_CHECK(t[i].v.v() == m.kids[i].id, "an element has %ld, expected %ld", t[i].v.v(), m.kids[i].id);
        Walk(t[i].kids, m.kids[i], out);
    }
    (*out)[at].end = out->size();
}
static void
ArrayTrees(vp::Src& s) {
    long next = 1;
    Model m;
    ke::FixedArray<ArrayTree> root = MakeArray(s, &m, 3, &next);
    bool inner = false;
    for (size_t steps = 0; steps < 12 && s.more(6); steps++) {
        std::vector<ArrayAt> all;
        Walk(root, m, &all);
        if (all.size() > 300)
            break;
        size_t a = s.coin() ? 0 : s.draw(all.size()), b = s.draw(all.size());
        bool above = b < a && a < all[b].end;
        bool below = a < b && b < all[a].end;
        if (above)
            continue;
        std::vector<Model> value = all[b].m->kids;
        // Copies of a part of the target are not promised, as for std::vector.
        bool move = below || s.coin();
        VP_LOG("%s %zu to %zu of %zu%s\n", move ? "move" : "copy", b, a, all.size(), below ? " (inner)" : "");
        inner |= below;
        if (move) {
            if (a != b)
                all[b].m->kids.clear();
            all[a].m->kids = value;
            *all[a].t = std::move(*all[b].t);
        } else {
            all[a].m->kids = value;
            *all[a].t = *all[b].t;
        }
    }
    std::vector<ArrayAt> all;
    Walk(root, m, &all);
    if (inner)
        s.nontrivial();
}

static void
RefTrees(vp::Src& s) {
    std::vector<long> m;
    ke::RefPtr<RefTree> head;
    size_t n = s.draw(12);
    for (size_t i = 0; i < n; i++) {
        ke::RefPtr<RefTree> t = new RefTree(long(i) + 1);
        t->kid = s.coin() ? head : std::move(head);
        head = s.coin() ? t : std::move(t);
        m.insert(m.begin(), long(i) + 1);
    }
    bool inner = false;
    for (size_t steps = 0; steps < 12 && !m.empty() && s.more(6); steps++) {
        // Cut links out of the chain, from one reference to a later one.
        size_t a = s.draw(m.size()), b = a + 1 + s.draw(m.size() - a);
        ke::RefPtr<RefTree>* to = &head;
        for (size_t i = 0; i < a; i++)
            to = &(*to)->kid;
        ke::RefPtr<RefTree>* from = to;
        for (size_t i = a; i < b; i++)
            from = &(*from)->kid;
        VP_LOG("link %zu to %zu of %zu\n", a, b, m.size());
        switch (s.draw(5)) {
            case 0:
                *to = **from;
                break;
            case 1:
                *to = *from;
                break;
            case 2:
                *to = from->forget();
                break;
            case 3:
                *to = from->take();
                break;
            default:
                *to = std::move(*from);
        }
        m.erase(m.begin() + a, m.begin() + b);
        inner = true;
        RefTree* t = *head;
        for (size_t i = 0; i < m.size(); i++, t = *t->kid)
            VP_CHECK(t && t->v.v() == m[i], "link %zu is wrong", i);
        VP_CHECK(!t, "the chain is too long");
        VP_CHECK(tk::g.live >= long(m.size()), "lifetime: %ld nodes for %zu links", tk::g.live, m.size());
    }
    if (inner)
        s.nontrivial();
}
VP_TARGET(OwnParts, 24000, 600000, vp::kLeakCheck) {
    switch (s.draw(5)) {
        case 0:
        case 1:
            return Ledger([&] { MaybeTrees(s); });
        case 2:
        case 3:
            return Ledger([&] { ArrayTrees(s); });
        default:
            return Ledger([&] { RefTrees(s); });
    }
}
