// C07: priority queue always serves a highest-priority element and loses none.
// Non-trivial: at least 3 elements were in the queue at once and at least 2 were popped.
#include "../engine/vp.h"

#include <assert.h>

#include <memory>
#include <vector>

#include <amtl/am-priority-queue.h>

#include "common/sizes.h"
#include "common/track.h"

using ke::PriorityQueue;
using tk::Val;

struct Copyable {
    Val prio;
    Val id;
    Copyable(long p, long i)
     : prio(p),
       id(i)
    {}
};

struct MoveOnly {
    Val prio;
    std::unique_ptr<long> id_;
    MoveOnly(long p, long i)
     : prio(p),
       id_(new long(i))
    {}
    MoveOnly(MoveOnly&&) = default;
    MoveOnly& operator =(MoveOnly&&) = default;
};

static long
IdOf(const Copyable& c) {
    return c.id.v();
}
static long
IdOf(const MoveOnly& c) {
    VP_CHECK(c.id_ != nullptr, "an element lost its payload");
    return *c.id_;
}

// A stateful strict weak order: compares ranks found in a table it points to.
struct Cmp {
    const std::vector<long>* rank = nullptr;
    unsigned mode = 0;
    bool less(long a, long b) const {
        switch (mode) {
            case 0:
                return a < b;
            case 1:
                return a > b;
            case 2:
                return false;  // all equal
            case 3:
                return a / 4 < b / 4;
            default:
                return (*rank)[size_t(a) % rank->size()] < (*rank)[size_t(b) % rank->size()];
        }
    }
    template <typename T>
    bool operator ()(const T& a, const T& b) const {
        long x = a.prio.v(), y = b.prio.v();
        VP_CHECK(x != tk::kMovedFrom && y != tk::kMovedFrom,
                 "the comparator is called on an element that was moved away");
        return less(x, y);
    }
};

struct M {
    long prio, id;
};

template <typename T>
static void
Run(vp::Src& s, bool copyable) {
    long base = tk::g.live;
    std::vector<long> ranks;
    size_t nr = 1 + s.draw(8);
    for (size_t i = 0; i < nr; i++)
        ranks.push_back(long(s.draw(5)));
    Cmp cmp;
    cmp.rank = &ranks;
    cmp.mode = unsigned(s.draw(5));
    long range = s.coin() ? 4 : 1000;
    unsigned bias = unsigned(s.draw(3));
    uint64_t len = s.chance(1, 8) ? 300 : 30;
    VP_LOG("order %u, priorities below %ld\n", cmp.mode, range);
    typedef PriorityQueue<T, Cmp> Q;
    std::unique_ptr<Q> q(new Q(cmp));
    std::vector<M> m;
    long next = 1;
    size_t peak = 0, pops = 0;
    auto pop = [&]() {
        long peeked = IdOf(q->peek());
        T t = q->pop();
        long id = IdOf(t), prio = t.prio.v();
        VP_LOG("pop -> %ld (prio %ld)\n", id, prio);
        VP_CHECK(id == peeked, "peek showed element %ld, pop returned %ld", peeked, id);
        size_t at = m.size();
        for (size_t i = 0; i < m.size(); i++)
            if (m[i].id == id)
                at = i;
        VP_CHECK(at < m.size(), "pop returned element %ld, which is not in the queue", id);
        VP_CHECK(m[at].prio == prio, "element %ld came back with priority %ld instead of %ld", id, prio,
                 m[at].prio);
        for (size_t i = 0; i < m.size(); i++)
            VP_CHECK(!cmp.less(m[i].prio, prio),
                     "pop returned priority %ld although %ld, which comes first, is in the queue", prio,
                     m[i].prio);
        m.erase(m.begin() + at);
        pops++;
    };
    while (s.more(len)) {
        static const unsigned w[3][4] = {{12, 5, 2, 1}, {12, 12, 3, 1}, {20, 2, 2, 1}};
        switch (s.weighted(w[bias])) {
            case 0: {
                long p = long(s.draw(uint64_t(range)));
                long id = next++;
                unsigned how = unsigned(s.draw(copyable ? 4 : 2));
                if constexpr (std::is_copy_constructible<T>::value) {
                    if (how == 2) {
                        T t(p, id);
                        q->add(t);
                        VP_CHECK(IdOf(t) == id && t.prio.v() == p, "add(lvalue) changed its argument");
                    } else if (how == 3 && !m.empty()) {
                        // Adding a copy of an element of the queue itself.
                        const T& top = q->peek();
                        p = top.prio.v();
                        T copy(top);
                        (void)copy;
                        long oid = IdOf(top);
                        if (s.coin())
                            q->add(top);
                        else
                            q->emplace(top);
                        VP_LOG("add copy of %ld\n", oid);
                        // Two elements now share the id; find which by popping later: give the model both.
                        m.push_back(M{p, oid});
                        break;
                    } else {
                        if (how && id % 3 == 0)
                            q->emplace(T(p, id));
                        else if (how)
                            q->emplace(p, id);
                        else
                            q->add(T(p, id));
                    }
                } else {
                    if (how && id % 3 == 0)
                        q->emplace(T(p, id));
                    else if (how)
                        q->emplace(p, id);
                    else
                        q->add(T(p, id));
                }
                VP_LOG("add %ld (prio %ld)\n", id, p);
                m.push_back(M{p, id});
                break;
            }
            case 1:
                if (!m.empty())
                    pop();
                break;
            case 2:
                if (!m.empty()) {
                    const T& t = q->peek();
                    long p = t.prio.v();
                    for (size_t i = 0; i < m.size(); i++)
                        VP_CHECK(!cmp.less(m[i].prio, p), "peek shows priority %ld although %ld comes first",
                                 p, m[i].prio);
                }
                break;
            default: {
                std::unique_ptr<Q> n(new Q(std::move(*q)));
                VP_CHECK(q->empty(), "a moved-from queue is not empty");
                q = std::move(n);
                VP_LOG("move\n");
                if (m.size() > 1)
                    s.mark("moved with elements");
            }
        }
        if (m.size() > peak)
            peak = m.size();
        const Q& cq = *q;
        VP_CHECK(cq.empty() == m.empty(), "empty() is %d with %zu element(s)", cq.empty(), m.size());
        VP_CHECK(tk::g.live - base == long(m.size() * (copyable ? 2 : 1)),
                 "lifetime: %ld values are alive for %zu element(s)", tk::g.live - base, m.size());
    }
    if (s.coin()) {
        while (!m.empty())
            pop();
        VP_CHECK(q->empty(), "the queue is not empty after popping everything");
    }
    q.reset();
    VP_CHECK(tk::g.live == base, "lifetime: %ld values survive the queue", tk::g.live - base);
    if (peak >= 3 && pops >= 2)
        s.nontrivial();
    if (peak > 64)
        s.mark("more than 64 elements at once");
}

VP_TARGET(CopyableItems, 80000, 3000000, vp::kLeakCheck) { Run<Copyable>(s, true); }
VP_TARGET(MoveOnlyItems, 80000, 3000000, vp::kLeakCheck) { Run<MoveOnly>(s, false); }

// Sorting through the queue with the default order.
VP_TARGET(DefaultOrder, 40000, 1000000, vp::kLeakCheck) {
    size_t n = s.size(200);
    std::vector<long> v;
    PriorityQueue<long> q;
    PriorityQueue<long, std::greater<long>> g;
    for (size_t i = 0; i < n; i++) {
        long x = long(s.draw(s.coin() ? 8 : 100000));
        v.push_back(x);
        q.add(x);
        g.emplace(x);
    }
    VP_LOG("n=%zu", n);
    if (n >= 3)
        s.nontrivial();
    std::sort(v.begin(), v.end());
    for (size_t i = 0; i < n; i++) {
        VP_CHECK(!q.empty() && !g.empty(), "queue empty after %zu of %zu pops", i, n);
        long a = q.pop(), b = g.pop();
        VP_CHECK(a == v[i], "pop %zu gives %ld, expected %ld", i, a, v[i]);
        VP_CHECK(b == v[n - 1 - i], "pop %zu gives %ld, expected %ld", i, b, v[n - 1 - i]);
    }
    VP_CHECK(q.empty() && g.empty(), "elements left over");
}

// Many elements: pops come in sorted order whatever was added between them.
VP_TARGET(Large, 300, 10000, vp::kLeakCheck) {
    size_t n = LargeSize(s, 131071);
    unsigned how = unsigned(s.draw(4));
    uint64_t seed = s.draw(0) | 1, range = s.coin() ? 16 : ~uint64_t(0);
    PriorityQueue<uint64_t> q;
    std::vector<uint64_t> v;
    VP_LOG("%zu elements, pattern %u, range %#llx", n, how, (unsigned long long)range);
    s.nontrivial();
    for (size_t i = 0; i < n; i++) {
        seed = seed * 6364136223846793005u + 1442695040888963407u;
        uint64_t x = how == 0 ? i : how == 1 ? n - i : how == 2 ? (seed >> 20) % range : (i * 7919) % n;
        v.push_back(x);
        q.add(x);
    }
    std::sort(v.begin(), v.end());
    size_t half = s.draw(n + 1);
    for (size_t i = 0; i < half; i++) {
        VP_CHECK(!q.empty(), "the queue is empty after %zu pops of %zu", i, n);
        uint64_t x = q.pop();
        VP_CHECK(x == v[i], "pop %zu gives %llu, expected %llu", i, (unsigned long long)x, (unsigned long long)v[i]);
    }
    std::vector<uint64_t> w(v.begin() + half, v.end());
    size_t more = s.draw(n);
    for (size_t i = 0; i < more; i++) {
        seed = seed * 6364136223846793005u + 1442695040888963407u;
        w.push_back(seed >> 33);
        q.emplace(seed >> 33);
    }
    std::sort(w.begin(), w.end());
    PriorityQueue<uint64_t> r(std::move(q));
    for (size_t i = 0; i < w.size(); i++) {
        VP_CHECK(!r.empty(), "the queue is empty after %zu pops of %zu", i, w.size());
        VP_CHECK(r.peek() == w[i], "peek %zu gives another element", i);
        uint64_t x = r.pop();
        VP_CHECK(x == w[i], "pop %zu gives %llu, expected %llu", i, (unsigned long long)x, (unsigned long long)w[i]);
    }
    VP_CHECK(r.empty(), "elements are left over");
}
