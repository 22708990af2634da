// C08: vector and deque helpers do exactly the named edit.
// Non-trivial: at least 3 edits were made on a container with at least 2 elements.
#include "../engine/vp.h"

#include <deque>
#include <memory>
#include <memory_resource>
#include <set>
#include <vector>

#include <amtl/am-deque.h>
#include <amtl/am-vector.h>

#include "common/plain.h"
#include "common/sizes.h"
#include "common/track.h"

using ke::EmplaceAt;
using ke::EraseIf;
using ke::InsertAt;
using ke::MoveExtend;
using ke::PopBack;
using ke::PopFront;
using ke::RemoveAt;
using tk::Val;

struct Mo {
    Val a;
    std::unique_ptr<long> p;
    Mo(long v)
     : a(v),
       p(new long(v))
    {}
    Mo(long v, int extra)
     : a(v + extra),
       p(new long(v + extra))
    {}
    Mo(Mo&&) = default;
    Mo& operator =(Mo&&) = default;
    long v() const {
        VP_CHECK(p != nullptr && *p == a.v(), "an element lost its payload");
        return *p;
    }
};
struct Co {
    Val a;
    Co(long v)
     : a(v)
    {}
    Co(long v, int extra)
     : a(v + extra)
    {}
    long v() const {
        return a.v();
    }
};

template <typename Vec>
static void
Same(const Vec& v, const std::vector<long>& m, const char* what) {
    VP_CHECK(v.size() == m.size(), "%s: %zu elements, expected %zu", what, v.size(), m.size());
    for (size_t i = 0; i < m.size(); i++)
        VP_CHECK(v[i].v() == m[i], "%s: element %zu is %ld, expected %ld", what, i, v[i].v(), m[i]);
}

template <typename T>
static void
RunVector(vp::Src& s) {
    long base = tk::g.live;
    unsigned edits = 0;
    {
        std::vector<T> v[2];
        std::vector<long> m[2];
        long next = 1;
        if (s.coin())
            v[0].reserve(s.draw(40));
        while (s.more(25)) {
            size_t w = s.draw(2);
            std::vector<T>& x = v[w];
            std::vector<long>& y = m[w];
            if (y.size() >= 2)
                edits++;
            static const unsigned ws[] = {10, 5, 5, 6, 4, 3, 2};
            switch (s.weighted(ws)) {
                case 0: {
                    size_t at = s.draw(y.size() + 1);
                    long val = next++;
                    if constexpr (std::is_copy_constructible<T>::value) {
                        unsigned how = unsigned(s.draw(3));
                        if (how == 1) {
                            T t(val);
                            const T& ct = t;
                            InsertAt(&x, at, ct);
                            VP_CHECK(t.v() == val, "InsertAt(const&) changed its argument");
                            VP_LOG("insert copy of %ld at %zu of %zu\n", val, at, y.size());
                            y.insert(y.begin() + at, val);
                            break;
                        }
                        if (how == 2 && !y.empty()) {
                            size_t from = s.draw(y.size());
                            val = y[from];
                            const T& alias = x[from];
                            InsertAt(&x, at, alias);
                            VP_LOG("insert copy of own element %zu at %zu of %zu\n", from, at, y.size());
                            y.insert(y.begin() + at, val);
                            s.mark("inserted an element of the vector itself");
                            break;
                        }
                    }
                    InsertAt(&x, at, T(val));
                    VP_LOG("insert %ld at %zu of %zu\n", val, at, y.size());
                    y.insert(y.begin() + at, val);
                    break;
                }
                case 1: {
                    size_t at = s.draw(y.size() + 1);
                    long val = next++;
                    int extra = int(s.draw(3)) * 100000;
                    if (s.draw(4) == 3) {
                        // From a value of the same type: moved from as an rvalue, copied as an lvalue.
                        extra = 0;
                        if constexpr (std::is_copy_constructible<T>::value) {
                            T t(val);
                            EmplaceAt(&x, at, t);
                            VP_CHECK(t.v() == val, "EmplaceAt of an lvalue changed it");
                        } else {
                            EmplaceAt(&x, at, T(val));
                        }
                    } else if (extra)
                        EmplaceAt(&x, at, val, extra);
                    else
                        EmplaceAt(&x, at, val);
                    VP_LOG("emplace %ld at %zu of %zu\n", val + extra, at, y.size());
                    y.insert(y.begin() + at, val + extra);
                    break;
                }
                case 2:
                    if (!y.empty()) {
                        size_t at = s.draw(y.size());
                        RemoveAt(&x, at);
                        VP_LOG("remove at %zu of %zu\n", at, y.size());
                        y.erase(y.begin() + at);
                    }
                    break;
                case 3:
                    if (!y.empty()) {
                        long c = tk::g.copies;
                        T t = PopBack(&x);
                        VP_CHECK(tk::g.copies == c, "PopBack copies the value instead of moving it");
                        VP_LOG("pop back of %zu\n", y.size());
                        VP_CHECK(t.v() == y.back(), "PopBack returned %ld, expected %ld", t.v(), y.back());
                        y.pop_back();
                    }
                    break;
                case 4: {
                    long mod = 1 + long(s.draw(5)), r = long(s.draw(5));
                    VP_LOG("erase if %% %ld == %ld\n", mod, r);
                    EraseIf(&x, [=](const T& t) -> bool { return t.v() % mod == r; });
                    std::vector<long> k;
                    for (long e : y)
                        if (e % mod != r)
                            k.push_back(e);
                    if (k.size() != y.size() && !k.empty())
                        s.mark("erase-if removed some");
                    y.swap(k);
                    break;
                }
                case 5: {
                    VP_LOG("extend %zu (%zu) by %zu (%zu)\n", w, y.size(), 1 - w, m[1 - w].size());
                    MoveExtend(&x, &v[1 - w]);
                    if (!y.empty() && !m[1 - w].empty())
                        s.mark("extended a non-empty vector");
                    y.insert(y.end(), m[1 - w].begin(), m[1 - w].end());
                    m[1 - w].clear();
                    VP_CHECK(v[1 - w].empty(), "the source of MoveExtend has %zu element(s) left",
                             v[1 - w].size());
                    break;
                }
                default:
                    x.shrink_to_fit();
            }
            Same(v[0], m[0], "vector 0");
            Same(v[1], m[1], "vector 1");
            VP_CHECK(pl::kUncounted<T> || tk::g.live - base == long(m[0].size() + m[1].size()),
                     "lifetime: %ld values are alive, the vectors hold %zu", tk::g.live - base,
                     m[0].size() + m[1].size());
        }
    }
    VP_CHECK(tk::g.live == base, "lifetime: values survive their vectors");
    if (edits >= 3)
        s.nontrivial();
}

template <typename T>
static void
RunDeque(vp::Src& s) {
    long base = tk::g.live;
    unsigned edits = 0;
    {
        std::deque<T> d;
        std::vector<long> m;
        long next = 1;
        uint64_t len = s.chance(1, 10) ? 400 : 30;
        while (s.more(len)) {
            if (m.size() >= 2)
                edits++;
            static const unsigned w[] = {8, 8, 5, 5};
            switch (s.weighted(w)) {
                case 0:
                    d.emplace_back(next);
                    m.push_back(next++);
                    break;
                case 1:
                    d.emplace_front(next);
                    m.insert(m.begin(), next++);
                    break;
                case 2:
                    if (!m.empty()) {
                        long c = tk::g.copies;
                        T t = PopBack(&d);
                        VP_LOG("PopBack of %zu\n", m.size());
                        VP_CHECK(t.v() == m.back(), "PopBack returned %ld, expected %ld", t.v(), m.back());
                        VP_CHECK(tk::g.copies == c, "PopBack copies the value instead of moving it");
                        m.pop_back();
                    }
                    break;
                default:
                    if (!m.empty()) {
                        long c = tk::g.copies;
                        T t = PopFront(&d);
                        VP_LOG("PopFront of %zu\n", m.size());
                        VP_CHECK(t.v() == m.front(), "PopFront returned %ld, expected %ld", t.v(), m.front());
                        VP_CHECK(tk::g.copies == c, "PopFront copies the value instead of moving it");
                        m.erase(m.begin());
                    }
            }
            Same(d, m, "deque");
            VP_CHECK(pl::kUncounted<T> || tk::g.live - base == long(m.size()), "lifetime: %ld values are alive for %zu elements",
                     tk::g.live - base, m.size());
        }
    }
    VP_CHECK(tk::g.live == base, "lifetime: values survive their deque");
    if (edits >= 3)
        s.nontrivial();
}

VP_TARGET(VectorCopyable, 60000, 2000000, vp::kLeakCheck) { RunVector<Co>(s); }
VP_TARGET(VectorMoveOnly, 60000, 2000000, vp::kLeakCheck) { RunVector<Mo>(s); }
VP_TARGET(DequeCopyable, 40000, 1000000, vp::kLeakCheck) { RunDeque<Co>(s); }
VP_TARGET(DequeMoveOnly, 40000, 1000000, vp::kLeakCheck) { RunDeque<Mo>(s); }
VP_TARGET(PlainElements, 60000, 2000000, vp::kLeakCheck) {
    switch (s.draw(6)) {
        case 0:
            return RunVector<pl::Small>(s);
        case 1:
            return RunVector<pl::Big>(s);
        case 2:
            return RunVector<pl::Text>(s);
        case 3:
            return RunDeque<pl::Small>(s);
        case 4:
            return RunDeque<pl::Big>(s);
        default:
            return RunDeque<pl::Text>(s);
    }
}

// Vectors with stateful allocators that cannot share storage.
VP_TARGET(UnequalAllocators, 40000, 1000000, vp::kLeakCheck) {
    long base = tk::g.live;
    {
        std::pmr::monotonic_buffer_resource r1(std::pmr::new_delete_resource()),
            r2(std::pmr::new_delete_resource());
        std::pmr::vector<Mo> a(&r1), b(&r2);
        std::vector<long> ma, mb;
        long next = 1;
        size_t na = s.draw(6), nb = s.draw(6);
        for (size_t i = 0; i < na; i++) {
            a.emplace_back(next);
            ma.push_back(next++);
        }
        for (size_t i = 0; i < nb; i++) {
            b.emplace_back(next);
            mb.push_back(next++);
        }
        VP_LOG("extend %zu by %zu", na, nb);
        if (nb)
            s.nontrivial();
        MoveExtend(&a, &b);
        ma.insert(ma.end(), mb.begin(), mb.end());
        Same(a, ma, "destination");
        VP_CHECK(b.empty(), "the source of MoveExtend has elements left");
        if (!ma.empty()) {
            Mo t = PopBack(&a);
            VP_CHECK(t.v() == ma.back(), "PopBack returned %ld", t.v());
            ma.pop_back();
        }
        if (!ma.empty()) {
            size_t at = s.draw(ma.size());
            RemoveAt(&a, at);
            ma.erase(ma.begin() + at);
        }
        InsertAt(&a, ma.size() / 2, Mo(next));
        ma.insert(ma.begin() + ma.size() / 2, next);
        EraseIf(&a, [](const Mo& x) -> bool { return x.v() % 2 == 0; });
        std::vector<long> k;
        for (long e : ma)
            if (e % 2)
                k.push_back(e);
        Same(a, k, "destination");
    }
    VP_CHECK(tk::g.live == base, "lifetime: values survive their vectors");
}

// Many elements: edits anywhere, judged by what std::vector does.
VP_TARGET(Large, 2000, 60000, vp::kLeakCheck) {
    size_t n = LargeSize(s, 131071);
    std::vector<uint32_t> x(n), y, more;
    for (size_t i = 0; i < n; i++)
        x[i] = uint32_t(i * 2654435761u);
    y = x;
    s.nontrivial();
    VP_LOG("%zu elements", n);
    size_t steps = 1 + s.draw(6);
    auto same = [&](const char* what) {
        VP_CHECK(x.size() == y.size(), "%s: %zu elements, expected %zu", what, x.size(), y.size());
        VP_CHECK(x == y, "%s: element %zu differs", what, size_t(std::mismatch(x.begin(), x.end(), y.begin()).first - x.begin()));
    };
    for (size_t k = 0; k < steps; k++) {
        size_t at = y.empty() ? 0 : s.draw(4) ? s.draw(y.size()) : y.size() - 1;
        uint32_t val = uint32_t(s.draw(0));
        switch (s.draw(6)) {
            case 0:
                VP_LOG("insert at %zu", at);
                InsertAt(&x, at, val);
                y.insert(y.begin() + at, val);
                break;
            case 1:
                VP_LOG("emplace at %zu", at);
                EmplaceAt(&x, at, val);
                y.insert(y.begin() + at, val);
                break;
            case 2:
                if (y.empty())
                    break;
                VP_LOG("remove at %zu", at);
                RemoveAt(&x, at);
                y.erase(y.begin() + at);
                break;
            case 3: {
                uint32_t mod = 1 + uint32_t(s.draw(1000)), r = uint32_t(s.draw(mod));
                bool keep = s.coin();
                VP_LOG("erase if %% %u %s %u", mod, keep ? "!=" : "==", r);
                EraseIf(&x, [=](uint32_t v) -> bool { return (v % mod == r) != keep; });
                std::vector<uint32_t> z;
                for (uint32_t v : y)
                    if ((v % mod == r) == keep)
                        z.push_back(v);
                y.swap(z);
                break;
            }
            case 4: {
                size_t m = LargeSize(s, 131071);
                more.clear();
                for (size_t i = 0; i < m; i++)
                    more.push_back(uint32_t(i ^ val));
                y.insert(y.end(), more.begin(), more.end());
                VP_LOG("extend by %zu", m);
                MoveExtend(&x, &more);
                VP_CHECK(more.empty(), "the source of MoveExtend has elements left");
                break;
            }
            default:
                if (y.empty())
                    break;
                VP_LOG("pop back");
                uint32_t back = PopBack(&x);
                VP_CHECK(back == y.back(), "PopBack returned another element");
                y.pop_back();
        }
        same("vector");
    }
    std::deque<uint32_t> d(y.begin(), y.end());
    size_t from = 0, to = y.size();
    for (size_t k = s.draw(3000); k > 0 && from < to; k--) {
        if (k & 1)
            VP_CHECK(PopFront(&d) == y[from++], "PopFront returned another element");
        else
            VP_CHECK(PopBack(&d) == y[--to], "PopBack returned another element");
    }
    VP_CHECK(d.size() == to - from && std::equal(d.begin(), d.end(), y.begin() + from), "the deque lost elements");
}

// The predicate may remember what it has seen: it is asked about every element once, front to back.
VP_TARGET(Seen, 60000, 1000000, vp::kLeakCheck) {
    size_t n = s.size(24);
    std::vector<Mo> v;
    std::vector<long> m;
    for (size_t i = 0; i < n; i++) {
        long e = long(s.draw(8));
        v.push_back(Mo(e));
        m.push_back(e);
    }
    std::vector<long> want;
    unsigned kind = unsigned(s.draw(3));
    if (kind == 0) {
        // Drop repetitions.
        VP_LOG("drop the repetitions among %zu", n);
        std::set<long> seen, ref;
        EraseIf(&v, [&](const Mo& x) -> bool { return !seen.insert(x.v()).second; });
        for (long e : m)
            if (ref.insert(e).second)
                want.push_back(e);
    } else if (kind == 1) {
        // Drop the first few.
        int left = int(s.draw(5)), ref = left;
        long limit = long(s.draw(8));
        VP_LOG("drop the first %d elements below %ld among %zu", left, limit, n);
        EraseIf(&v, [&](const Mo& x) -> bool { return x.v() < limit && left-- > 0; });
        for (long e : m)
            if (!(e < limit && ref-- > 0))
                want.push_back(e);
    } else {
        // Drop what was decided beforehand, element by element.
        std::vector<bool> drop;
        for (size_t i = 0; i < n; i++)
            drop.push_back(s.coin());
        size_t at = 0;
        VP_LOG("drop by position among %zu", n);
        EraseIf(&v, [&](const Mo& x) -> bool {
            VP_CHECK(at < n, "the predicate is asked more often than there are elements");
            VP_CHECK(x.v() == m[at], "the predicate is asked about %ld, expected element %zu, %ld", x.v(), at, m[at]);
            return drop[at++];
        });
        VP_CHECK(at == n, "the predicate was asked about %zu of %zu elements", at, n);
        for (size_t i = 0; i < n; i++)
            if (!drop[i])
                want.push_back(m[i]);
    }
    if (!want.empty() && want.size() != n)
        s.nontrivial();
    Same(v, want, "vector");
}
