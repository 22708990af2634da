// C06: fixed array has value semantics, exact lifetimes and safe failed allocation.
// Non-trivial: at least one assignment, copy or move between arrays with elements, or a refused or
// overflowing allocation followed by another operation.
#include "../engine/vp.h"

#include <assert.h>

#include <limits>
#include <memory>
#include <string>
#include <vector>

#include <amtl/am-fixedarray.h>

#include "common/sizes.h"
#include "common/track.h"

using ke::FixedArray;
using tk::Val;

typedef FixedArray<Val, tk::Policy> FA;

struct Slot {
    FA* a = nullptr;
    std::vector<long> m;
    bool ok = true;  // initialised
    size_t failed_size = 0;
};

class Run
{
    vp::Src& s;
    bool inject;
    tk::Arena arena;
    Slot slots[5];
    int next_who = 1;
    long next = 1;
    unsigned copies = 0, refused_then = 0;
    bool saw_refusal = false;
    long base;

  public:
    Run(vp::Src& src, bool inj)
     : s(src),
       inject(inj)
    {}

    void go() {
        tk::g_default_arena = &arena;
        base = tk::g.live;
        while (s.more(25)) {
            if (saw_refusal)
                refused_then++;
            step();
            check();
        }
        for (Slot& sl : slots)
            drop(sl);
        check();
        VP_CHECK(arena.n == 0, "memory: %zu block(s) were never released", arena.n);
        if (inject ? refused_then > 0 : copies > 0)
            s.nontrivial();
    }

  private:
    void check() {
        long live = 0;
        size_t blocks = 0;
        for (size_t i = 0; i < 5; i++) {
            Slot& sl = slots[i];
            if (!sl.a)
                continue;
            const FA& c = *sl.a;
            if (!sl.ok) {
                VP_CHECK(!sl.a->initialize(), "slot %zu: initialize() is true after a failed allocation", i);
                continue;
            }
            VP_CHECK(sl.a->initialize(), "slot %zu: initialize() is false although nothing failed", i);
            VP_CHECK(c.size() == sl.m.size(), "slot %zu: size() is %zu, expected %zu", i, c.size(),
                     sl.m.size());
            VP_CHECK(c.empty() == sl.m.empty(), "slot %zu: empty() is %d", i, c.empty());
            VP_CHECK(size_t(c.end() - c.begin()) == sl.m.size() &&
                         size_t(sl.a->end() - sl.a->begin()) == sl.m.size(),
                     "slot %zu: begin()..end() has another length", i);
            VP_CHECK(sl.m.empty() || (c.buffer() == c.begin() && sl.a->begin() == c.begin()),
                     "slot %zu: buffer() is not begin()", i);
            for (size_t k = 0; k < sl.m.size(); k++) {
                VP_CHECK(c[k].v() == sl.m[k], "slot %zu: element %zu is %ld, expected %ld", i, k, c[k].v(),
                         sl.m[k]);
                VP_CHECK(&c[k] == &c.at(k) && &c[k] == c.begin() + k, "slot %zu: accessors disagree", i);
            }
            if (!sl.m.empty())
                VP_CHECK(&c.back() == &c[sl.m.size() - 1] && &sl.a->back() == &c.back(),
                         "slot %zu: back() is not the last element", i);
            live += long(sl.m.size());
            (void)blocks;
        }
        VP_CHECK(tk::g.live - base == live, "lifetime: %ld elements are alive, the arrays hold %ld",
                 tk::g.live - base, live);
    }

    void drop(Slot& sl) {
        delete sl.a;
        sl.a = nullptr;
        sl.m.clear();
        sl.ok = true;
    }

    bool arm() {
        if (inject && s.chance(1, 3)) {
            arena.fail_all = true;
            return true;
        }
        return false;
    }
    void result(Slot& sl, unsigned long refused_before, const std::vector<long>& want) {
        arena.fail_all = false;
        bool refused = arena.refused > refused_before;
        sl.m = want;
        sl.ok = !(refused && !want.empty());
        if (refused) {
            saw_refusal = true;
            s.mark("refused");
            // An implementation that needed no memory may still have succeeded.
            if (!sl.ok && sl.a->initialize() && sl.a->size() == want.size())
                sl.ok = true;
        }
        if (!sl.ok)
            sl.m.clear();
    }

    void owner_is(size_t before, int who, const char* what) {
        if (arena.n > before)
            VP_CHECK(arena.owner[arena.n - 1] == who, "policy: %s allocated through policy %d, expected %d",
                     what, arena.owner[arena.n - 1], who);
    }

    int who_of(Slot& sl) {
        // The policy that allocated the block the array shows.
        for (size_t i = 0; i < arena.n; i++)
            if (sl.a->buffer() && arena.ptr[i] == (void*)sl.a->buffer())
                return arena.owner[i];
        return -1;
    }

    void step() {
        static const unsigned w[] = {8, 1, 4, 4, 3, 3, 6, 6, 5, 2, 2, 2};
        size_t op = s.weighted(w);
        size_t i = s.draw(5), j = s.draw(5);
        Slot &a = slots[i], &b = slots[j];
        unsigned long rf = arena.refused;
        size_t nb = arena.n;
        switch (op) {
            case 0: {
                drop(a);
                nb = arena.n;
                size_t n = s.size(40);
                int who = next_who++;
                bool f = arm();
                a.a = new FA(n, tk::Policy(&arena, who));
                VP_LOG("%zu: sized(%zu)%s\n", i, n, f ? " refused" : "");
                result(a, rf, std::vector<long>(n, tk::kDefault));
                owner_is(nb, who, "sized construction");
                break;
            }
            case 1:
                drop(a);
                a.a = new FA();
                VP_LOG("%zu: default\n", i);
                break;
            case 2: {
                if (i == j || !b.a || !b.ok)
                    break;
                drop(a);
                nb = arena.n;
                int who = who_of(b);
                arm();
                a.a = new FA(*(const FA*)b.a);
                VP_LOG("%zu: copy of %zu\n", i, j);
                result(a, rf, b.m);
                if (who >= 0 && !b.m.empty())
                    owner_is(nb, who, "copy construction (the source's policy)");
                if (!b.m.empty())
                    copies++;
                break;
            }
            case 3: {
                if (i == j || !b.a)
                    break;
                drop(a);
                long ctors = tk::g.ctors;
                a.a = new FA(std::move(*b.a));
                VP_LOG("%zu: moved from %zu\n", i, j);
                (void)ctors;
                moved(a, b);
                break;
            }
            case 4: {
                drop(a);
                nb = arena.n;
                size_t n = s.size(20);
                {
                    std::vector<Val> v;
                    std::vector<long> m;
                    for (size_t k = 0; k < n; k++) {
                        v.emplace_back(next);
                        m.push_back(next++);
                    }
                    const std::vector<Val>& cv = v;
                    arm();
                    a.a = new FA(cv);
                    arena.fail_all = false;
                    for (size_t k = 0; k < n; k++)
                        VP_CHECK(v[k].v() == m[k], "construction from a const vector changed the vector");
                    VP_LOG("%zu: from const vector of %zu\n", i, n);
                    result(a, rf, m);
                }
                break;
            }
            case 5: {
                drop(a);
                size_t n = s.size(20);
                {
                    std::vector<Val> v;
                    std::vector<long> m;
                    for (size_t k = 0; k < n; k++) {
                        v.emplace_back(next);
                        m.push_back(next++);
                    }
                    arm();
                    long c = tk::g.copies;
                    a.a = new FA(std::move(v));
                    VP_CHECK(tk::g.copies == c, "construction from an rvalue vector copies elements");
                    VP_LOG("%zu: from rvalue vector of %zu\n", i, n);
                    result(a, rf, m);
                }
                break;
            }
            case 6: {
                // Copy assignment, also to itself.
                if (!a.a || !b.a || !b.ok)
                    break;
                arm();
                const FA& src = *b.a;
                FA& r = (*a.a = src);
                VP_CHECK(&r == a.a, "copy assignment does not return the array");
                VP_LOG("%zu = %zu\n", i, j);
                if (i == j) {
                    arena.fail_all = false;
                    s.mark("self copy-assignment");
                } else {
                    bool was_failed = !a.ok;
                    std::vector<long> want = b.m;
                    result(a, rf, want);
                    if (was_failed)
                        s.mark("assigned after a failed allocation");
                }
                if (!b.m.empty())
                    copies++;
                break;
            }
            case 7: {
                if (!a.a || !b.a)
                    break;
                FA* src = b.a;
                FA& r = (*a.a = std::move(*src));
                VP_CHECK(&r == a.a, "move assignment does not return the array");
                VP_LOG("%zu = move(%zu)\n", i, j);
                if (i == j) {
                    s.mark("self move-assignment");
                    // Unchanged or emptied are both acceptable; nothing may leak.
                    if (a.ok && a.a->size() == 0)
                        a.m.clear();
                } else {
                    moved(a, b);
                }
                copies++;
                break;
            }
            case 8:
                if (a.a && a.ok && !a.m.empty()) {
                    size_t k = s.draw(a.m.size());
                    long v = next++;
                    switch (s.draw(5)) {
                        case 0:
                            (*a.a)[k].set(v);
                            break;
                        case 1:
                            a.a->at(k) = Val(v);
                            break;
                        case 2:
                            k = a.m.size() - 1;
                            a.a->back() = Val(v);
                            break;
                        case 3:
                            a.a->begin()[k].set(v);
                            break;
                        default:
                            a.a->buffer()[k].set(v);
                    }
                    a.m[k] = v;
                    VP_LOG("%zu[%zu] = %ld\n", i, k, v);
                }
                break;
            case 9:
                if (a.a && b.a && a.ok && b.ok) {
                    bool eq = *a.a == *b.a, ne = *a.a != *b.a;
                    VP_CHECK(eq == (a.m == b.m), "%zu == %zu is %d", i, j, eq);
                    VP_CHECK(ne == !eq, "!= is not the negation of ==");
                    s.mark(a.m == b.m ? "compared equal" : "compared unequal");
                }
                break;
            case 10:
                VP_LOG("%zu: destroy\n", i);
                drop(a);
                break;
            default:
                if (inject) {
                    // A byte size that overflows, or is absurd.
                    drop(a);
                    size_t unit = sizeof(Val);
                    size_t n;
                    if (s.coin())
                        n = (size_t(1) << (63 - s.draw(3))) / (unit / 4) + s.draw(40);
                    else
                        n = size_t(-1) / unit + 1 + s.draw(40);
                    size_t bytes = 0;
                    bool over = __builtin_mul_overflow(n, unit, &bytes);
                    arena.refuse_above = size_t(1) << 30;
                    unsigned long reports = arena.overflows;
                    a.a = new FA(n, tk::Policy(&arena, next_who++));
                    arena.refuse_above = size_t(-1);
                    VP_LOG("%zu: sized(%zu) %s\n", i, n, over ? "overflowing" : "huge");
                    VP_CHECK(!a.a->initialize(), "an array of %zu elements of %zu bytes says it is initialised",
                             n, unit);
                    VP_CHECK((arena.overflows > reports) == over, "an array of %zu elements of %zu bytes %s an overflow", n,
                             unit, over ? "did not report" : "reported");
                    a.ok = false;
                    a.m.clear();
                    saw_refusal = true;
                    if (over)
                        s.mark("byte size overflows");
                }
        }
    }

    void moved(Slot& to, Slot& from) {
        to.m = from.m;
        to.ok = from.ok;
        from.m.clear();
        from.ok = true;
        VP_CHECK(from.a->size() == 0 && from.a->empty() && from.a->initialize(),
                 "a moved-from array is not empty (size %zu)", from.a->size());
        if (!to.m.empty())
            copies++;
    }
};

VP_TARGET(ValueSemantics, 100000, 4000000, vp::kLeakCheck) {
    Run r(s, false);
    r.go();
}

VP_TARGET(FailedAllocation, 100000, 4000000, vp::kLeakCheck) {
    Run r(s, true);
    r.go();
}

// The default policy, ordinary element types and heterogeneous vectors.
template <typename T>
struct OtherAlloc {
    typedef T value_type;
    OtherAlloc() {}
    template <typename U>
    OtherAlloc(const OtherAlloc<U>&) {}
    T* allocate(size_t n) {
        return (T*)malloc(n * sizeof(T) + 1);
    }
    void deallocate(T* p, size_t) {
        free(p);
    }
    bool operator ==(const OtherAlloc&) const {
        return true;
    }
    bool operator !=(const OtherAlloc&) const {
        return false;
    }
};

VP_TARGET(PlainTypes, 40000, 400000, vp::kLeakCheck) {
    size_t n = s.size(60);
    VP_LOG("n=%zu", n);
    if (n)
        s.nontrivial();
    FixedArray<int> zeros(n);
    VP_CHECK(zeros.size() == n, "size() is %zu, expected %zu", zeros.size(), n);
    for (size_t i = 0; i < n; i++)
        VP_CHECK(zeros[i] == 0, "element %zu of a fresh int array is %d", i, zeros[i]);
    std::vector<std::string> v;
    for (size_t i = 0; i < n; i++)
    {
        size_t len = s.draw(40);
        v.push_back(std::string(len, char('a' + s.draw(26))));
    }
    std::vector<std::string, OtherAlloc<std::string>> ov(v.begin(), v.end());
    FixedArray<std::string> a(v), b(ov), c(std::vector<std::string>(v.begin(), v.end()));
    VP_CHECK(a.size() == n && b.size() == n && c.size() == n, "wrong sizes from vectors");
    for (size_t i = 0; i < n; i++)
        VP_CHECK(a[i] == v[i] && b[i] == v[i] && c[i] == v[i], "element %zu differs from the vector", i);
    VP_CHECK(a == b && !(a != b), "equal arrays compare unequal");
    FixedArray<std::string> d(a);
    if (n) {
        size_t k = s.draw(n);
        d[k].push_back('!');
        VP_CHECK(a[k] == v[k], "changing a copy changed its source");
        VP_CHECK(a != d && !(a == d), "different arrays compare equal");
        FixedArray<std::string> shorter(n - 1);
        VP_CHECK(shorter != a, "arrays of different length compare equal");
        d = shorter;
        VP_CHECK(d.size() == n - 1, "assignment kept the old length");
    }
    d = std::move(a);
    VP_CHECK(a.empty() && d == b, "move assignment lost elements");
    // Move-only elements.
    std::vector<std::unique_ptr<int>> up;
    for (size_t i = 0; i < n; i++)
        up.emplace_back(new int(int(i)));
    FixedArray<std::unique_ptr<int>> m(std::move(up));
    FixedArray<std::unique_ptr<int>> m2(std::move(m));
    m = std::move(m2);
    for (size_t i = 0; i < n; i++)
        VP_CHECK(m[i] && *m[i] == int(i), "move-only element %zu lost", i);
}

VP_TARGET(Large, 1500, 40000, vp::kLeakCheck) {
    size_t n = LargeSize(s, 1048575);
    uint32_t mul = uint32_t(s.draw(0)) | 1;
    VP_LOG("%zu elements", n);
    s.nontrivial();
    std::vector<uint32_t> v(n);
    for (size_t i = 0; i < n; i++)
        v[i] = uint32_t(i) * mul;
    FixedArray<uint32_t> fresh(n), a(v);
    VP_CHECK(fresh.size() == n && a.size() == n && fresh.initialize() && a.initialize(), "size() is not the length asked for");
    for (size_t i = 0; i < n; i++)
        VP_CHECK(fresh[i] == 0 && a[i] == v[i], "element %zu is not what it was made of", i);
    VP_CHECK(a.back() == v.back(), "back() is not the last element");
    FixedArray<uint32_t> b(a);
    VP_CHECK(a == b && !(a != b), "a copy compares unequal");
    size_t k = s.draw(3) ? s.draw(n) : n - 1;
    b[k] ^= 1u << s.draw(32);
    VP_CHECK(a != b && !(a == b), "arrays of %zu elements that differ in element %zu compare equal", n, k);
    VP_CHECK(a[k] == v[k], "changing a copy changed its source");
    fresh = b;
    VP_CHECK(fresh == b && fresh.size() == n, "assignment did not copy everything");
    b[k] = v[k];
    VP_CHECK(fresh != b, "assignment did not make a copy of its own");
    FixedArray<uint32_t> c(std::move(b));
    VP_CHECK(b.size() == 0 && c == a, "a move lost elements");
    a = std::move(c);
    VP_CHECK(c.size() == 0 && a.size() == n && memcmp(&a[0], v.data(), n * 4) == 0, "a move lost elements");
}

// Equality is that of the elements, whatever their bytes are.
struct Coarse {
    int key = 0;
    int rest = 0;
    bool operator ==(const Coarse& o) const {
        return key == o.key;
    }
    bool operator !=(const Coarse& o) const {
        return key != o.key;
    }
};
struct Padded {
    char tag;
    double value;
    Padded() {
        memset((void*)this, 0, sizeof(*this));
    }
    Padded(char t, double v, int pad) {
        memset((void*)this, pad, sizeof(*this));
        tag = t;
        value = v;
    }
    Padded(const Padded& o) {
        memcpy((void*)this, (const void*)&o, sizeof(*this));
    }
    Padded& operator =(const Padded& o) {
        memmove((void*)this, (const void*)&o, sizeof(*this));
        return *this;
    }
    bool operator ==(const Padded& o) const {
        return tag == o.tag && value == o.value;
    }
    bool operator !=(const Padded& o) const {
        return !(*this == o);
    }
};

template <typename T, typename Gen>
static void
CompareArrays(vp::Src& s, Gen&& gen) {
    size_t n = 1 + s.size(12);
    std::vector<T> x, y;
    for (size_t i = 0; i < n; i++) {
        x.push_back(gen());
        y.push_back(s.draw(4) ? x.back() : gen());
    }
    if (s.draw(4) == 3)
        y.pop_back();
    bool want = x.size() == y.size();
    for (size_t i = 0; i < y.size() && want; i++)
        want = x[i] == y[i];
    // Not an array with itself, for which a shortcut is conceivable: NaN is not equal to itself.
    FixedArray<T> a(x), b(y);
    VP_LOG("%zu and %zu elements, expected to be %s", x.size(), y.size(), want ? "equal" : "different");
    VP_CHECK((a == b) == want && (b == a) == want, "arrays that are %s compare otherwise", want ? "equal" : "different");
    VP_CHECK((a != b) == !want && (b != a) == !want, "!= is not the negation of ==");
    bool bytes = x.size() == y.size() && memcmp((const void*)x.data(), (const void*)y.data(), n * sizeof(T)) == 0;
    if (bytes != want)
        s.nontrivial();
}

VP_TARGET(Equality, 40000, 400000, 0) {
    switch (s.draw(4)) {
        case 0: {
            static const double v[] = {0.0, -0.0, 1.0, -1.0, std::numeric_limits<double>::quiet_NaN(), 1e300};
            CompareArrays<double>(s, [&] { return v[s.draw(6)]; });
            break;
        }
        case 1:
            CompareArrays<Coarse>(s, [&] {
                Coarse c;
                c.key = int(s.draw(3));
                c.rest = int(s.draw(3));
                return c;
            });
            break;
        case 2:
            CompareArrays<Padded>(s, [&] { return Padded(char(s.draw(2)), double(s.draw(2)), s.coin() ? 0 : 0x55); });
            break;
        default: {
            static const float v[] = {0.0f, -0.0f, 2.0f, std::numeric_limits<float>::quiet_NaN()};
            CompareArrays<float>(s, [&] { return v[s.draw(4)]; });
        }
    }
}
