// C09: Maybe holds at most one value, aligned, and destroys it exactly once.
// Non-trivial: a valid Maybe was assigned to, re-initialised, copied or moved.
#include "../engine/vp.h"

#include <memory>
#include <string>
#include <vector>

#include <amtl/am-maybe.h>

#include "common/plain.h"
#include "common/track.h"

using ke::Maybe;
using ke::Nothing;
using ke::Some;
using ke::StorageBuffer;
using tk::Val;

struct MoveOnly {
    Val a;
    std::unique_ptr<long> p;
    MoveOnly(long v)
     : a(v),
       p(new long(v))
    {}
    MoveOnly(MoveOnly&&) = default;
    MoveOnly& operator =(MoveOnly&&) = default;
    long v() const {
        VP_CHECK(p != nullptr && *p == a.v(), "the value lost its payload");
        return *p;
    }
};

template <typename T>
static void
Run(vp::Src& s) {
    const bool kCopy = std::is_copy_constructible<T>::value;
    long base = tk::g.live;
    {
        typedef Maybe<T> M;
        struct Slot {
            std::unique_ptr<M> p;
            bool valid = false;
            long v = 0;
        };
        Slot sl[4];
        long next = 1;
        bool interesting = false;
        auto check = [&]() {
            long live = 0;
            for (int i = 0; i < 4; i++) {
                if (!sl[i].p)
                    continue;
                M& m = *sl[i].p;
                const M& c = m;
                VP_CHECK(c.isValid() == sl[i].valid, "slot %d: isValid() is %d, expected %d", i, c.isValid(),
                         sl[i].valid);
                VP_CHECK(bool(c) == sl[i].valid, "slot %d: conversion to bool is %d", i, bool(c));
                if (sl[i].valid) {
                    live++;
                    VP_CHECK((*c).v() == sl[i].v, "slot %d: holds %ld, expected %ld", i, (*c).v(), sl[i].v);
                    VP_CHECK(&*m == &m.get() && &c.get() == &*c && &*c == &*m, "slot %d: accessors disagree",
                             i);
                    VP_CHECK(m->v() == sl[i].v && c->v() == sl[i].v, "slot %d: operator -> gives another value",
                             i);
                    VP_CHECK((void*)&*m >= (void*)&m && (void*)(&*m + 1) <= (void*)(&m + 1),
                             "slot %d: the value is not inside the object", i);
                }
            }
            VP_CHECK(pl::kUncounted<T> || tk::g.live - base == live, "lifetime: %ld values are alive, %ld should be",
                     tk::g.live - base, live);
        };
        while (s.more(25)) {
            int i = int(s.draw(4)), j = int(s.draw(4));
            Slot &a = sl[i], &b = sl[j];
            static const unsigned w[] = {3, 8, 3, 3, 5, 5, 2, 3, 2};
            size_t op = s.weighted(w);
            if (op > 1 && a.valid)
                interesting = true;
            switch (op) {
                case 0:
                    a.p.reset(s.coin() ? new M() : new M(Nothing()));
                    a.valid = false;
                    VP_LOG("%d: empty\n", i);
                    break;
                case 1: {
                    if (!a.p)
                        a.p.reset(new M());
                    if (a.valid) {
                        interesting = true;
                        s.mark("re-initialised");
                    }
                    long v = next++;
                    long c = tk::g.copies;
                    if (s.coin()) {
                        a.p->init(v);
                        VP_CHECK(tk::g.copies == c, "init(args) copies");
                    } else {
                        a.p->init(T(v));
                        VP_CHECK(tk::g.copies == c, "init(rvalue) copies instead of moving");
                    }
                    a.valid = true;
                    a.v = v;
                    VP_LOG("%d: init %ld\n", i, v);
                    break;
                }
                case 2:
                    if constexpr (std::is_copy_constructible<T>::value) {
                        if (i != j && b.p) {
                            const M& src = *b.p;
                            a.p.reset(new M(src));
                            a.valid = b.valid;
                            a.v = b.v;
                            VP_LOG("%d: copy of %d\n", i, j);
                        }
                    }
                    break;
                case 3:
                    if (i != j && b.p) {
                        a.p.reset(new M(std::move(*b.p)));
                        a.valid = b.valid;
                        a.v = b.v;
                        b.valid = false;
                        VP_LOG("%d: moved from %d\n", i, j);
                    }
                    break;
                case 4:
                    if constexpr (std::is_copy_constructible<T>::value) {
                        if (a.p && b.p) {
                            const M& src = *b.p;
                            M& r = (*a.p = src);
                            VP_CHECK(&r == a.p.get(), "assignment does not return the object");
                            a.valid = b.valid;
                            a.v = b.v;
                            VP_LOG("%d = %d\n", i, j);
                            if (i == j && a.valid)
                                s.mark("self copy-assignment of a value");
                        }
                    }
                    break;
                case 5:
                    if (a.p && b.p) {
                        M* src = b.p.get();
                        M& r = (*a.p = std::move(*src));
                        VP_CHECK(&r == a.p.get(), "assignment does not return the object");
                        VP_LOG("%d = move(%d)\n", i, j);
                        if (i != j) {
                            a.valid = b.valid;
                            a.v = b.v;
                            b.valid = false;
                        } else {
                            if (a.valid)
                                s.mark("self move-assignment of a value");
                            // An assignment to itself changes nothing.
                        }
                    }
                    break;
                case 6:
                    a.p.reset();
                    a.valid = false;
                    VP_LOG("%d: destroyed\n", i);
                    break;
                case 7: {
                    long v = next++;
                    if (s.coin() || !kCopy) {
                        a.p.reset(new M(Some(T(v))));
                    } else if constexpr (std::is_copy_constructible<T>::value) {
                        const T t(v);
                        a.p.reset(new M(Some(t)));
                        VP_CHECK(t.v() == v, "Some(const lvalue) changed its argument");
                    }
                    a.valid = true;
                    a.v = v;
                    VP_LOG("%d: Some(%ld)\n", i, v);
                    break;
                }
                default:
                    if (a.p && a.valid) {
                        long v = next++;
                        switch (s.draw(3)) {
                            case 0:
                                **a.p = T(v);
                                break;
                            case 1:
                                a.p->get() = T(v);
                                break;
                            default:
                                *(a.p->operator ->()) = T(v);
                        }
                        a.v = v;
                        VP_LOG("%d: value set to %ld\n", i, v);
                    }
            }
            check();
        }
        if (interesting)
            s.nontrivial();
    }
    VP_CHECK(tk::g.live == base, "lifetime: %ld values survive their Maybe", tk::g.live - base);
}

VP_TARGET(CopyableValue, 100000, 5000000, vp::kLeakCheck) { Run<Val>(s); }
VP_TARGET(MoveOnlyValue, 100000, 5000000, vp::kLeakCheck) { Run<MoveOnly>(s); }
VP_TARGET(PlainValue, 60000, 2000000, vp::kLeakCheck) {
    switch (s.draw(3)) {
        case 0:
            return Run<pl::Small>(s);
        case 1:
            return Run<pl::Big>(s);
        default:
            return Run<pl::Text>(s);
    }
}

// --- alignment ----------------------------------------------------------------------------------

template <size_t Size, size_t Al>
struct alignas(Al) Aligned {
    char bytes[Size];
    static size_t bad;
    Aligned() {
        where();
        memset(bytes, 0x11, Size);
    }
    Aligned(const Aligned& o) {
        where();
        memcpy(bytes, o.bytes, Size);
    }
    void where() {
        uintptr_t p = (uintptr_t)this;
        __asm__("" : "+r"(p));
        if (p % Al)
            bad++;
    }
};
template <size_t Size, size_t Al>
size_t Aligned<Size, Al>::bad = 0;

template <typename T, size_t Al>
static void
Place(vp::Src& s, size_t lead) {
    // The Maybe sits where the compiler puts it: after |lead| bytes in a struct, in an array, on the
    // heap, in a vector, and at every address its own alignment allows.
    typedef Maybe<T> M;
    struct Box {
        char lead;
        M m;
        char mid;
        M m2;
    };
    T::bad = 0;
    size_t own = alignof(M);
    std::unique_ptr<char[]> raw(new char[sizeof(Box) + 512 + 64 * alignof(Box)]);
    uintptr_t at = ((uintptr_t)raw.get() + 511) & ~uintptr_t(511);
    at += alignof(Box) * lead;
    Box* b = new ((void*)at) Box();
    b->m.init();
    b->m2 = b->m;
    M local;
    local.init();
    std::vector<M> vec(1 + s.draw(5));
    for (M& m : vec)
        m.init();
    std::unique_ptr<M> heap(new M(vec[0]));
    M moved(std::move(*heap));
    T some;
    M sm = Some(some);
    VP_LOG("size %zu align %zu own align %zu lead %zu\n", sizeof(T), Al, own, lead);
    VP_CHECK(T::bad == 0, "a value of alignment %zu was stored at a misaligned address", Al);
    auto addr = [](const M& m) -> uintptr_t {
        uintptr_t p = (uintptr_t)&*m;
        __asm__("" : "+r"(p));
        return p;
    };
    VP_CHECK(addr(b->m) % Al == 0 && addr(b->m2) % Al == 0 && addr(local) % Al == 0 &&
                 addr(moved) % Al == 0 && addr(sm) % Al == 0,
             "a value of alignment %zu is at a misaligned address", Al);
    for (M& m : vec)
        VP_CHECK(addr(m) % Al == 0, "a value of alignment %zu in a vector is misaligned", Al);
    StorageBuffer<T> sb[3];
    for (auto& x : sb) {
        uintptr_t p = (uintptr_t)x.address();
        __asm__("" : "+r"(p));
        VP_CHECK(p % Al == 0, "storage for a value of alignment %zu is misaligned", Al);
    }
    b->~Box();
}

VP_TARGET(Alignment, 60000, 400000, vp::kLeakCheck) {
    size_t lead = s.draw(64);
    s.nontrivial();
    switch (s.draw(10)) {
        case 0:
            Place<Aligned<1, 1>, 1>(s, lead);
            break;
        case 1:
            Place<Aligned<3, 1>, 1>(s, lead);
            break;
        case 2:
            Place<Aligned<2, 2>, 2>(s, lead);
            break;
        case 3:
            Place<Aligned<12, 4>, 4>(s, lead);
            break;
        case 4:
            Place<Aligned<8, 8>, 8>(s, lead);
            break;
        case 5:
            Place<Aligned<24, 8>, 8>(s, lead);
            break;
        case 6:
            Place<Aligned<16, 16>, 16>(s, lead);
            break;
        case 7:
            Place<Aligned<48, 16>, 16>(s, lead);
            break;
        case 8:
            Place<Aligned<32, 32>, 32>(s, lead);
            break;
        default:
            Place<Aligned<64, 64>, 64>(s, lead);
    }
}

// A value is made from the arguments of init() as if by a constructor call.
VP_TARGET(Arguments, 20000, 200000, vp::kLeakCheck) {
    struct Point {
        long x, y;
        bool whole;
        Point(long x, long y)
         : x(x), y(y), whole(true)
        {}
        explicit Point(std::initializer_list<long> l)
         : x(l.size()), y(0), whole(false)
        {}
    };
    size_t n = s.draw(6), k = s.range(0, 9);
    s.nontrivial();
    VP_LOG("n %zu k %zu\n", n, k);
    Maybe<std::vector<int>> v;
    v.init(n, int(k));
    VP_CHECK(*v == std::vector<int>(n, int(k)), "init(%zu, %zu) made a vector of %zu", n, k,
             v->size());
    Maybe<std::string> str;
    str.init(n, 'a');
    VP_CHECK(*str == std::string(n, 'a'), "init(%zu, 'a') made a string of %zu", n, str->size());
    Maybe<Point> p;
    p.init(long(n), long(k));
    VP_CHECK(p->whole && p->x == long(n) && p->y == long(k), "init() used another constructor");
    std::unique_ptr<int> u(new int(int(k)));
    Maybe<std::unique_ptr<int>> m;
    m.init(std::move(u));
    VP_CHECK(!u && *m && **m == int(k), "init() did not move its argument in");
    std::string text(n, 'b');
    Maybe<std::string> copy;
    copy.init(text);
    VP_CHECK(text.size() == n && *copy == text, "init() changed an lvalue argument");
    Maybe<std::string> some = Some(text);
    VP_CHECK(text.size() == n && *some == text, "Some() changed an lvalue argument");
    copy.init(static_cast<const std::string&>(*some));
    some = Nothing();
    VP_CHECK(!some.isValid() && *copy == text, "a copied value changed with its original");
}
