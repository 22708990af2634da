// C10: a function object calls an owned copy of its target, and owns it exactly once.
// Non-trivial: a non-empty function object was copied, moved or reassigned and called afterwards.
#include "../engine/vp.h"

#include <assert.h>

#include <memory>
#include <string>
#include <vector>

#include <amtl/am-function.h>

#include "common/track.h"

using ke::Function;
using tk::Val;

static const void* g_called_lo;
static const void* g_called_hi;

// Val is two machine words; Words adds more.
template <size_t Words>
struct Callee {
    Val id;
    long words[Words];
    explicit Callee(long v)
     : id(v)
    {
        for (size_t i = 0; i < Words; i++)
            words[i] = v * 31 + long(i);
    }
    long operator ()(long x) const {
        g_called_lo = this;
        g_called_hi = this + 1;
        for (size_t i = 0; i < Words; i++)
            VP_CHECK(words[i] == id.v() * 31 + long(i), "the target's captured state is damaged");
        return id.v() * 1000 + x;
    }
};
template <>
struct Callee<0> {
    Val id;
    explicit Callee(long v)
     : id(v)
    {}
    long operator ()(long x) const {
        g_called_lo = this;
        g_called_hi = this + 1;
        return id.v() * 1000 + x;
    }
};

static long
Free1(long x) {
    return 1000000 + x;
}
static long
Free2(long x) {
    return 2000000 + x;
}

struct Empty {
    long operator ()(long x) const {
        return 3000000 + x;
    }
};

typedef Function<long(long)> F;

struct Slot {
    std::unique_ptr<F> f;
    bool set = false;
    long base = 0;     // result minus argument
    bool val = false;  // the target holds one Val
    bool two = false;  // captures fit in two words and no wrapping copy was made since
};

VP_TARGET(History, 150000, 6000000, vp::kLeakCheck) {
    long live0 = tk::g.live;
    bool interesting = false, changed = false;
    {
        Slot sl[4];
        long next = 1;
        for (Slot& x : sl)
            x.f.reset(new F());
        long refs[2] = {5, 7};
        auto set = [&](Slot& a, long b, bool val, bool two) {
            a.set = true;
            a.base = b;
            a.val = val;
            a.two = two;
        };
        while (s.more(25)) {
            int i = int(s.draw(4)), j = int(s.draw(4));
            Slot &a = sl[i], &b = sl[j];
            unsigned long m0 = vp::Mallocs();
            long c0 = tk::g.copies;
            bool no_heap = false;   // the operation may not allocate
            bool no_copy = false;   // the operation may not copy a target
            // Harness allocations happen before m0 is read in the cases that replace a.f.
            static const unsigned w[] = {8, 6, 4, 4, 5, 4, 6, 6, 3, 8, 2, 3, 4};
            size_t op = s.weighted(w);
            if (op >= 4 && op <= 7 && (a.set || b.set))
                changed = true;
            switch (op) {
                case 0: {
                    // Assign an rvalue callable.
                    long v = next++;
                    static const unsigned kw[] = {8, 8, 8, 8, 2, 1};
                    unsigned k = unsigned(s.weighted(kw));
                    static const unsigned words[] = {2, 3, 4, 10, 66, 9002};
                    no_copy = true;
                    VP_LOG("%d = callable %ld with %u words\n", i, v, words[k]);
                    if (k == 0) {
                        *a.f = Callee<0>(v);
                        no_heap = true;
                    } else if (k == 1) {
                        *a.f = Callee<1>(v);
                    } else if (k == 2) {
                        *a.f = Callee<2>(v);
                    } else if (k == 3) {
                        *a.f = Callee<8>(v);
                    } else if (k == 4) {
                        *a.f = Callee<64>(v);
                    } else {
                        *a.f = Callee<9000>(v);  // more than 64 KiB
                    }
                    set(a, v * 1000, true, k == 0);
                    break;
                }
                case 1: {
                    // Assign an lvalue callable, then change and destroy the original.
                    long v = next++;
                    bool big = s.coin();
                    VP_LOG("%d = lvalue callable %ld\n", i, v);
                    if (big) {
                        Callee<5> c(v);
                        *a.f = c;
                        VP_CHECK(c.id.v() == v, "assigning an lvalue callable moved it away");
                        c.id.set(-5);
                    } else {
                        Callee<0> c(v);
                        if (s.coin()) {
                            *a.f = c;
                        } else {
                            const Callee<0>& cc = c;
                            *a.f = cc;
                        }
                        VP_CHECK(c.id.v() == v, "assigning an lvalue callable moved it away");
                        c.id.set(-5);
                        no_heap = true;
                    }
                    set(a, v * 1000, true, !big);
                    break;
                }
                case 2: {
                    // Function pointers and empty objects.
                    unsigned k = unsigned(s.draw(4));
                    VP_LOG("%d = plain function %u\n", i, k);
                    no_heap = true;
                    if (k == 0)
                        *a.f = Free1;
                    else if (k == 1)
                        *a.f = &Free2;
                    else if (k == 2)
                        *a.f = Empty();
                    else
                        *a.f = [](long x) -> long { return 4000000 + x; };
                    set(a, (k + 1) * 1000000L, false, true);
                    break;
                }
                case 3: {
                    // A lambda with two reference captures.
                    long* p = &refs[0];
                    long* q = &refs[1];
                    VP_LOG("%d = lambda with two captures\n", i);
                    *a.f = [p, q](long x) -> long { return *p * 100 + *q + x; };
                    no_heap = true;
                    set(a, refs[0] * 100 + refs[1], false, true);
                    break;
                }
                case 4: {
                    // Copy construction.
                    if (i == j)
                        break;
                    bool cst = s.coin();
                    VP_LOG("%d: copy-constructed from %s %d%s\n", i, cst ? "const" : "non-const", j,
                           b.set ? "" : " (empty)");
                    a.f.reset();
                    void* mem = ::operator new(sizeof(F));
                    m0 = vp::Mallocs();
                    c0 = tk::g.copies;
                    if (cst)
                        a.f.reset(new (mem) F(*(const F*)b.f.get()));
                    else
                        a.f.reset(new (mem) F(*b.f));
                    a.set = b.set;
                    a.base = b.base;
                    a.val = b.val;
                    a.two = b.two && cst;
                    no_heap = (cst && b.two) || !b.set;
                    break;
                }
                case 5: {
                    // Move construction.
                    if (i == j)
                        break;
                    VP_LOG("%d: move-constructed from %d%s\n", i, j, b.set ? "" : " (empty)");
                    a.f.reset();
                    void* mem = ::operator new(sizeof(F));
                    m0 = vp::Mallocs();
                    c0 = tk::g.copies;
                    a.f.reset(new (mem) F(std::move(*b.f)));
                    a.set = b.set;
                    a.base = b.base;
                    a.val = b.val;
                    a.two = b.two;
                    b.set = b.val = b.two = false;
                    no_heap = no_copy = true;
                    VP_CHECK(!*b.f, "the source of a move is not empty");
                    break;
                }
                case 6: {
                    // Copy assignment.
                    bool cst = s.coin();
                    VP_LOG("%d = %s %d%s\n", i, cst ? "const" : "non-const", j, b.set ? "" : " (empty)");
                    F& r = cst ? (*a.f = *(const F*)b.f.get()) : (*a.f = *b.f);
                    VP_CHECK(&r == a.f.get(), "assignment does not return the object");
                    if (i == j) {
                        if (a.set)
                            s.mark("self copy-assignment");
                        no_heap = cst;
                        if (!cst)
                            a.two = false;
                    } else {
                        a.set = b.set;
                        a.base = b.base;
                        a.val = b.val;
                        a.two = b.two && cst;
                        no_heap = (cst && b.two) || !b.set;
                    }
                    break;
                }
                case 7: {
                    // Move assignment.
                    VP_LOG("%d = move(%d)%s\n", i, j, b.set ? "" : " (empty)");
                    F* src = b.f.get();
                    F& r = (*a.f = std::move(*src));
                    VP_CHECK(&r == a.f.get(), "assignment does not return the object");
                    no_heap = no_copy = true;
                    if (i == j) {
                        if (a.set)
                            s.mark("self move-assignment");
                    } else {
                        a.set = b.set;
                        a.base = b.base;
                        a.val = b.val;
                        a.two = b.two;
                        b.set = b.val = b.two = false;
                        VP_CHECK(!*b.f, "the source of a move is not empty");
                    }
                    break;
                }
                case 8:
                    VP_LOG("%d = nullptr\n", i);
                    *a.f = nullptr;
                    no_heap = true;
                    a.set = a.val = a.two = false;
                    break;
                case 9:
                    if (a.set) {
                        long x = s.irange(-50, 50);
                        g_called_lo = g_called_hi = nullptr;
                        const F& cf = *a.f;
                        long r = s.coin() ? cf(x) : (*a.f)(x);
                        VP_LOG("%d(%ld) -> %ld\n", i, x, r);
                        VP_CHECK(r == a.base + x, "function %d returned %ld for %ld, its target gives %ld", i, r,
                                 x, a.base + x);
                        if (changed)
                            interesting = true;
                        if (a.two && g_called_lo) {
                            VP_CHECK(g_called_lo >= (const void*)a.f.get() &&
                                         g_called_hi <= (const void*)(a.f.get() + 1),
                                     "the two-word target of function %d is not inside the object", i);
                        }
                        no_copy = true;
                        no_heap = true;
                    }
                    break;
                case 10:
                    VP_LOG("%d: destroyed and rebuilt empty\n", i);
                    a.f.reset();
                    a.f.reset(s.coin() ? new F() : new F(nullptr));
                    a.set = a.val = a.two = false;
                    break;
                case 11: {
                    // Construct from callables.
                    long v = next++;
                    bool big = s.coin();
                    a.f.reset();
                    void* mem = ::operator new(sizeof(F));
                    m0 = vp::Mallocs();
                    c0 = tk::g.copies;
                    if (big) {
                        a.f.reset(new (mem) F(Callee<3>(v)));
                    } else {
                        a.f.reset(new (mem) F(Callee<0>(v)));
                        no_heap = true;
                    }
                    no_copy = true;
                    set(a, v * 1000, true, !big);
                    VP_LOG("%d: constructed from callable %ld\n", i, v);
                    break;
                }
                default: {
                    long v = next++;
                    a.f.reset();
                    void* mem = ::operator new(sizeof(F));
                    Callee<0> c(v);
                    m0 = vp::Mallocs();
                    a.f.reset(new (mem) F(c));
                    no_heap = true;
                    VP_CHECK(c.id.v() == v, "constructing from an lvalue callable moved it away");
                    c.id.set(-9);
                    set(a, v * 1000, true, true);
                    VP_LOG("%d: constructed from lvalue callable %ld\n", i, v);
                }
            }
            if (no_copy)
                VP_CHECK(tk::g.copies == c0, "an rvalue target was copied instead of moved (or a call copied it)");
#ifdef VP_ASAN
            if (no_heap)
                VP_CHECK(vp::Mallocs() == m0, "%lu heap allocation(s) although the target fits inline",
                         vp::Mallocs() - m0);
#endif
            long want = 0;
            for (int k = 0; k < 4; k++) {
                const F& f = *sl[k].f;
                VP_CHECK(bool(f) == sl[k].set, "function %d: conversion to bool is %d, expected %d", k, bool(f),
                         sl[k].set);
                if (sl[k].set && sl[k].two)
                    VP_CHECK(f.usingInlineStorage(), "function %d does not keep its two-word target inline", k);
                want += sl[k].set && sl[k].val;
            }
            VP_CHECK(tk::g.live - live0 == want, "lifetime: %ld targets are alive, %ld function objects own one",
                     tk::g.live - live0, want);
            (void)m0;
        }
        // Every survivor still works.
        for (int k = 0; k < 4; k++) {
            if (sl[k].set) {
                long r = (*sl[k].f)(1);
                VP_CHECK(r == sl[k].base + 1, "function %d returned %ld at the end, expected %ld", k, r,
                         sl[k].base + 1);
            }
        }
    }
    VP_CHECK(tk::g.live == live0, "lifetime: %ld targets survive their function objects", tk::g.live - live0);
    if (interesting)
        s.nontrivial();
}

// --- argument forwarding ------------------------------------------------------------------------

struct Mo {
    std::unique_ptr<long> p;
    explicit Mo(long v)
     : p(new long(v))
    {}
};

struct Trace {
    const void* ref = nullptr;
    const void* cref = nullptr;
    const void* rref = nullptr;
};

VP_TARGET(Forwarding, 200000, 3000000, vp::kLeakCheck) {
    long live0 = tk::g.live;
    {
        Trace t;
        Trace* tp = &t;
        bool heavy = s.coin();
        bool steal = s.coin();
        typedef Function<Val(Val, Val&, const Val&, Val&&, Mo)> G;
        G g;
        if (heavy) {
            char pad[64] = {1};
            g = [tp, steal, pad](Val a, Val& b, const Val& c, Val&& d, Mo e) -> Val {
                tp->ref = &b;
                tp->cref = &c;
                tp->rref = &d;
                b.set(b.v() + pad[0]);
                long sum = a.v() + c.v() + d.v() + *e.p;
                if (steal) {
                    Val own(std::move(d));
                    (void)own;
                }
                return Val(sum);
            };
        } else {
            g = [tp, steal](Val a, Val& b, const Val& c, Val&& d, Mo e) -> Val {
                tp->ref = &b;
                tp->cref = &c;
                tp->rref = &d;
                b.set(b.v() + 1);
                long sum = a.v() + c.v() + d.v() + *e.p;
                if (steal) {
                    Val own(std::move(d));
                    (void)own;
                }
                return Val(sum);
            };
        }
        if (s.coin()) {
            G h(std::move(g));
            g = std::move(h);
        }
        long x[5];
        for (long& v : x)
            v = s.irange(-1000, 1000);
        VP_LOG("args %ld %ld %ld %ld %ld heavy %d steal %d", x[0], x[1], x[2], x[3], x[4], heavy, steal);
        s.nontrivial();
        Val b(x[1]), d(x[3]);
        const Val c(x[2]);
        long c0 = tk::g.copies;
        Val byval(x[0]);
        bool pass_lvalue = s.coin();
        long want = x[0] + x[2] + x[3] + x[4];
        Val r = pass_lvalue ? g(byval, b, c, std::move(d), Mo(x[4])) : g(Val(x[0]), b, c, std::move(d), Mo(x[4]));
        long copies = tk::g.copies - c0;
        VP_CHECK(r.v() == want, "result %ld, expected %ld", r.v(), want);
        VP_CHECK(t.ref == &b && b.v() == x[1] + 1, "the reference argument is not the caller's object");
        VP_CHECK(t.cref == &c, "the const reference argument is not the caller's object");
        VP_CHECK(t.rref == &d, "the rvalue argument is not the caller's object");
        VP_CHECK(d.v() == (steal ? tk::kMovedFrom : x[3]), "the rvalue argument was consumed by the wrapper");
        VP_CHECK(copies <= (pass_lvalue ? 1 : 0), "%ld copies of by-value arguments", copies);
        VP_CHECK(byval.v() == x[0], "a by-value argument changed the caller's variable");
        // References and void.
        Function<Val&(Val&)> id = [](Val& v) -> Val& { return v; };
        VP_CHECK(&id(b) == &b, "a returned reference is another object");
        Function<void(long)> setter = [tp, &b](long v) { b.set(v); (void)tp; };
        setter(x[3]);
        VP_CHECK(b.v() == x[3], "a void function did not run");
        Function<Mo(Mo)> pass = [](Mo m) -> Mo { return m; };
        Mo back = pass(Mo(x[2]));
        VP_CHECK(back.p && *back.p == x[2], "a move-only value did not come through");
    }
    VP_CHECK(tk::g.live == live0, "lifetime: values leak through calls");
}

VP_FINDING(NonConstCopyWraps,
           "copy-constructing a ke::Function from a non-const lvalue goes through the callable constructor and "
           "stores the source inside a heap-allocated wrapper, so a one-word callable leaves inline storage "
           "(tests/test-callable.cpp Callable.Move fixes this behaviour)")
{
    (void)s;
    long x = 5;
    F f = [&x](long y) -> long { return x + y; };
    F g(f);
    VP_CHECK(g(1) == 6, "not even the result is right");
    VP_CHECK(g.usingInlineStorage(), "a copy from a non-const lvalue is not inline");
}
