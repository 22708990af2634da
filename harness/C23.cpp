// C23: typed flags and enum operators obey set algebra on every bit pattern.
// Non-trivial: both operands have bits and neither contains the other.
#include "../engine/vp.h"

#include <type_traits>

#include <amtl/am-enum.h>
#include <amtl/am-flags.h>

enum class EU8 : uint8_t { k = 1 };
enum class ES8 : int8_t { k = 1 };
enum class EU16 : uint16_t { k = 1 };
enum class ES16 : int16_t { k = 1 };
enum class EU32 : uint32_t { k = 1 };
enum class ES32 : int32_t { k = 1 };
enum class EU64 : uint64_t { k = 1 };
enum class ES64 : int64_t { k = 1 };
enum OldU32 : uint32_t { kOldU32 = 1 };
enum OldS64 : int64_t { kOldS64 = 1 };

#define BOTH(E, I)               \
    KE_DEFINE_ENUM_OPERATORS(E)  \
    KE_DEFINE_ENUM_COMPARATORS(E, I)
BOTH(EU8, uint8_t)
BOTH(ES8, int8_t)
BOTH(EU16, uint16_t)
BOTH(ES16, int16_t)
BOTH(EU32, uint32_t)
BOTH(ES32, int32_t)
BOTH(EU64, uint64_t)
BOTH(ES64, int64_t)

// Enums that only have flags, no operators.
enum class PlainU8 : uint8_t { k = 1 };
enum class PlainS64 : int64_t { k = 1 };
enum class PlainS32 : int { k = 1 };

template <typename E>
struct Case {
    typedef typename std::underlying_type<E>::type I;
    typedef typename std::make_unsigned<I>::type U;
    uint64_t ua, ub;
    I a, b;
    E ea, eb;
    // The bits a result must have, as the enum's integral type.
    static I Int(uint64_t v) {
        U u = U(v);
        I i;
        memcpy(&i, &u, sizeof(i));
        return i;
    }
    explicit Case(vp::Src& s) {
        unsigned bits = sizeof(I) * 8;
        ua = s.uint(bits);
        ub = s.draw(4) == 3 ? ua : s.uint(bits);
        a = Int(ua);
        b = Int(ub);
        ea = static_cast<E>(a);
        eb = static_cast<E>(b);
        uint64_t common = ua & ub;
        if (common != ua && common != ub)
            s.nontrivial();
        VP_LOG("%u-bit %s enum: %#" PRIx64 " and %#" PRIx64, bits, std::is_signed<I>::value ? "signed" : "unsigned",
               ua, ub);
    }
};

template <typename E>
static typename std::underlying_type<E>::type
Raw(E e) {
    typename std::underlying_type<E>::type i;
    memcpy(&i, &e, sizeof(i));
    return i;
}

template <typename E>
static void
TestFlags(vp::Src& s) {
    Case<E> c(s);
    typedef ke::Flags<E> F;
    typedef typename F::IntType I;
    static_assert(std::is_same<I, typename std::underlying_type<E>::type>::value, "IntType");
    F x(c.ea), y(c.eb), none;
    auto is = [&](const F& f, uint64_t want, const char* what) {
        I w = Case<E>::Int(want);
        VP_CHECK(f.bits() == w, "%s of %#" PRIx64 " and %#" PRIx64 " has bits %#" PRIx64 ", expected %#" PRIx64, what,
                 c.ua, c.ub, uint64_t(typename Case<E>::U(f.bits())), uint64_t(typename Case<E>::U(w)));
        VP_CHECK(Raw(f.get()) == w, "%s: get() and bits() differ", what);
        VP_CHECK(bool(f) == (w != 0), "%s: conversion to bool is %d for bits %#" PRIx64, what, bool(f), uint64_t(w));
        VP_CHECK(!f == (w == 0), "%s: operator ! is wrong for bits %#" PRIx64, what, uint64_t(w));
    };
    is(none, 0, "default");
    is(x, c.ua, "value");
    is(x + y, c.ua | c.ub, "sum");
    is(x | y, c.ua | c.ub, "union");
    is(x - y, c.ua & ~c.ub, "difference");
    is(x & y, c.ua & c.ub, "intersection");
    is(x ^ y, c.ua ^ c.ub, "symmetric difference");
    // The right-hand side may be the bare enum.
    is(x + c.eb, c.ua | c.ub, "sum with an enum");
    is(x - c.eb, c.ua & ~c.ub, "difference with an enum");
    is(x, c.ua, "left operand afterwards");
    is(y, c.ub, "right operand afterwards");
    VP_CHECK((x == y) == (c.ua == c.ub), "== is wrong");
    VP_CHECK((x != y) == (c.ua != c.ub), "!= is wrong");
    VP_CHECK((x == c.eb) == (c.ua == c.ub), "== with an enum is wrong");
    F z;
    F* r;
    bool self = s.draw(8) == 7;
    uint64_t ub = self ? c.ua : c.ub;
#define COMPOUND(op, want, name)                                       \
    z = x;                                                             \
    r = &(z op (self ? z : y));                                        \
    is(z, want, name);                                                 \
    VP_CHECK(r == &z, name " does not return the assigned object");
    COMPOUND(+=, c.ua | ub, "+=")
    COMPOUND(|=, c.ua | ub, "|=")
    COMPOUND(-=, c.ua & ~ub, "-=")
    COMPOUND(&=, c.ua & ub, "&=")
    COMPOUND(^=, c.ua ^ ub, "^=")
#undef COMPOUND
    r = &(z = y);
    is(z, c.ub, "assignment");
    VP_CHECK(r == &z, "assignment does not return the assigned object");
    F copy(x);
    is(copy, c.ua, "copy");
    is(y, c.ub, "right operand at the end");
    // A chain of edits.
    uint64_t m = c.ua;
    z = x;
    while (s.more(4)) {
        uint64_t v = s.uint(sizeof(I) * 8);
        E e = static_cast<E>(Case<E>::Int(v));
        switch (s.draw(4)) {
            case 0:
                z += e;
                m |= v;
                break;
            case 1:
                z -= e;
                m &= ~v;
                break;
            case 2:
                z ^= e;
                m ^= v;
                break;
            default:
                z &= e;
                m &= v;
        }
        is(z, m, "a chain of edits");
    }
}

template <typename E>
static void
TestOperators(vp::Src& s) {
    Case<E> c(s);
    typedef Case<E> C;
    auto is = [&](E e, uint64_t want, const char* what) {
        VP_CHECK(Raw(e) == C::Int(want), "%s of %#" PRIx64 " and %#" PRIx64 " is %#" PRIx64 ", expected %#" PRIx64,
                 what, c.ua, c.ub, uint64_t(typename C::U(Raw(e))), uint64_t(typename C::U(C::Int(want))));
    };
    is(c.ea | c.eb, c.ua | c.ub, "|");
    is(c.ea & c.eb, c.ua & c.ub, "&");
    is(c.ea ^ c.eb, c.ua ^ c.ub, "^");
    is(~c.ea, ~c.ua, "~");
    E z;
    E* r;
    z = c.ea;
    r = &(z |= c.eb);
    is(z, c.ua | c.ub, "|=");
    VP_CHECK(r == &z, "|= does not return the assigned object");
    z = c.ea;
    r = &(z &= c.eb);
    is(z, c.ua & c.ub, "&=");
    VP_CHECK(r == &z, "&= does not return the assigned object");
    z = c.ea;
    r = &(z ^= c.eb);
    is(z, c.ua ^ c.ub, "^=");
    VP_CHECK(r == &z, "^= does not return the assigned object");
    is(c.eb, c.ub, "right operand afterwards");
    VP_CHECK((!c.ea) == (c.ua == 0), "operator ! is wrong for %#" PRIx64, c.ua);
}

template <typename E>
static void
TestComparators(vp::Src& s) {
    Case<E> c(s);
    bool eq = c.ua == c.ub;
    VP_CHECK((c.ea == c.b) == eq, "enum == integer is %d for %#" PRIx64 " and %#" PRIx64, !eq, c.ua, c.ub);
    VP_CHECK((c.a == c.eb) == eq, "integer == enum is %d for %#" PRIx64 " and %#" PRIx64, !eq, c.ua, c.ub);
    VP_CHECK((c.ea != c.b) == !eq, "enum != integer is %d for %#" PRIx64 " and %#" PRIx64, eq, c.ua, c.ub);
    VP_CHECK((c.a != c.eb) == !eq, "integer != enum is %d for %#" PRIx64 " and %#" PRIx64, eq, c.ua, c.ub);
}

template <typename E>
static void
TestAll(vp::Src& s) {
    switch (s.draw(3)) {
        case 0:
            return TestFlags<E>(s);
        case 1:
            return TestOperators<E>(s);
        default:
            return TestComparators<E>(s);
    }
}

VP_TARGET(EveryWidth, 4000000, 80000000, 0) {
    switch (s.draw(8)) {
        case 0:
            return TestAll<EU8>(s);
        case 1:
            return TestAll<ES8>(s);
        case 2:
            return TestAll<EU16>(s);
        case 3:
            return TestAll<ES16>(s);
        case 4:
            return TestAll<EU32>(s);
        case 5:
            return TestAll<ES32>(s);
        case 6:
            return TestAll<EU64>(s);
        default:
            return TestAll<ES64>(s);
    }
}

VP_TARGET(FlagsOnly, 1000000, 20000000, 0) {
    switch (s.draw(5)) {
        case 0:
            return TestFlags<PlainU8>(s);
        case 1:
            return TestFlags<PlainS64>(s);
        case 2:
            return TestFlags<PlainS32>(s);
        case 3:
            return TestFlags<OldU32>(s);
        default:
            return TestFlags<OldS64>(s);
    }
}
