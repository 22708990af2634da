// C21: overflow detectors are exact for every pair of operands.
// Non-trivial: the exact result is within a factor of two of the type's limit, or beyond it.
#include "../engine/vp.h"

#include <amtl/am-arithmetic.h>
#include <amtl/am-bits.h>

typedef unsigned __int128 u128;

// A pair of operands whose sum or product is often next to the limit.
static void
Pair(vp::Src& s, unsigned bits, bool mul, uint64_t& a, uint64_t& b) {
    uint64_t max = bits == 64 ? ~uint64_t(0) : (uint64_t(1) << bits) - 1;
    a = s.uint(bits);
    unsigned k = unsigned(s.draw(4));
    uint64_t d = s.draw(7);
    if (k == 0) {
        b = s.uint(bits);
    } else if (mul) {
        b = (a ? max / a : max) + d - 3;
        if (k == 2)
            b = (uint64_t(1) << s.draw(bits)) + d - 3;
    } else {
        b = max - a + d - 3;
    }
    b &= max;
    if (s.coin())
        std::swap(a, b);
}

static void
Note(vp::Src& s, u128 exact, unsigned bits) {
    if (exact >> (bits - 1))
        s.nontrivial();
    if (exact >> bits)
        s.mark("overflow");
}

static const char* const kBits[] = {"32", "64", "pointer"};

VP_TARGET(AddSafe, 4000000, 100000000, 0) {
    uint64_t a, b;
    unsigned which = unsigned(s.draw(3));
    unsigned bits = which ? 64 : 32;
    Pair(s, bits, false, a, b);
    u128 exact = (u128)a + b;
    bool fits = !(exact >> bits);
    Note(s, exact, bits);
    VP_LOG("%s-bit %" PRIu64 " + %" PRIu64, kBits[which], a, b);
    bool got = which == 0   ? ke::IsUint32AddSafe(unsigned(a), unsigned(b))
               : which == 1 ? ke::IsUint64AddSafe(a, b)
                            : ke::IsUintPtrAddSafe(size_t(a), size_t(b));
    VP_CHECK(got == fits, "the %s-bit add test says %d for %" PRIu64 " + %" PRIu64, kBits[which], got, a, b);
    got = which == 0 ? ke::IsUintAddSafe<uint32_t>(uint32_t(a), uint32_t(b)) : ke::IsUintAddSafe<uint64_t>(a, b);
    VP_CHECK(got == fits, "IsUintAddSafe<%u bits> says %d for %" PRIu64 " + %" PRIu64, bits, got, a, b);
}

VP_TARGET(MultiplySafe, 4000000, 100000000, 0) {
    uint64_t a, b;
    unsigned which = unsigned(s.draw(3));
    unsigned bits = which ? 64 : 32;
    Pair(s, bits, true, a, b);
    u128 exact = (u128)a * b;
    bool fits = !(exact >> bits);
    Note(s, exact, bits);
    VP_LOG("%s-bit %" PRIu64 " * %" PRIu64, kBits[which], a, b);
    bool got = which == 0   ? ke::IsUint32MultiplySafe(unsigned(a), unsigned(b))
               : which == 1 ? ke::IsUint64MultiplySafe(a, b)
                            : ke::IsUintPtrMultiplySafe(size_t(a), size_t(b));
    VP_CHECK(got == fits, "the %s-bit multiply test says %d for %" PRIu64 " * %" PRIu64, kBits[which], got, a, b);
    got = which == 0 ? ke::IsUintMultiplySafe<uint32_t>(uint32_t(a), uint32_t(b))
                     : ke::IsUintMultiplySafe<uint64_t>(a, b);
    VP_CHECK(got == fits, "IsUintMultiplySafe<%u bits> says %d for %" PRIu64 " * %" PRIu64, bits, got, a, b);
}

VP_TARGET(Checked, 4000000, 100000000, 0) {
    uint64_t a, b;
    unsigned which = unsigned(s.draw(3));
    unsigned bits = which ? 64 : 32;
    bool mul = which == 2;
    Pair(s, bits, mul, a, b);
    uint64_t junk = s.uint(bits);
    u128 exact = mul ? (u128)a * b : (u128)a + b;
    bool fits = !(exact >> bits);
    Note(s, exact, bits);
    static const char* const names[] = {"TryUint32Add", "TryUint64Add", "TryUint64Multiply"};
    VP_LOG("%s(%" PRIu64 ", %" PRIu64 ")", names[which], a, b);
    bool ok;
    uint64_t out;
    if (which == 0) {
        uint32_t guarded[3] = {0x5A5A5A5A, uint32_t(junk), 0xA5A5A5A5};
        ok = ke::TryUint32Add(uint32_t(a), uint32_t(b), &guarded[1]);
        out = guarded[1];
        VP_CHECK(guarded[0] == 0x5A5A5A5A && guarded[2] == 0xA5A5A5A5, "%s wrote beside its output", names[which]);
    } else {
        out = junk;
        ok = which == 1 ? ke::TryUint64Add(a, b, &out) : ke::TryUint64Multiply(a, b, &out);
    }
    VP_CHECK(ok == fits, "%s(%" PRIu64 ", %" PRIu64 ") %s", names[which], a, b, ok ? "succeeded" : "failed");
    if (fits)
        VP_CHECK(out == uint64_t(exact), "%s(%" PRIu64 ", %" PRIu64 ") stored %" PRIu64, names[which], a, b, out);
    else
        VP_CHECK(out == junk, "%s(%" PRIu64 ", %" PRIu64 ") failed but changed the output", names[which], a, b);
    // The output may be one of the operands' variables.
    if (which == 1) {
        uint64_t x = a;
        ok = ke::TryUint64Add(x, b, &x);
        VP_CHECK(ok == fits && x == (fits ? uint64_t(exact) : a), "in-place %s is wrong", names[which]);
    } else if (which == 2) {
        uint64_t x = a;
        ok = ke::TryUint64Multiply(x, b, &x);
        VP_CHECK(ok == fits && x == (fits ? uint64_t(exact) : a), "in-place %s is wrong", names[which]);
    }
}
