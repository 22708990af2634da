// C20: bit scans, alignment and pointer tagging are arithmetically exact.
// Non-trivial: the value needs more than 32 bits, or the alignment or tag is larger than 1.
#include "../engine/vp.h"

#include <algorithm>
#include <cstddef>
#include <utility>

#include <amtl/am-bits.h>

static unsigned
Highest(uint64_t v) {
    unsigned r = 0;
    for (unsigned i = 0; i < 64; i++)
        if (v >> i & 1)
            r = i;
    return r;
}
static unsigned
Lowest(uint64_t v) {
    for (unsigned i = 0; i < 64; i++)
        if (v >> i & 1)
            return i;
    return 64;
}
static bool
OneBit(uint64_t v) {
    unsigned n = 0;
    for (unsigned i = 0; i < 64; i++)
        n += unsigned(v >> i & 1);
    return n == 1;
}

VP_TARGET(Scans, 4000000, 100000000, 0) {
    uint64_t v = s.uint(64);
    if (!v)
        v = 1;
    VP_LOG("%#" PRIx64, v);
    if (v >> 32)
        s.nontrivial();
    VP_CHECK(ke::Log2(size_t(v)) == Highest(v), "Log2(%#" PRIx64 ") is %" PRIu64 ", expected %u", v,
             uint64_t(ke::Log2(size_t(v))), Highest(v));
    VP_CHECK(ke::FindLeftmostBit64(v) == Highest(v), "FindLeftmostBit64(%#" PRIx64 ") is %u", v,
             unsigned(ke::FindLeftmostBit64(v)));
    VP_CHECK(ke::FindRightmostBit(size_t(v)) == Lowest(v), "FindRightmostBit(%#" PRIx64 ") is %zu", v,
             size_t(ke::FindRightmostBit(size_t(v))));
    VP_CHECK(ke::IsPowerOfTwo(size_t(v)) == OneBit(v), "IsPowerOfTwo(%#" PRIx64 ") is %d", v,
             int(ke::IsPowerOfTwo(size_t(v))));
    uint32_t w = uint32_t(v), h = uint32_t(v >> 32);
    if (w)
        VP_CHECK(ke::FindLeftmostBit32(w) == Highest(w), "FindLeftmostBit32(%#x) is %u", w,
                 unsigned(ke::FindLeftmostBit32(w)));
    if (h)
        VP_CHECK(ke::FindLeftmostBit32(h) == Highest(h), "FindLeftmostBit32(%#x) is %u", h,
                 unsigned(ke::FindLeftmostBit32(h)));
    VP_CHECK(!ke::IsPowerOfTwo(0), "IsPowerOfTwo(0) holds");
}

VP_TARGET(Alignment, 4000000, 100000000, 0) {
    unsigned shift = unsigned(s.draw(64));
    uint64_t al = uint64_t(1) << shift;
    uint64_t v;
    if (s.coin()) {
        v = s.uint(64);
    } else {
        // near a multiple
        uint64_t k = s.uint(64 - shift);
        v = (k << shift) + uint64_t(s.irange(-2, 2));
    }
    VP_LOG("value %#" PRIx64 " alignment 2^%u", v, shift);
    if (shift)
        s.nontrivial();
    bool multiple = v % al == 0;
    unsigned __int128 up = (((unsigned __int128)v + al - 1) / al) * al;
    if (up >> 64) {
        s.mark("no multiple fits");
    } else {
        VP_CHECK(ke::Align(size_t(v), size_t(al)) == uint64_t(up), "Align(%#" PRIx64 ", 2^%u) is %#zx", v, shift,
                 ke::Align(size_t(v), size_t(al)));
    }
    VP_CHECK(ke::IsAligned(size_t(v), size_t(al)) == multiple, "IsAligned(%#" PRIx64 ", 2^%u) is %d", v, shift,
             !multiple);
    char* p = reinterpret_cast<char*>(uintptr_t(v));
    VP_CHECK(ke::IsAligned(p, size_t(al)) == multiple, "IsAligned(pointer %#" PRIx64 ", 2^%u) is %d", v, shift,
             !multiple);
    uint32_t w = uint32_t(v);
    VP_CHECK(ke::IsAligned(w, size_t(al)) == (w % al == 0), "IsAligned(32-bit %#x, 2^%u) is wrong", w, shift);
    uintptr_t base = uintptr_t(ke::AlignedBase(p, size_t(al)));
    VP_CHECK(base == v - v % al, "AlignedBase(%#" PRIx64 ", 2^%u) is %#" PRIxPTR, v, shift, base);
}

template <unsigned N>
static void
Tag(uintptr_t ptr, uintptr_t tag) {
    long* p = reinterpret_cast<long*>(ptr);
    long* t = ke::SetPointerBits(p, tag);
    uintptr_t got = ke::GetPointerBits<N>(t);
    VP_CHECK(got == tag, "reading %u tag bits of %#" PRIxPTR " | %#" PRIxPTR " gives %#" PRIxPTR, N, ptr, tag, got);
    uintptr_t back = uintptr_t(ke::ClearPointerBits<N>(t));
    VP_CHECK(back == ptr, "clearing %u tag bits of %#" PRIxPTR " | %#" PRIxPTR " gives %#" PRIxPTR, N, ptr, tag, back);
    // Reading and clearing an untagged pointer.
    VP_CHECK(ke::GetPointerBits<N>(p) == 0, "an untagged pointer has tag bits");
    VP_CHECK(ke::ClearPointerBits<N>(p) == p, "clearing changes an untagged pointer");
    // Setting the bits one by one accumulates them.
    long* q = p;
    for (unsigned i = 0; i < N; i++)
        if (tag >> i & 1)
            q = ke::SetPointerBits(q, uintptr_t(1) << i);
    VP_CHECK(q == t, "setting tag bits one at a time gives another pointer");
}

template <size_t... I>
static void
Dispatch(unsigned n, uintptr_t ptr, uintptr_t tag, std::index_sequence<I...>) {
    typedef void (*Fn)(uintptr_t, uintptr_t);
    static const Fn fns[] = {&Tag<I + 1>...};
    fns[n - 1](ptr, tag);
}

VP_TARGET(PointerTags, 2000000, 40000000, 0) {
    static const unsigned kMax = 48;
    // Small widths are what pointers to ordinary objects allow.
    unsigned n = s.draw(3) ? 1 + unsigned(s.draw(6)) : 1 + unsigned(s.draw(kMax));
    uintptr_t ptr = uintptr_t(s.uint(64)) >> n << n;
    uintptr_t tag = uintptr_t(s.uint(n));
    VP_LOG("%u bits, pointer %#" PRIxPTR ", tag %#" PRIxPTR, n, ptr, tag);
    if (tag > 1)
        s.nontrivial();
    Dispatch(n, ptr, tag, std::make_index_sequence<kMax>());
}

VP_TARGET(Sizes, 100000, 1000000, 0) {
    size_t n = 1 + s.draw(2000);
    VP_LOG("block of %zu bytes", n);
    if (n > 16)
        s.nontrivial();
    VP_CHECK(ke::kKB == size_t(1) << 10 && ke::kMB == size_t(1) << 20 && ke::kGB == size_t(1) << 30,
             "kKB, kMB, kGB are %zu, %zu, %zu", size_t(ke::kKB), size_t(ke::kMB), size_t(ke::kGB));
    size_t al = ke::kMallocAlignment;
    VP_CHECK(OneBit(al) && al >= alignof(max_align_t), "kMallocAlignment is %zu", al);
    void* p = malloc(std::max(n, al));
    VP_CHECK(uintptr_t(p) % al == 0 && ke::IsAligned(p, al) && ke::AlignedBase(p, al) == p,
             "a block from malloc is not aligned to %zu", al);
    free(p);
}
