// C04: hash helpers depend only on the value and match their published definitions.
// Non-trivial: the input has at least 2 bytes (character hashes) or a value above 2^16 (integers).
#include "../engine/vp.h"

#include "common/sizes.h"

#include <assert.h>

#include <string>
#include <vector>

#include <amtl/am-hashmap.h>
#include <amtl/am-hashtable.h>

using ke::CharacterStreamHasher;
using ke::FastHashCharSequence;
using ke::HashCharSequence;
using ke::HashCombine;
using ke::HashInt32;
using ke::HashInt64;
using ke::HashInteger;
using ke::HashPointer;
using ke::PointerPolicy;

// Bob Jenkins' one-at-a-time, each character added as a plain (signed on this platform) char.
static uint32_t
RefJenkins(const std::string& s) {
    uint64_t h = 0;
    for (size_t i = 0; i < s.size(); i++) {
        long long c = (char)s[i];
        h = (h + (uint64_t)c) & 0xffffffffu;
        h = (h + (h * 1024)) & 0xffffffffu;
        h ^= h / 64;
    }
    h = (h * 9) & 0xffffffffu;
    h ^= h / 2048;
    h = (h * 32769) & 0xffffffffu;
    return (uint32_t)h;
}

static uint32_t
RefSdbm(const std::string& s) {
    uint32_t h = 0;
    for (size_t i = 0; i < s.size(); i++)
        h = uint32_t(h * uint64_t(65599) + uint64_t((long long)(char)s[i]));
    return h;
}

static uint32_t
RefWang64(uint64_t k) {
    k = ~k + (k << 18);
    k ^= k >> 31;
    k = k + (k << 2) + (k << 4);
    k ^= k >> 11;
    k += k << 6;
    k ^= k >> 22;
    return (uint32_t)k;
}

static std::string
GenBytes(vp::Src& s) {
    size_t n = s.draw(2000) == 1999 ? LargeSize(s, 65535) : s.size(400);
    std::string r;
    unsigned mode = unsigned(s.draw(4));
    for (size_t i = 0; i < n; i++) {
        switch (mode) {
            case 0:
                r.push_back(char('a' + s.draw(4)));
                break;
            case 1:
                r.push_back(char(s.draw(256)));
                break;
            case 2:
                r.push_back(char(128 + s.draw(128)));
                break;
            default:
                r.push_back(s.coin() ? char(0) : char(s.draw(256)));
        }
    }
    return r;
}

VP_TARGET(CharHashes, 3000000, 60000000, 0) {
    std::string text = GenBytes(s);
    if (text.size() >= 2)
        s.nontrivial();
    // Place the bytes in an exact heap block (ASan guards the end) at a varying alignment.
    size_t off = s.draw(8);
    std::vector<char> heap(off + text.size());
    if (!text.empty())
        memcpy(heap.data() + off, text.data(), text.size());
    const char* p = heap.data() + off;
    VP_LOG("text=%s off=%zu", vp::Quote(text.data(), text.size()), off);

    uint32_t want = RefJenkins(text);
    uint32_t got = HashCharSequence(p, text.size());
    VP_CHECK(got == want, "HashCharSequence(%s) = %08x, one-at-a-time gives %08x",
             vp::Quote(text.data(), text.size()), got, want);
    uint32_t fast = HashCharSequence(text.c_str(), text.size());
    VP_CHECK(fast == want, "HashCharSequence depends on the address or on bytes past the length");

    uint32_t wf = RefSdbm(text);
    uint32_t gf = FastHashCharSequence(p, text.size());
    VP_CHECK(gf == wf, "FastHashCharSequence(%s) = %08x, sdbm gives %08x",
             vp::Quote(text.data(), text.size()), gf, wf);
    VP_CHECK(FastHashCharSequence(text.c_str(), text.size()) == wf, "FastHashCharSequence not pure");

    // Any split.
    CharacterStreamHasher h;
    size_t at = 0;
    unsigned pieces = 0;
    while (at < text.size()) {
        if (s.coin()) {
            h.add(p[at]);
            at++;
        } else {
            size_t n = s.draw(text.size() - at + 1);
            h.add(p + at, n);
            at += n;
            if (n == 0)
                s.mark("empty piece");
            if (s.exhausted() && n == 0) {
                h.add(p + at, text.size() - at);
                at = text.size();
            }
        }
        pieces++;
    }
    if (pieces > 1)
        s.mark("split into several pieces");
    uint32_t gs = h.result();
    VP_CHECK(gs == want, "stream hash in %u pieces = %08x, whole = %08x", pieces, gs, want);
    // Dependence on the bytes alone: a prefix hashes as itself.
    if (!text.empty()) {
        size_t n = s.draw(text.size());
        VP_CHECK(HashCharSequence(p, n) == RefJenkins(text.substr(0, n)), "prefix hash wrong");
        VP_CHECK(FastHashCharSequence(p, n) == RefSdbm(text.substr(0, n)), "fast prefix hash wrong");
    }
}

VP_TARGET(IntHashes, 10000000, 200000000, 0) {
    uint64_t v = s.uint(64);
    if (v > 65536)
        s.nontrivial();
    VP_LOG("v=%#" PRIx64, v);
    uint32_t w = RefWang64(v);
    VP_CHECK(HashInt64(int64_t(v)) == w, "HashInt64(%#" PRIx64 ") = %08x, Wang's mix gives %08x", v,
             HashInt64(int64_t(v)), w);
    VP_CHECK(HashInteger<8>(uintptr_t(v)) == w, "HashInteger<8>(%#" PRIx64 ") differs from HashInt64", v);
    VP_CHECK(HashPointer((const void*)uintptr_t(v)) == w, "HashPointer(%#" PRIx64 ") wrong", v);
    VP_CHECK(PointerPolicy<void>::hash((void*)uintptr_t(v)) == w, "PointerPolicy::hash wrong");
    uint32_t lo = uint32_t(v);
    uint32_t h32 = HashInt32(int32_t(lo));
    VP_CHECK(HashInteger<4>(uintptr_t(lo)) == h32, "HashInteger<4>(%#x) differs from HashInt32", lo);
    VP_CHECK(HashInt32(int32_t(lo)) == h32, "HashInt32(%#x) is not a function", lo);
    uint32_t a = uint32_t(s.uint(32)), b = uint32_t(s.uint(32));
    uint32_t c = HashCombine(a, b);
    uint64_t ref = uint64_t(b) + 0x9e3779b9ull + uint64_t(a) * 64 + uint64_t(b) / 4;
    VP_CHECK(c == (a ^ uint32_t(ref)), "HashCombine(%#x,%#x) = %08x, formula gives %08x", a, b, c,
             a ^ uint32_t(ref));
    uint64_t v2 = s.coin() ? v : s.uint(64);
    VP_CHECK(PointerPolicy<char>::matches((char*)uintptr_t(v), (char*)uintptr_t(v2)) == (v == v2),
             "PointerPolicy::matches is not equality");
}

// Streaming: many short pieces of every kind, including single characters above 127.
VP_TARGET(StreamPieces, 1500000, 30000000, 0) {
    CharacterStreamHasher h;
    std::string all;
    unsigned pieces = 0;
    while (s.more(8)) {
        if (s.coin()) {
            char c = char(s.draw(256));
            h.add(c);
            all.push_back(c);
        } else {
            char buf[9];
            size_t n = s.draw(9);
            for (size_t i = 0; i < n; i++)
                buf[i] = char(s.draw(256));
            std::vector<char> exact(buf, buf + n);
            h.add(exact.data(), n);
            all.append(buf, n);
        }
        pieces++;
    }
    if (pieces >= 2)
        s.nontrivial();
    VP_LOG("%u pieces of %s", pieces, vp::Quote(all.data(), all.size()));
    uint32_t got = h.result();
    VP_CHECK(got == RefJenkins(all), "streamed hash of %s is %08x, one-at-a-time gives %08x",
             vp::Quote(all.data(), all.size()), got, RefJenkins(all));
    VP_CHECK(got == HashCharSequence(all.data(), all.size()), "stream differs from the whole");
}
