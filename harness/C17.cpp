// C17: bounded string writes stay in bounds, terminate and report the true length.
// Non-trivial: the text does not fit, or fits exactly, or the source is longer than the count.
#include "../engine/vp.h"

#include <sys/mman.h>

#include <algorithm>

#include <amtl/am-string.h>

#include "common/fmt.h"


// A buffer of exactly |size| usable bytes between guard bytes; the bytes past the guards are the
// sanitizer's.
struct Guarded {
    // Without guards the sanitizer sees reads past either end as well.
    size_t kGuard;
    unsigned char kFill;
    std::unique_ptr<unsigned char[]> mem;
    size_t size;
    explicit Guarded(vp::Src& s, size_t n)
     : kGuard(s.draw(3) == 2 ? 0 : 24),
       kFill(s.draw(4) == 3 ? '\\' : 0xA5),
       mem(new unsigned char[n + 2 * kGuard]),
       size(n)
    {
        memset(mem.get(), kFill, n + 2 * kGuard);
    }
    char* p() {
        return (char*)mem.get() + kGuard;
    }
    void check(const char* what) {
        for (size_t i = 0; i < kGuard; i++) {
            VP_CHECK(mem[i] == kFill, "%s wrote %zu byte(s) before the buffer", what, kGuard - i);
            VP_CHECK(mem[kGuard + size + i] == kFill, "%s wrote at offset %zu of a %zu-byte buffer", what,
                     size + i, size);
        }
    }
    bool untouched() {
        for (size_t i = 0; i < size; i++)
            if (mem[kGuard + i] != kFill)
                return false;
        return true;
    }
};

struct Exact {
    std::unique_ptr<char[]> mem;
    explicit Exact(const std::string& s, bool terminated = true)
     : mem(new char[s.size() + (terminated ? 1 : 0) + (s.empty() && !terminated)])
    {
        memcpy(mem.get(), s.data(), s.size());
        if (terminated)
            mem[s.size()] = 0;
    }
    const char* p() const {
        return mem.get();
    }
};

static void
Expect(Guarded& g, const char* what, size_t ret, const std::string& full) {
    g.check(what);
    size_t want = std::min(full.size(), g.size - 1);
    VP_CHECK(ret == want, "%s returned %zu for a %zu-byte buffer and a text of length %zu, expected %zu", what,
             ret, g.size, full.size(), want);
    VP_CHECK(memcmp(g.p(), full.data(), want) == 0, "%s: wrong bytes in the buffer", what);
    VP_CHECK(g.p()[want] == 0, "%s: no terminator after the %zu bytes it reports", what, want);
}

static std::string
Text(vp::Src& s) {
    if (s.draw(400) == 399)
        return fmt::LongText(s);
    return fmt::Bytes(s, s.size(300));
}
// A buffer size near the text's length most of the time.
static size_t
BufferFor(vp::Src& s, size_t len) {
    switch (s.draw(4)) {
        case 0:
            return s.draw(8);
        case 1:
            return size_t(std::max<int64_t>(0, int64_t(len) + s.irange(-3, 4)));
        case 2:
            return s.draw(len + 8);
        default:
            return len + 1 + s.draw(64);
    }
}

VP_TARGET(Copy, 600000, 20000000, vp::kLeakCheck) {
    std::string text = Text(s);
    size_t len = text.size();
    Exact src(text);
    Guarded g(s, BufferFor(s, len));
    VP_LOG("SafeStrcpy(%zu bytes, %s)", g.size, vp::Quote(text.data(), text.size()));
    size_t ret = ke::SafeStrcpy(g.p(), g.size, src.p());
    if (g.size <= len + 1)
        s.nontrivial();
    if (g.size == 0) {
        s.mark("zero size");
        g.check("SafeStrcpy");
        VP_CHECK(ret == 0, "SafeStrcpy into zero bytes returned %zu", ret);
        return;
    }
    Expect(g, "SafeStrcpy", ret, text);
}

VP_TARGET(CopyN, 600000, 20000000, vp::kLeakCheck) {
    std::string text = Text(s);
    size_t len = text.size();
    size_t n;
    bool terminated = true;
    switch (s.draw(4)) {
        case 0:
            n = s.draw(len + 1);
            break;
        case 1:
            // The source is a slice without a terminator.
            n = len;
            terminated = len == 0 ? true : false;
            break;
        case 2:
            n = len + s.draw(20);
            break;
        default:
            n = s.coin() ? ~size_t(0) - s.draw(3) : len + 1 + s.draw(1000);
    }
    Exact src(text, terminated);
    std::string full = text.substr(0, std::min(n, len));
    Guarded g(s, BufferFor(s, full.size()));
    VP_LOG("SafeStrcpyN(%zu bytes, %s, %zu)%s", g.size, vp::Quote(text.data(), text.size()), n,
           terminated ? "" : " unterminated source");
    if (g.size <= full.size() + 1 || n <= len)
        s.nontrivial();
    size_t ret = ke::SafeStrcpyN(g.p(), g.size, src.p(), n);
    if (g.size == 0) {
        s.mark("zero size");
        g.check("SafeStrcpyN");
        VP_CHECK(ret == 0, "SafeStrcpyN into zero bytes returned %zu", ret);
        return;
    }
    Expect(g, "SafeStrcpyN", ret, full);
}

VP_TARGET(Append, 400000, 15000000, vp::kLeakCheck) {
    // A whole history of appends to one buffer.
    bool huge = s.draw(300) == 299;
    size_t size = huge ? 1 + s.draw(200000) : s.coin() ? 1 + s.draw(40) : 1 + s.draw(400);
    size_t first = s.draw(std::min<size_t>(size, 60));
    Guarded g(s, size);
    std::string have = fmt::Bytes(s, first);
    memcpy(g.p(), have.c_str(), have.size() + 1);
    VP_LOG("%zu-byte buffer holding %s\n", size, vp::Quote(have.data(), have.size()));
    size_t steps = 0;
    while (s.more(4) && steps++ < 20) {
        std::string add = huge && s.coin() ? fmt::LongText(s) : fmt::Bytes(s, s.size(120));
        // The size given may be smaller than what is already there.
        size_t max = s.draw(6) == 5 ? s.draw(size + 1) : size;
        Exact src(add);
        size_t room = max > have.size() + 1 ? max - 1 - have.size() : 0;
        std::string want = have + add.substr(0, room);
        if (add.size() >= room)
            s.nontrivial();
        size_t ret = ke::SafeStrcat(g.p(), max, src.p());
        VP_LOG("SafeStrcat(.., %zu, %s) -> %zu\n", max, vp::Quote(add.data(), add.size()), ret);
        g.check("SafeStrcat");
        VP_CHECK(ret == want.size(), "SafeStrcat returned %zu, expected %zu", ret, want.size());
        VP_CHECK(memcmp(g.p(), want.c_str(), want.size() + 1) == 0, "SafeStrcat left the wrong text");
        have = want;
    }
}

__attribute__((noinline)) static size_t
CallVa(char* b, size_t n, const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    size_t r = ke::SafeVsprintf(b, n, f, ap);
    va_end(ap);
    return r;
}

VP_TARGET(Format, 250000, 10000000, vp::kLeakCheck) {
    fmt::Format f;
    if (s.draw(500) == 499)
        fmt::GenerateLong(s, f);
    else
        fmt::Generate(s, f, 120, true);
    std::string full;
    if (!fmt::Reference(f, full))
        return;
    Exact format(f.text);
    Guarded g(s, BufferFor(s, full.size()));
    bool va = s.coin();
    VP_LOG("%s(%zu bytes, %s) full length %zu", va ? "SafeVsprintf" : "SafeSprintf", g.size,
           vp::Quote(f.text.data(), f.text.size()), full.size());
    if (g.size <= full.size() + 1)
        s.nontrivial();
    size_t ret = 0;
    if (va)
        fmt::Apply(f, [&](auto... a) { ret = CallVa(g.p(), g.size, format.p(), a...); });
    else
        fmt::Apply(f, [&](auto... a) { ret = ke::SafeSprintf(g.p(), g.size, format.p(), a...); });
    if (g.size == 0) {
        s.mark("zero size");
        g.check("formatting");
        VP_CHECK(ret == 0, "formatting into zero bytes returned %zu", ret);
        return;
    }
    Expect(g, va ? "SafeVsprintf" : "SafeSprintf", ret, full);
}

VP_TARGET(Unformattable, 20000, 200000, vp::kLeakCheck) {
    // A wide character that has no encoding: there is no text, but the result must be consistent.
    std::string lead = fmt::Bytes(s, s.draw(20));
    lead.erase(std::remove(lead.begin(), lead.end(), '%'), lead.end());
    Guarded g(s, 1 + s.draw(40));
    static const wchar_t bad[] = {L'o', L'k', 0xDC00, 0};
    std::string f = lead + "%ls";
    s.nontrivial();
    size_t ret = ke::SafeSprintf(g.p(), g.size, f.c_str(), bad);
    VP_LOG("SafeSprintf(%zu bytes, %s) of an unencodable string -> %zu", g.size, vp::Quote(f.data(), f.size()), ret);
    g.check("SafeSprintf");
    size_t n = strnlen(g.p(), g.size);
    VP_CHECK(n < g.size, "no terminator after a formatting error");
    VP_CHECK(ret == n, "returned %zu, the text has length %zu", ret, n);
}

// Buffers of more than 4 GB, of which only what is written gets memory; and no buffer at all.
VP_TARGET(HugeBuffer, 4000, 40000, 0) {
    static const size_t kMap = (size_t(1) << 33) + 65536;
    static char* const map = (char*)mmap(nullptr, kMap, PROT_READ | PROT_WRITE,
                                         MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (map == MAP_FAILED)
        return;
    std::string text = fmt::Bytes(s, s.size(300));
    // Sizes whose low 31 or 32 bits are small or zero.
    size_t size = (size_t(1) << (31 + s.draw(3))) + s.draw(40);
    if (s.coin())
        size -= s.draw(40);
    memset(map, 0x55, 1024);
    unsigned how = unsigned(s.draw(6));
    size_t n = s.coin() ? size_t(s.draw(400)) : (size_t(1) << (31 + s.draw(3))) + s.draw(40);
    std::string want = text;
    size_t ret = 0;
    VP_LOG("call %u with a buffer of %zu bytes, %s, count %zu", how, size, vp::Quote(text.data(), text.size()), n);
    s.nontrivial();
    switch (how) {
        case 0:
            ret = ke::SafeStrcpy(map, size, text.c_str());
            break;
        case 1:
            want = text.substr(0, std::min(n, text.size()));
            ret = ke::SafeStrcpyN(map, size, text.c_str(), n);
            break;
        case 2:
            strcpy(map, "before");
            want = "before" + text;
            ret = ke::SafeStrcat(map, size, text.c_str());
            break;
        case 3:
            ret = ke::SafeSprintf(map, size, "%s", text.c_str());
            break;
        case 4:
            ret = CallVa(map, size, "%s", text.c_str());
            break;
        default:
            // A destination that is not there takes nothing.
            VP_CHECK(ke::SafeStrcpy(nullptr, s.draw(100), text.c_str()) == 0, "SafeStrcpy to nowhere");
            VP_CHECK(ke::SafeStrcpyN(nullptr, s.draw(100), text.c_str(), n) == 0, "SafeStrcpyN to nowhere");
            return;
    }
    VP_CHECK(ret == want.size(), "returned %zu, expected %zu", ret, want.size());
    VP_CHECK(memcmp(map, want.c_str(), want.size() + 1) == 0, "the text is %s", vp::Quote(map, want.size()));
    madvise(map, kMap, MADV_DONTNEED);
}
