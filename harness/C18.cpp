// C18: allocating printf returns the complete formatted text.
// Non-trivial: the text is longer than two bytes or has at least two arguments.
#include "../engine/vp.h"

#include <algorithm>

#include <amtl/am-string.h>

#include "common/fmt.h"

__attribute__((noinline)) static std::unique_ptr<char[]>
ArgsVa(const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    auto r = ke::SprintfArgs(f, ap);
    va_end(ap);
    return r;
}
__attribute__((noinline)) static std::string
StringVa(const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    std::string r = ke::StringPrintfVa(f, ap);
    va_end(ap);
    return r;
}
// A copy of the list made before the call must still give the same text afterwards.
__attribute__((noinline)) static std::string
StringVaTwice(const char* f, std::string* second, ...) {
    va_list ap, keep;
    va_start(ap, second);
    va_copy(keep, ap);
    std::string r = ke::StringPrintfVa(f, ap);
    *second = ke::StringPrintfVa(f, keep);
    va_end(keep);
    va_end(ap);
    return r;
}

static void
Same(const char* what, const char* got, size_t n, const std::string& want) {
    VP_CHECK(n == want.size(), "%s gave %zu bytes, the C library gives %zu", what, n, want.size());
    VP_CHECK(memcmp(got, want.data(), n) == 0, "%s gave %s, the C library gives %s", what, vp::Quote(got, n),
             vp::Quote(want.data(), want.size()));
}

static void
All(vp::Src& s, const fmt::Format& f, const std::string& want) {
    std::unique_ptr<char[]> format(new char[f.text.size() + 1]);
    memcpy(format.get(), f.text.c_str(), f.text.size() + 1);
    unsigned which = unsigned(s.draw(5));
    static const char* const names[] = {"Sprintf", "SprintfArgs", "StringPrintf", "StringPrintfVa",
                                        "StringPrintfVa twice"};
    VP_LOG("%s(%s), %d arguments, length %zu", names[which], vp::Quote(f.text.data(), f.text.size()), f.n,
           want.size());
    if (which < 2) {
        std::unique_ptr<char[]> p;
        if (which == 0)
            fmt::Apply(f, [&](auto... a) { p = ke::Sprintf(format.get(), a...); });
        else
            fmt::Apply(f, [&](auto... a) { p = ArgsVa(format.get(), a...); });
        VP_CHECK(!!p, "%s returned null", names[which]);
        // All bytes, and the terminator: reading them also proves the block is that large.
        VP_CHECK(memcmp(p.get(), want.data(), want.size()) == 0, "%s gave the wrong text %s", names[which],
                 vp::Quote(p.get(), strlen(p.get())));
        VP_CHECK(p.get()[want.size()] == 0, "%s: no terminator after %zu bytes", names[which], want.size());
    } else {
        std::string r, second = want;
        if (which == 2)
            fmt::Apply(f, [&](auto... a) { r = ke::StringPrintf(format.get(), a...); });
        else if (which == 3)
            fmt::Apply(f, [&](auto... a) { r = StringVa(format.get(), a...); });
        else
            fmt::Apply(f, [&](auto... a) { r = StringVaTwice(format.get(), &second, a...); });
        Same(names[which], r.data(), r.size(), want);
        Same("a second use of the argument list", second.data(), second.size(), want);
    }
}

VP_TARGET(Mixed, 300000, 10000000, vp::kLeakCheck) {
    fmt::Format f;
    fmt::Generate(s, f, 150, true);
    std::string want;
    if (!fmt::Reference(f, want))
        return;
    if (want.size() > 2 || f.n >= 2)
        s.nontrivial();
    if (want.find('\0') != std::string::npos)
        s.mark("embedded NUL");
    if (want.empty())
        s.mark("empty text");
    All(s, f, want);
}

VP_TARGET(Long, 20000, 400000, vp::kLeakCheck) {
    // Lengths around the sizes where a fixed buffer would give up.
    static const size_t around[] = {2, 16, 64, 128, 256, 512, 1000, 1024, 2048, 4096, 8192, 16384, 65536, 100000};
    size_t n = around[s.draw(sizeof(around) / sizeof(*around))];
    n = n + s.draw(7) - 2;
    std::string v = fmt::Bytes(s, s.draw(30) + 1);
    std::string arg;
    while (arg.size() < n)
        arg += v;
    arg.resize(n);
    fmt::Format f;
    f.strings.emplace_back(new char[n + 1]);
    memcpy(f.strings[0].get(), arg.c_str(), n + 1);
    unsigned tail = unsigned(s.draw(3));
    f.text = tail == 0 ? "%s" : tail == 1 ? "%s%d" : "<%s>%c";
    f.args[0].i = uint64_t(uintptr_t(f.strings[0].get()));
    f.n = tail ? 2 : 1;
    if (tail)
        f.args[1].i = s.draw(128);
    std::string want;
    if (!fmt::Reference(f, want))
        return;
    s.nontrivial();
    All(s, f, want);
}

// A wide character that has no encoding: the C library gives no text, and neither may these.
VP_TARGET(Unformattable, 20000, 200000, vp::kLeakCheck) {
    std::string lead = fmt::Bytes(s, s.draw(20));
    lead.erase(std::remove(lead.begin(), lead.end(), '%'), lead.end());
    wchar_t bad[4] = {L'o', L'k', 0xDC00, 0};
    bool broken = s.chance(3, 4);
    if (!broken)
        bad[2] = 0;
    std::string f = lead + (s.coin() ? "%ls" : "%ls%s");
    std::string tail = fmt::Bytes(s, s.draw(5));
    s.nontrivial();
    std::string want;
    if (!broken) {
        want = lead + "ok";
        if (f.size() > lead.size() + 3)
            want += tail;
    }
    unsigned which = unsigned(s.draw(3));
    VP_LOG("form %u of %s with %s wide string", which, vp::Quote(f.data(), f.size()), broken ? "an unencodable" : "a good");
    if (which < 2) {
        auto p = which ? ArgsVa(f.c_str(), bad, tail.c_str()) : ke::Sprintf(f.c_str(), bad, tail.c_str());
        if (broken)
            VP_CHECK(!p, "text %s for arguments that cannot be formatted", vp::Quote(p.get(), strlen(p.get())));
        else
            VP_CHECK(p && want == p.get(), "wrong text %s", p ? p.get() : "(null)");
    } else {
        std::string r = ke::StringPrintf(f.c_str(), bad, tail.c_str());
        Same("StringPrintf", r.data(), r.size(), want);
    }
}

VP_TARGET(LongParts, 6000, 150000, vp::kLeakCheck) {
    fmt::Format f;
    fmt::GenerateLong(s, f);
    std::string want;
    if (!fmt::Reference(f, want))
        return;
    s.nontrivial();
    All(s, f, want);
}
