// C19: split and join are inverse, and affix, case and comparison helpers are exact.
// Non-trivial: the separator occurs in the string; the affix is non-empty; the text has letters.
#include "../engine/vp.h"

#include <algorithm>

#include <amtl/am-string.h>

#include "common/fmt.h"
#include "common/sizes.h"

typedef std::vector<std::string> Strings;

struct CStr {
    std::unique_ptr<char[]> mem;
    explicit CStr(const std::string& s)
     : mem(new char[s.size() + 1])
    {
        memcpy(mem.get(), s.c_str(), s.size() + 1);
    }
    operator const char*() const {
        return mem.get();
    }
};

// Left-to-right, non-overlapping scan, byte by byte.
static Strings
ModelSplit(const std::string& str, const std::string& sep) {
    Strings out;
    if (str.empty())
        return out;
    std::string cur;
    size_t i = 0;
    while (i < str.size()) {
        bool here = i + sep.size() <= str.size();
        for (size_t k = 0; here && k < sep.size(); k++)
            here = str[i + k] == sep[k];
        if (here) {
            out.push_back(cur);
            cur.clear();
            i += sep.size();
        } else {
            cur += str[i++];
        }
    }
    out.push_back(cur);
    return out;
}

static std::string
ModelJoin(const Strings& v, const std::string& sep) {
    std::string r;
    for (size_t i = 0; i < v.size(); i++) {
        if (i)
            for (char c : sep)
                r += c;
        for (char c : v[i])
            r += c;
    }
    return r;
}

VP_TARGET(SplitJoin, 800000, 20000000, vp::kLeakCheck) {
    // A tiny alphabet makes separators repeat and overlap themselves.
    unsigned alpha = 1 + unsigned(s.draw(3));
    bool wide = s.draw(6) == 5;
    auto text = [&](size_t n) {
        std::string r;
        for (size_t i = 0; i < n; i++)
            r += wide ? char(1 + s.draw(255)) : char('a' + s.draw(alpha));
        return r;
    };
    std::string sep = text(1 + (s.draw(200) == 199 ? s.draw(400) : s.draw(4)));
    std::string str;
    if (s.draw(3000) == 2999) {
        str = fmt::LongText(s);
        if (s.coin())
            sep = str.substr(s.draw(str.size() - 8), 1 + s.draw(8));
        s.mark("long text");
    } else if (s.coin()) {
        str = text(s.size(200));
    } else {
        while (s.more(6)) {
            str += s.coin() ? sep : text(s.draw(5));
            if (s.draw(4) == 3)
                str += sep.substr(0, s.draw(sep.size() + 1));
        }
    }
    VP_LOG("Split(%s, %s)", vp::Quote(str.data(), str.size()), vp::Quote(sep.data(), sep.size()));
    if (str.find(sep) != std::string::npos)
        s.nontrivial();
    CStr cs(str), csep(sep);
    Strings want = ModelSplit(str, sep);
    Strings got = s.coin() ? ke::Split((const char*)cs, csep) : ke::Split(str, csep);
    VP_CHECK(got.size() == want.size(), "split gave %zu pieces, expected %zu", got.size(), want.size());
    for (size_t i = 0; i < got.size(); i++) {
        VP_CHECK(got[i] == want[i], "piece %zu is %s, expected %s", i, vp::Quote(got[i].data(), got[i].size()),
                 vp::Quote(want[i].data(), want[i].size()));
        VP_CHECK(got[i].find(sep) == std::string::npos, "piece %zu contains the separator", i);
    }
    std::string back = ke::Join(got, csep);
    VP_CHECK(back == str, "joining the pieces gives %s", vp::Quote(back.data(), back.size()));
}

VP_TARGET(JoinAny, 400000, 10000000, vp::kLeakCheck) {
    Strings v;
    if (s.draw(2000) == 1999) {
        // Many small pieces.
        size_t n = LargeSize(s, 100000);
        for (size_t i = 0; i < n; i++)
            v.push_back(std::string(i % 3, char('a' + i % 26)));
    }
    while (s.more(5))
        v.push_back(s.draw(400) == 399 ? fmt::LongText(s) : fmt::Bytes(s, s.size(60), true));
    std::string sep = fmt::Bytes(s, s.draw(5));
    if (v.size() > 1)
        s.nontrivial();
    CStr csep(sep);
    std::string got = ke::Join(v, csep), want = ModelJoin(v, sep);
    VP_LOG("Join(%zu pieces, %s) -> %s", v.size(), vp::Quote(sep.data(), sep.size()),
           vp::Quote(got.data(), got.size()));
    VP_CHECK(got == want, "join gives %s, expected %s", vp::Quote(got.data(), got.size()),
             vp::Quote(want.data(), want.size()));
}

VP_TARGET(Affixes, 800000, 20000000, vp::kLeakCheck) {
    std::string a = s.draw(400) == 399 ? fmt::LongText(s) : fmt::Bytes(s, s.size(40));
    std::string b;
    switch (s.draw(5)) {
        case 0:
            b = a.substr(0, s.draw(a.size() + 1));
            break;
        case 1:
            b = a.substr(s.draw(a.size() + 1));
            break;
        case 2:
            b = a + fmt::Bytes(s, s.draw(4));
            break;
        case 3:
            b = fmt::Bytes(s, s.draw(6));
            break;
        default:
            b = a.substr(0, s.draw(a.size() + 1));
            if (!b.empty()) {
                size_t at = s.draw(b.size());
                char c = char(1 + s.draw(255));
                b[at] = c;
            }
    }
    VP_LOG("%s against %s", vp::Quote(a.data(), a.size()), vp::Quote(b.data(), b.size()));
    if (!b.empty())
        s.nontrivial();
    bool starts = b.size() <= a.size(), ends = starts;
    for (size_t i = 0; starts && i < b.size(); i++)
        starts = a[i] == b[i];
    for (size_t i = 0; ends && i < b.size(); i++)
        ends = a[a.size() - b.size() + i] == b[i];
    CStr ca(a), cb(b);
    VP_CHECK(ke::StartsWith((const char*)ca, (const char*)cb) == starts, "StartsWith(char*) is %d", !starts);
    VP_CHECK(ke::StartsWith(a, (const char*)cb) == starts, "StartsWith(string) is %d", !starts);
    VP_CHECK(ke::EndsWith(a, b) == ends, "EndsWith is %d", !ends);
    if (starts)
        s.mark("prefix");
    if (ends)
        s.mark("suffix");
}

VP_TARGET(EndsWithNul, 200000, 5000000, vp::kLeakCheck) {
    // std::string arguments may hold NUL bytes.
    std::string a, b;
    size_t n = s.draw(8);
    for (size_t i = 0; i < n; i++)
        a += char(s.draw(2) ? 'x' : 0);
    size_t m = s.draw(8);
    for (size_t i = 0; i < m; i++)
        b += char(s.draw(2) ? 'x' : 0);
    bool ends = b.size() <= a.size() && std::equal(b.begin(), b.end(), a.end() - long(b.size()));
    if (ends && !b.empty())
        s.nontrivial();
    VP_LOG("EndsWith(%s, %s)", vp::Quote(a.data(), a.size()), vp::Quote(b.data(), b.size()));
    VP_CHECK(ke::EndsWith(a, b) == ends, "EndsWith is %d", !ends);
}

static char
Low(char c) {
    return c >= 'A' && c <= 'Z' ? char(c - 'A' + 'a') : c;
}
static char
Up(char c) {
    return c >= 'a' && c <= 'z' ? char(c - 'a' + 'A') : c;
}
static int
Sign(int v) {
    return v < 0 ? -1 : v > 0;
}

VP_TARGET(Case, 600000, 15000000, vp::kLeakCheck) {
    std::string a = s.draw(400) == 399 ? fmt::LongText(s) : fmt::Bytes(s, s.size(60));
    if (a.size() <= 60 && s.coin())
        for (char& c : a)
            if (s.coin())
                c = char("azAZ@[`{mM"[s.draw(10)]);
    std::string b;
    if (s.draw(3)) {
        b = a;
        if (b.size() > 60) {
            for (size_t i = 0; i < b.size(); i++)
                b[i] = i & 1 ? Up(b[i]) : Low(b[i]);
        } else
        for (char& c : b)
            if (s.coin())
                c = s.coin() ? Up(c) : Low(c);
        if (s.draw(3) == 2)
            b = b.substr(0, s.draw(b.size() + 1));
        if (!b.empty() && s.coin()) {
            size_t at = s.draw(b.size());
            char c = char(1 + s.draw(255));
            b[at] = c;
        }
    } else {
        b = fmt::Bytes(s, s.size(20));
    }
    VP_LOG("%s and %s", vp::Quote(a.data(), a.size()), vp::Quote(b.data(), b.size()));
    for (char c : a)
        if (Low(c) != c || Up(c) != c) {
            s.nontrivial();
            break;
        }
    CStr ca(a), cb(b);
    std::string up, low, lowb;
    for (char c : a) {
        up += Up(c);
        low += Low(c);
    }
    for (char c : b)
        lowb += Low(c);
    std::string gu = ke::Uppercase(ca), gl = ke::Lowercase(ca);
    VP_CHECK(gu == up, "Uppercase gives %s", vp::Quote(gu.data(), gu.size()));
    VP_CHECK(gl == low, "Lowercase gives %s", vp::Quote(gl.data(), gl.size()));
    int want = 0;
    for (size_t i = 0;; i++) {
        unsigned x = i < low.size() ? (unsigned char)low[i] : 0, y = i < lowb.size() ? (unsigned char)lowb[i] : 0;
        if (x != y) {
            want = x < y ? -1 : 1;
            break;
        }
        if (!x)
            break;
    }
    int got = Sign(ke::StrCaseCmp(ca, cb)), rev = Sign(ke::StrCaseCmp(cb, ca));
    VP_CHECK(got == want, "StrCaseCmp has sign %d, expected %d", got, want);
    VP_CHECK(rev == -want, "StrCaseCmp swapped has sign %d, expected %d", rev, -want);
    if (want == 0)
        s.mark("equal ignoring case");
}
