// fmt.h - generates printf formats together with matching arguments.
#pragma once

#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>

#include <memory>
#include <string>
#include <vector>

namespace fmt {

static const int kMaxArgs = 5;

struct Arg {
    bool dbl = false;
    uint64_t i = 0;
    double d = 0;
};

struct Format {
    std::string text;
    int n = 0;
    Arg args[kMaxArgs];
    // Exact-sized heap copies of the string arguments, so that reading past one is caught.
    std::vector<std::unique_ptr<char[]>> strings;
};

static inline std::string
Bytes(vp::Src& s, size_t n, bool nul = false) {
    std::string r;
    unsigned kind = unsigned(s.draw(4));
    for (size_t i = 0; i < n; i++) {
        unsigned v = kind == 0 ? 'a' + unsigned(s.draw(3)) : kind == 1 ? 32 + unsigned(s.draw(95)) : unsigned(s.draw(256));
        if (kind == 2 && (v & 1))
            v = 'a' + v % 26;
        if (v == 0 && !nul)
            v = 1;
        r += char(v);
    }
    return r;
}

// A long text made of a short repeated unit, with one byte changed; around sizes where a narrow
// counter or a fixed buffer would give up.
static inline std::string
LongText(vp::Src& s) {
    static const size_t around[] = {127, 255, 256, 511, 1023, 4095, 4096, 16384, 32767, 65535, 65536, 131072};
    size_t n = around[s.draw(sizeof(around) / sizeof(*around))] + s.draw(9);
    std::string unit = Bytes(s, 1 + s.draw(12)), r;
    while (r.size() < n)
        r += unit;
    r.resize(n);
    size_t at = s.draw(n);
    char c = char(1 + s.draw(255));
    r[at] = c;
    return r;
}

// |cap|: rough bound on the length of one field.
static inline void
Generate(vp::Src& s, Format& f, size_t cap, bool nul_chars) {
    static const char* const ints[] = {"d", "i", "u", "x", "X", "o"};
    static const char* const longs[] = {"lld", "llu", "llx", "zu", "ld", "lu", "jd"};
    static const char* const shorts[] = {"hd", "hu", "hhd", "hhu"};
    static const char* const dbls[] = {"f", "g", "e", "a", "G", "E"};
    while (s.more(5)) {
        switch (s.draw(8)) {
            case 0:
                if (s.coin()) {
                    f.text += "%%";
                } else {
                    for (char c : Bytes(s, s.draw(2) ? s.draw(cap + 1) : s.draw(6)))
                        if (c != '%')
                            f.text += c;
                }
                break;
            case 1:
                for (char c : Bytes(s, s.draw(20)))
                    f.text += c == '%' ? '.' : c;
                break;
            default: {
                if (f.n >= kMaxArgs)
                    break;
                std::string spec = "%";
                unsigned flags = unsigned(s.draw(8)) ? 0 : unsigned(s.draw(32));
                unsigned conv = unsigned(s.draw(7));
                bool num = conv < 3, dbl = conv == 3, str = conv == 4, chr = conv == 5;
                unsigned which = unsigned(s.draw(100));
                std::string c;
                if (conv == 0)
                    c = ints[which % 6];
                else if (conv == 1)
                    c = longs[which % 7];
                else if (conv == 2)
                    c = shorts[which % 4];
                else if (dbl)
                    c = dbls[which % 6];
                else if (str)
                    c = "s";
                else if (chr)
                    c = "c";
                else
                    c = "p";
                if (flags & 1)
                    spec += '-';
                char last = c[c.size() - 1];
                bool sgn = last == 'd' || last == 'i' || dbl;
                if ((flags & 2) && sgn)
                    spec += '+';
                if ((flags & 4) && (dbl || last == 'x' || last == 'X' || last == 'o'))
                    spec += '#';
                if ((flags & 8) && !(flags & 1) && (num || dbl))
                    spec += '0';
                if ((flags & 16) && !(flags & 2) && sgn)
                    spec += ' ';
                if (s.draw(3) == 2) {
                    // width
                    unsigned w = unsigned(s.draw(2) ? s.draw(12) : s.draw(cap + 1));
                    if (w) {
                        if (f.n + 1 < kMaxArgs && s.coin()) {
                            spec += '*';
                            int64_t v = s.draw(4) == 3 ? -int64_t(w) : int64_t(w);
                            f.args[f.n++].i = uint64_t(v);
                        } else {
                            spec += std::to_string(w);
                        }
                    }
                }
                if (!chr && conv != 6 && s.draw(3) == 2) {
                    // precision
                    unsigned p = unsigned(s.draw(2) ? s.draw(12) : s.draw(dbl ? 60 : cap + 1));
                    if (f.n + 1 < kMaxArgs && s.coin()) {
                        spec += ".*";
                        f.args[f.n++].i = uint64_t(int64_t(p));
                    } else {
                        spec += "." + std::to_string(p);
                    }
                }
                spec += c;
                Arg& a = f.args[f.n++];
                if (dbl) {
                    a.dbl = true;
                    uint64_t k = s.draw(4);
                    uint64_t bits = s.uint(64);
                    if (k == 0) {
                        a.d = double(int64_t(bits)) / 1000.0;
                    } else if (k == 1) {
                        a.d = double(bits % 100000) / 16;
                    } else {
                        memcpy(&a.d, &bits, 8);
                    }
                } else if (str) {
                    std::string v = Bytes(s, s.draw(3) ? s.draw(20) : s.draw(cap + 1));
                    f.strings.emplace_back(new char[v.size() + 1]);
                    memcpy(f.strings.back().get(), v.c_str(), v.size() + 1);
                    a.i = uint64_t(uintptr_t(f.strings.back().get()));
                } else if (chr) {
                    a.i = s.draw(256);
                    if (a.i == 0 && !nul_chars)
                        a.i = 'z';
                } else {
                    a.i = s.uint(64);
                }
                f.text += spec;
            }
        }
    }
}

// Long results: long arguments, long literal text, wide fields.
static inline void
GenerateLong(vp::Src& s, Format& f) {
    size_t parts = 1 + s.draw(3);
    for (size_t i = 0; i < parts; i++) {
        switch (s.draw(4)) {
            case 0: {
                std::string v = LongText(s);
                for (char& c : v)
                    if (c == '%')
                        c = '.';
                f.text += v;
                break;
            }
            case 1:
                f.text += "%" + std::string(s.coin() ? "-" : "") + std::to_string(100 + s.draw(s.coin() ? 400 : 80000)) + "d";
                f.args[f.n++].i = s.uint(64);
                break;
            default: {
                std::string v = LongText(s);
                f.strings.emplace_back(new char[v.size() + 1]);
                memcpy(f.strings.back().get(), v.c_str(), v.size() + 1);
                f.args[f.n++].i = uint64_t(uintptr_t(f.strings.back().get()));
                f.text += s.draw(4) == 3 ? "%." + std::to_string(s.draw(v.size() + 4)) + "s" : std::string("%s");
            }
        }
        if (s.coin())
            f.text += s.coin() ? "/" : "%%";
    }
}

// Calls fn(args...) with each argument passed as a 64-bit integer or a double; on the 64-bit ABIs an
// int argument is the low half of the same slot.
template <typename Fn, typename... Done>
static typename std::enable_if<sizeof...(Done) == kMaxArgs>::type
ApplyFrom(const Format&, int, Fn& fn, Done... done) {
    fn(done...);
}
template <typename Fn, typename... Done>
static typename std::enable_if<(sizeof...(Done) < kMaxArgs)>::type
ApplyFrom(const Format& f, int at, Fn& fn, Done... done) {
    if (at == f.n)
        fn(done...);
    else if (f.args[at].dbl)
        ApplyFrom(f, at + 1, fn, done..., f.args[at].d);
    else
        ApplyFrom(f, at + 1, fn, done..., f.args[at].i);
}
template <typename Fn>
static void
Apply(const Format& f, Fn fn) {
    ApplyFrom(f, 0, fn);
}

// What the C library says the text is.
static inline bool
Reference(const Format& f, std::string& out) {
    int n = -1;
    std::vector<char> buf(1 << 16);
    Apply(f, [&](auto... a) { n = snprintf(buf.data(), buf.size(), f.text.c_str(), a...); });
    if (n < 0)
        return false;
    if (size_t(n) >= buf.size()) {
        buf.resize(size_t(n) + 1);
        Apply(f, [&](auto... a) { snprintf(buf.data(), buf.size(), f.text.c_str(), a...); });
    }
    out.assign(buf.data(), size_t(n));
    return true;
}

}  // namespace fmt
