// Shared by the argument parser checks: random option sets and argument lists, the grammar as an
// independent reading of it, and the real options behind one interface.
#pragma once

#include <limits.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include <memory>
#include <string>
#include <vector>

#include <amtl/experimental/am-argparser.h>

namespace argx {

enum Kind { kString, kInt, kBool, kEnable, kToggle, kStop, kRepeatString, kRepeatInt, kNumKinds };
static const char* const kKindNames[] = {"string", "int", "bool", "enable", "toggle", "stop", "strings", "ints"};

struct Spec {
    Kind kind;
    std::string shortf, longf; // without dashes; empty: none
    std::string name;          // positional
    bool dashes;               // registered with its dashes
    bool has_default;
    int idef;
    bool bdef;
    std::string sdef;
    std::string help;

    bool positional() const {
        return !name.empty();
    }
    std::string pretty() const {
        return positional() ? name : !longf.empty() ? longf : shortf;
    }
};

struct Settings {
    bool help = false;
    bool inline_values = false;
    bool slashes = false;
    bool extra = false;
    bool passthrough = false;
};

struct Set {
    Settings set;
    std::vector<Spec> specs; // all options in the order they are found, help option not included
    size_t nstatic = 0;      // how many of them are static
};

// --- the grammar --------------------------------------------------------------------------------

struct Value {
    bool given = false;
    std::string s;
    int i = 0;
    bool b = false;
    std::vector<std::string> ss;
    std::vector<int> is;
};

enum Outcome { kAccepted, kHelp, kUnrecognized, kExtra, kNeedsValue, kInvalidValue, kMissing, kTwice };

struct Result {
    Outcome outcome = kAccepted;
    std::vector<Value> values; // per spec
    std::vector<std::string> extra, passthrough;
    // What an error names.
    std::string who, what;
    // Which rules the list exercised.
    bool used_inline = false, used_negated = false, used_omitted = false, used_stop = false;
};

static inline bool
ParseInt(const std::string& t, int* out) {
    size_t i = 0;
    while (i < t.size() && (t[i] == ' ' || (t[i] >= '\t' && t[i] <= '\r')))
        i++;
    bool neg = false;
    if (i < t.size() && (t[i] == '-' || t[i] == '+'))
        neg = t[i++] == '-';
    if (i == t.size())
        return false;
    __int128 v = 0;
    for (; i < t.size(); i++) {
        if (t[i] < '0' || t[i] > '9')
            return false;
        if (v < ((__int128)1 << 100))
            v = v * 10 + (t[i] - '0');
    }
    if (neg)
        v = -v;
    if (v < INT_MIN || v > INT_MAX)
        return false;
    *out = int(v);
    return true;
}

static inline bool
ParseBool(const std::string& t, bool* out) {
    std::string low;
    for (char c : t)
        low += (c >= 'A' && c <= 'Z') ? char(c + 32) : c;
    if (low == "true") {
        *out = true;
        return true;
    }
    if (low == "false") {
        *out = false;
        return true;
    }
    return false;
}

// Gives |v| the text |t|; false when it is not a value of this kind.
static inline bool
Assign(const Spec& o, Value& v, const std::string& t) {
    switch (o.kind) {
        case kString:
        case kRepeatString:
            if (t.empty())
                return false;
            if (o.kind == kString)
                v.s = t;
            else
                v.ss.push_back(t);
            break;
        case kInt:
        case kRepeatInt: {
            int n;
            if (!ParseInt(t, &n))
                return false;
            if (o.kind == kInt)
                v.i = n;
            else
                v.is.push_back(n);
            break;
        }
        case kBool:
            if (!ParseBool(t, &v.b))
                return false;
            break;
        default:
            return false;
    }
    v.given = true;
    return true;
}

static inline Result
Parse(const Set& set, const std::vector<std::string>& args) {
    Result r;
    const int kHelpOpt = -2;
    r.values.resize(set.specs.size());
    std::vector<size_t> positionals;
    for (size_t i = 0; i < set.specs.size(); i++) {
        if (set.specs[i].positional())
            positionals.push_back(i);
    }
    bool help = false, halted = false;

    auto by_short = [&](const std::string& n) -> int {
        if (set.set.help && n == "h")
            return kHelpOpt;
        for (size_t i = 0; i < set.specs.size(); i++) {
            if (!set.specs[i].shortf.empty() && set.specs[i].shortf == n)
                return int(i);
        }
        return -1;
    };
    auto by_long = [&](const std::string& n) -> int {
        if (set.set.help && n == "help")
            return kHelpOpt;
        for (size_t i = 0; i < set.specs.size(); i++) {
            if (!set.specs[i].longf.empty() && set.specs[i].longf == n)
                return int(i);
        }
        return -1;
    };

    size_t next_positional = 0;
    for (size_t i = 0; i < args.size() && !halted; i++) {
        const std::string& a = args[i];
        if (set.set.passthrough && a == "--") {
            r.passthrough.assign(args.begin() + i + 1, args.end());
            break;
        }
        if (a.empty() || !(a[0] == '-' || (set.set.slashes && a[0] == '/'))) {
            if (next_positional < positionals.size()) {
                size_t p = positionals[next_positional++];
                if (!Assign(set.specs[p], r.values[p], a)) {
                    r.outcome = kInvalidValue;
                    r.who = set.specs[p].pretty();
                    r.what = a;
                    return r;
                }
            } else if (set.set.extra) {
                r.extra.push_back(a);
            } else {
                r.outcome = kExtra;
                return r;
            }
            continue;
        }

        // -name, -name=value, --name, --name=value; with inline values also -nVALUE and a colon for
        // the equals sign, and then a separator with nothing after it does not separate.
        size_t sep = a.find('=');
        if (set.set.inline_values)
            sep = std::min(sep, a.find(':'));
        if (set.set.inline_values && sep != std::string::npos && sep + 1 == a.size())
            sep = std::string::npos;
        bool is_long = a.compare(0, 2, "--") == 0;
        size_t start = is_long ? 2 : 1;
        std::string name = a.substr(start, sep == std::string::npos ? std::string::npos : sep > start ? sep - start : 0);
        bool with_value = sep != std::string::npos;
        std::string value = with_value ? a.substr(sep + 1) : "";

        bool negated = false;
        int o;
        if (is_long) {
            o = by_long(name);
            if (o == -1 && name.compare(0, 3, "no-") == 0) {
                o = by_long(name.substr(3));
                if (o >= 0 && set.specs[o].kind == kEnable)
                    negated = true;
                else
                    o = -1;
            }
        } else {
            o = by_short(name);
            if (o == -1 && set.set.inline_values && a.size() >= 2) {
                o = by_short(a.substr(1, 1));
                if (o != -1) {
                    with_value = true;
                    value = a.substr(2);
                    r.used_inline = true;
                }
            }
        }
        if (o == -1) {
            r.outcome = kUnrecognized;
            r.what = a;
            return r;
        }
        if (o == kHelpOpt) {
            if (with_value) {
                r.outcome = kInvalidValue;
                r.who = "help";
                r.what = value;
                return r;
            }
            help = halted = true;
            continue;
        }

        const Spec& spec = set.specs[o];
        Value& v = r.values[o];
        bool repeats = spec.kind == kRepeatString || spec.kind == kRepeatInt;
        if (v.given && !repeats) {
            r.outcome = kTwice;
            r.who = spec.pretty();
            return r;
        }
        if (spec.kind == kEnable || spec.kind == kToggle || spec.kind == kStop) {
            if (with_value) {
                r.outcome = kInvalidValue;
                r.who = spec.pretty();
                r.what = value;
                return r;
            }
            v.given = true;
            v.b = spec.kind == kEnable ? !negated : !(spec.has_default && spec.bdef);
            r.used_negated |= negated;
            if (spec.kind == kStop)
                halted = true;
            continue;
        }
        bool from_next = false;
        if (!with_value) {
            if (i + 1 < args.size()) {
                from_next = true;
                value = args[i + 1];
            } else if (spec.kind != kBool) {
                r.outcome = kNeedsValue;
                r.who = spec.pretty();
                return r;
            }
        }
        if ((with_value || from_next) && Assign(spec, v, value)) {
            if (from_next)
                i++;
            continue;
        }
        if (spec.kind == kBool && !with_value) {
            v.given = true;
            v.b = true;
            r.used_omitted = true;
            continue;
        }
        r.outcome = kInvalidValue;
        r.who = spec.pretty();
        r.what = value;
        return r;
    }
    if (!halted && next_positional < positionals.size()) {
        r.outcome = kMissing;
        r.who = set.specs[positionals[next_positional]].pretty();
        return r;
    }
    r.used_stop = halted;
    if (help)
        r.outcome = kHelp;
    return r;
}

// --- generation ---------------------------------------------------------------------------------

static const char* const kShorts[] = {"a", "b", "ab", "O", "D", "x", "s", "no", "val", "i"};
static const char* const kLongs[] = {"a", "aa", "stuff", "no-stuff", "val", "value", "include-path", "x", "no-x", "s"};
static const char* const kNames[] = {"file", "mode", "out", "in-file"};

// An option whose name is taken by an earlier one is never found; the grammar does not say so, so such
// sets are not made.
static inline Spec
GenSpec(vp::Src& s, const Set& set, bool allow_positional) {
    Spec o;
    o.kind = Kind(s.draw(kNumKinds));
    o.dashes = s.coin();
    o.has_default = s.coin();
    o.idef = s.chance(1, 4) ? int(uint32_t(s.uint(32))) : int(s.irange(-3, 3));
    o.bdef = s.coin();
    o.sdef = s.coin() ? "dflt" : "d e";
    if (s.chance(1, 16))
        o.sdef = s.coin() ? std::string() : std::string(s.draw(300), 'd');
    o.help = "help";
    if (allow_positional && s.chance(1, 4)) {
        size_t n = s.draw(4);
        o.name = kNames[n];
        o.kind = Kind(s.draw(3));
        o.has_default = false;
        for (const Spec& p : set.specs) {
            if (p.name == o.name)
                o.name += "2";
        }
        return o;
    }
    size_t form = s.draw(3);
    size_t a = s.draw(10);
    size_t b = s.draw(10);
    if (form != 1)
        o.shortf = kShorts[a];
    if (form != 0)
        o.longf = kLongs[b];
    if (form != 0 && s.chance(1, 12)) {
        // Long names that differ only at one end.
        static const size_t lens[] = {5, 14, 15, 16, 30, 31, 32, 62, 63, 64, 126, 250};
        o.longf = std::string(lens[s.draw(s.chance(1, 4) ? 12 : 6)], 'y');
        size_t at = s.coin() ? o.longf.size() : s.draw(o.longf.size() + 1);
        o.longf.insert(at, 1, char('a' + b));
    }
    for (const Spec& p : set.specs) {
        if (p.shortf == o.shortf)
            o.shortf.clear();
        if (p.longf == o.longf)
            o.longf.clear();
    }
    if (o.shortf.empty() && o.longf.empty()) {
        // All taken: make a new long name.
        o.longf = "opt";
        o.longf += char('a' + set.specs.size() % 26);
        o.longf += std::to_string(set.specs.size());
    }
    return o;
}

static inline void
GenSettings(vp::Src& s, Settings& t) {
    t.inline_values = s.coin();
    t.slashes = s.coin();
    t.extra = s.coin();
    t.passthrough = s.coin();
}

static inline std::string
GenText(vp::Src& s) {
    static const char kAlphabet[] = "a2-=:/ O\tnx0+.o";
    std::string t;
    size_t n = s.draw(7);
    for (size_t i = 0; i < n; i++)
        t += kAlphabet[s.draw(sizeof(kAlphabet) - 1)];
    if (s.chance(1, 100)) {
        // Longer than any buffer on a stack.
        static const size_t around[] = {30, 62, 126, 254, 510, 1022, 4094, 16382, 65534};
        t.insert(t.size() / 2, around[s.draw(s.chance(1, 8) ? 9 : 7)] + s.draw(5), s.coin() ? 'b' : '7');
    }
    return t;
}

static inline std::string
GenValue(vp::Src& s, int kind) {
    static const char* const bools[] = {"true", "false", "TRUE", "False", "tru", "truex", "yes", "1", ""};
    static const char* const ints[] = {"0", "308", "-1", "+5", " 7", "30x", "2147483647", "2147483648", "-2147483648",
                                       "-2147483649", "4294967297", "9223372036854775807", "9223372036854775808",
                                       "99999999999999999999", "", "-", "+", "0x10", "00012", "1 ", "1-1"};
    static const char* const strs[] = {"x", "yam", "--", "-s", "a=b", "a:b", "", "/x", "--stuff", "true", "NAME=VALUE", "12"};
    if (s.chance(1, 6))
        return GenText(s);
    if (s.chance(1, 8))
        kind = int(s.draw(3));
    switch (kind) {
        case kBool:
        case kEnable:
        case kToggle:
        case kStop:
            return bools[s.draw(9)];
        case kInt:
        case kRepeatInt: {
            if (!s.chance(1, 4))
                return ints[s.draw(21)];
            // Around the powers of two at which a number of some width wraps around, and others.
            static const unsigned bits[] = {31, 32, 33, 63, 64, 65, 34, 48};
            __int128 v = 0;
            switch (s.draw(3)) {
                case 0:
                    v = s.irange(-100000, 100000);
                    break;
                case 1:
                    v = (__int128(s.irange(-3, 3)) << bits[s.draw(8)]) + int32_t(uint32_t(s.uint(32)));
                    break;
                default:
                    v = __int128(int64_t(s.uint(64))) * (s.coin() ? 1 : 37);
            }
            bool neg = v < 0;
            std::string t;
            for (unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v; u || t.empty(); u /= 10)
                t.insert(t.begin(), char('0' + int(u % 10)));
            if (s.chance(1, 6))
                t.insert(0, s.draw(25), '0');
            if (neg)
                t.insert(t.begin(), '-');
            else if (s.chance(1, 8))
                t.insert(t.begin(), '+');
            if (s.chance(1, 12))
                t.insert(0, s.draw(3), s.coin() ? ' ' : '\t');
            return t;
        }
        default:
            return strs[s.draw(12)];
    }
}

static inline void
GenArgs(vp::Src& s, const Set& set, std::vector<std::string>& args, size_t limit) {
    static const char* const odd[] = {"-", "--", "", "/", "--no-", "--no-zzz", "-=", "--=", "-h", "--help", "---a", "--no-no-stuff", "-:", "=", ":"};
    while (args.size() < limit && s.more(5)) {
        size_t what = s.draw(16);
        if (what == 0) {
            args.push_back(odd[s.draw(15)]);
            continue;
        }
        if (what == 1) {
            size_t pre = s.draw(4);
            args.push_back(std::string(pre == 0 ? "" : pre == 1 ? "-" : pre == 2 ? "--" : "/") + GenText(s));
            continue;
        }
        if (what <= 3 || set.specs.empty()) {
            int k = int(s.draw(3));
            args.push_back(GenValue(s, k));
            continue;
        }
        const Spec& o = set.specs[s.draw(set.specs.size())];
        if (o.positional()) {
            args.push_back(GenValue(s, o.kind));
            continue;
        }
        bool use_long = !o.longf.empty() && (o.shortf.empty() || s.coin());
        std::string t;
        if (use_long) {
            t = "--";
            if ((o.kind == kEnable && s.coin()) || s.chance(1, 16))
                t += "no-";
            t += o.longf;
        } else {
            t = set.set.slashes && s.coin() ? "/" : "-";
            t += o.shortf;
        }
        if (s.chance(1, 32)) {
            // Not quite its name.
            switch (s.draw(4)) {
                case 0:
                    t.pop_back();
                    break;
                case 1:
                    t += char('a' + s.draw(26));
                    break;
                case 2:
                    t.back() = char('a' + s.draw(26));
                    break;
                default:
                    t[t.size() / 2] ^= 0x20;
                    break;
            }
        }
        bool flag = o.kind == kEnable || o.kind == kToggle || o.kind == kStop;
        size_t how = flag ? (s.chance(1, 8) ? 1 + s.draw(4) : 0) : s.draw(6);
        switch (how) {
            case 1:
                args.push_back(t + "=" + GenValue(s, o.kind));
                break;
            case 2:
                args.push_back(t + ":" + GenValue(s, o.kind));
                break;
            case 3:
                args.push_back(t + GenValue(s, o.kind));
                break;
            case 4:
            case 5:
                args.push_back(t);
                if (args.size() < limit)
                    args.push_back(GenValue(s, o.kind));
                break;
            default:
                args.push_back(t);
        }
    }
}

// --- the real thing -----------------------------------------------------------------------------

// Strings handed to the parser live in blocks of their exact size.
struct Text {
    std::unique_ptr<char[]> p;
    explicit Text(const std::string& t)
     : p(new char[t.size() + 1])
    {
        memcpy(p.get(), t.c_str(), t.size() + 1);
    }
};

struct Real {
    Kind kind;
    bool positional;
    std::vector<Text> texts;
    std::unique_ptr<ke::args::IOption> o;

    const char* text(const std::string& t) {
        texts.emplace_back(t);
        return texts.back().p.get();
    }

    template <typename T, typename... P>
    T* make(P&&... p) {
        T* t = new T(std::forward<P>(p)...);
        o.reset(t);
        return t;
    }

    // |parser| null: a static option.
    Real(ke::args::Parser* parser, const Spec& s)
     : kind(s.kind),
       positional(s.positional())
    {
        using namespace ke::args;
        using ke::Maybe;
        using ke::Nothing;
        using ke::Some;
        texts.reserve(4);
        const char* help = text(s.help);
        if (positional) {
            const char* n = text(s.name);
            switch (kind) {
                case kString:
                    parser ? make<StringOption>(*parser, n, help) : make<StringOption>(n, help);
                    break;
                case kInt:
                    parser ? make<IntOption>(*parser, n, help) : make<IntOption>(n, help);
                    break;
                default:
                    parser ? make<Option<bool>>(*parser, n, help) : make<Option<bool>>(n, help);
            }
            return;
        }
        const char* sf = s.shortf.empty() ? nullptr : text((s.dashes ? "-" : "") + s.shortf);
        const char* lf = s.longf.empty() ? nullptr : text((s.dashes ? "--" : "") + s.longf);
        Maybe<bool> bd;
        Maybe<int> id;
        Maybe<std::string> sd;
        if (s.has_default) {
            bd = Some(bool(s.bdef));
            id = Some(int(s.idef));
            sd = Some(std::string(s.sdef));
        }
        switch (kind) {
            case kString:
                parser ? make<StringOption>(*parser, sf, lf, sd, help) : make<StringOption>(sf, lf, sd, help);
                break;
            case kInt:
                parser ? make<IntOption>(*parser, sf, lf, id, help) : make<IntOption>(sf, lf, id, help);
                break;
            case kBool:
                parser ? make<Option<bool>>(*parser, sf, lf, bd, help) : make<Option<bool>>(sf, lf, bd, help);
                break;
            case kEnable:
                parser ? make<EnableOption>(*parser, sf, lf, s.bdef, help) : make<EnableOption>(sf, lf, s.bdef, help);
                break;
            case kToggle:
                parser ? make<ToggleOption>(*parser, sf, lf, bd, help) : make<ToggleOption>(sf, lf, bd, help);
                break;
            case kStop:
                parser ? make<StopOption>(*parser, sf, lf, bd, help) : make<StopOption>(sf, lf, bd, help);
                break;
            case kRepeatString:
                parser ? make<RepeatOption<std::string>>(*parser, sf, lf, help)
                       : make<RepeatOption<std::string>>(sf, lf, help);
                break;
            default:
                parser ? make<RepeatOption<int>>(*parser, sf, lf, help) : make<RepeatOption<int>>(sf, lf, help);
        }
    }

    // The value as text, for comparisons.
    std::string show() const {
        using namespace ke::args;
        auto list = [](const std::string& t) { return std::to_string(t.size()) + "'" + t + "'"; };
        switch (kind) {
            case kString: {
                auto* p = static_cast<StringOption*>(o.get());
                if (!p->hasValue())
                    return p->maybeValue().isValid() ? "inconsistent" : "none";
                if (!p->maybeValue().isValid() || p->maybeValue().get() != p->value())
                    return "inconsistent";
                return list(p->value());
            }
            case kInt: {
                auto* p = static_cast<IntOption*>(o.get());
                if (!p->hasValue())
                    return p->maybeValue().isValid() ? "inconsistent" : "none";
                if (!p->maybeValue().isValid() || p->maybeValue().get() != p->value())
                    return "inconsistent";
                return std::to_string(p->value());
            }
            case kBool: {
                auto* p = static_cast<Option<bool>*>(o.get());
                if (!p->hasValue())
                    return p->maybeValue().isValid() ? "inconsistent" : "none";
                if (!p->maybeValue().isValid() || p->maybeValue().get() != p->value())
                    return "inconsistent";
                return p->value() ? "true" : "false";
            }
            case kEnable:
                return static_cast<EnableOption*>(o.get())->value() ? "true" : "false";
            case kToggle:
            case kStop:
                return static_cast<ToggleOption*>(o.get())->value() ? "true" : "false";
            case kRepeatString: {
                std::string r = "[";
                for (auto& t : static_cast<RepeatOption<std::string>*>(o.get())->values())
                    r += list(t);
                return r + "]";
            }
            default: {
                std::string r = "[";
                for (auto& t : static_cast<RepeatOption<int>*>(o.get())->values())
                    r += std::to_string(t) + ",";
                return r + "]";
            }
        }
    }
};

// The value the grammar gives, in the same form.
static inline std::string
Expected(const Spec& s, const Value& v) {
    auto list = [](const std::string& t) { return std::to_string(t.size()) + "'" + t + "'"; };
    switch (s.kind) {
        case kString:
            return v.given ? list(v.s) : s.has_default ? list(s.sdef) : "none";
        case kInt:
            return v.given ? std::to_string(v.i) : s.has_default ? std::to_string(s.idef) : "none";
        case kBool:
            return v.given ? (v.b ? "true" : "false") : s.has_default ? (s.bdef ? "true" : "false") : "none";
        case kEnable:
            return (v.given ? v.b : s.bdef) ? "true" : "false";
        case kToggle:
        case kStop:
            return (v.given ? v.b : (s.has_default && s.bdef)) ? "true" : "false";
        case kRepeatString: {
            std::string r = "[";
            for (auto& t : v.ss)
                r += list(t);
            return r + "]";
        }
        default: {
            std::string r = "[";
            for (auto& t : v.is)
                r += std::to_string(t) + ",";
            return r + "]";
        }
    }
}

// A parser with the options of a set (its static options excepted).
struct Machine {
    ke::args::Parser parser;
    std::vector<std::unique_ptr<Real>> local;
    const std::vector<std::unique_ptr<Real>>* statics;
    size_t nstatic;

    static const char* help_text() {
        return "about this program";
    }

    const Real& at(size_t i) const {
        return i < nstatic ? *(*statics)[i] : *local[i - nstatic];
    }

    static std::unique_ptr<Machine> Make(const Set& set, const std::vector<std::unique_ptr<Real>>* st) {
        std::unique_ptr<Machine> m(set.set.help ? new Machine(help_text(), st) : new Machine(st));
        m->nstatic = set.nstatic;
        if (set.set.inline_values)
            m->parser.enable_inline_values();
        if (set.set.slashes)
            m->parser.allow_slashes();
        if (set.set.extra)
            m->parser.collect_extra_args();
        if (set.set.passthrough)
            m->parser.allow_passthrough_args();
        for (size_t i = set.nstatic; i < set.specs.size(); i++)
            m->local.emplace_back(new Real(&m->parser, set.specs[i]));
        return m;
    }

    // |way| picks the entry point; a list longer than the variadic call takes goes another way.
    bool parse(const std::vector<std::string>& args, size_t way) {
        std::vector<Text> texts;
        texts.reserve(args.size());
        std::vector<const char*> ptrs;
        // Or the arguments lie where those of the parse before lay.
        static char places[16][64];
        bool same_places = (way & 4) && args.size() <= 16;
        for (auto& a : args)
            same_places = same_places && a.size() < 64;
        for (auto& a : args) {
            if (same_places) {
                char* place = places[ptrs.size()];
                memcpy(place, a.c_str(), a.size() + 1);
                ptrs.push_back(place);
                continue;
            }
            texts.emplace_back(a);
            ptrs.push_back(texts.back().p.get());
        }
        switch (way & 3) {
            case 0:
                return parser.parse(ptrs);
            case 1:
                return parser.parse(args);
            case 2: {
                Text prog("prog");
                std::unique_ptr<char*[]> argv(new char*[args.size() + 1]);
                argv[0] = prog.p.get();
                for (size_t i = 0; i < args.size(); i++)
                    argv[i + 1] = const_cast<char*>(ptrs[i]);
                return parser.parse(int(args.size() + 1), argv.get());
            }
            default: {
                const char* n = nullptr;
                auto& p = ptrs;
                switch (args.size()) {
                    case 0:
                        return parser.parsev(n);
                    case 1:
                        return parser.parsev(p[0], n);
                    case 2:
                        return parser.parsev(p[0], p[1], n);
                    case 3:
                        return parser.parsev(p[0], p[1], p[2], n);
                    case 4:
                        return parser.parsev(p[0], p[1], p[2], p[3], n);
                    case 5:
                        return parser.parsev(p[0], p[1], p[2], p[3], p[4], n);
                    case 6:
                        return parser.parsev(p[0], p[1], p[2], p[3], p[4], p[5], n);
                    case 7:
                        return parser.parsev(p[0], p[1], p[2], p[3], p[4], p[5], p[6], n);
                    case 8:
                        return parser.parsev(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], n);
                    default:
                        return parser.parse(ptrs);
                }
            }
        }
    }

    // The usage text for a command line.
    std::string usage(const std::vector<std::string>& args, const char* prog = "prog") {
        std::vector<Text> texts;
        texts.reserve(args.size() + 1);
        texts.emplace_back(prog);
        for (auto& a : args)
            texts.emplace_back(a);
        std::unique_ptr<char*[]> argv(new char*[texts.size()]);
        for (size_t i = 0; i < texts.size(); i++)
            argv[i] = texts[i].p.get();
        return Capture([&](FILE* fp) { parser.usage(fp, int(texts.size()), argv.get()); });
    }

    template <typename F>
    static std::string Capture(F&& f) {
        char* buf = nullptr;
        size_t len = 0;
        FILE* fp = open_memstream(&buf, &len);
        f(fp);
        fclose(fp);
        std::string r(buf, len);
        free(buf);
        return r;
    }

  private:
    explicit Machine(const std::vector<std::unique_ptr<Real>>* st)
     : statics(st)
    {}
    Machine(const char* help, const std::vector<std::unique_ptr<Real>>* st)
     : parser(help),
       statics(st)
    {}
};

static inline std::string
Show(const Set& set) {
    std::string r = "{";
    if (set.set.help)
        r += "help ";
    if (set.set.inline_values)
        r += "inline ";
    if (set.set.slashes)
        r += "slashes ";
    if (set.set.extra)
        r += "extra ";
    if (set.set.passthrough)
        r += "passthrough ";
    for (size_t i = 0; i < set.specs.size(); i++) {
        const Spec& o = set.specs[i];
        r += std::string(i < set.nstatic ? "static " : "") + kKindNames[o.kind] + " ";
        if (o.positional()) {
            r += o.name + "; ";
            continue;
        }
        if (!o.shortf.empty())
            r += "-" + o.shortf + " ";
        if (!o.longf.empty())
            r += "--" + o.longf + " ";
        if (o.kind == kEnable || (o.has_default && (o.kind == kBool || o.kind == kToggle || o.kind == kStop)))
            r += o.bdef ? "default true" : "default false";
        else if (o.has_default && o.kind == kInt)
            r += "default " + std::to_string(o.idef);
        else if (o.has_default && o.kind == kString)
            r += "default '" + o.sdef + "'";
        r += "; ";
    }
    return r + "}";
}
static inline std::string
Show(const std::vector<std::string>& args) {
    std::string r = "[";
    for (auto& a : args)
        r += vp::Quote(a.data(), a.size()) + std::string(" ");
    return r + "]";
}

} // namespace argx
