// C39: the work of an operation grows no faster than its kind needs.
// Work is the number of basic blocks executed inside the calls (the compiler counts them), plus the bytes that the C
// string functions go over; no clock is read. Non-trivial: the larger run did at least 2000 steps.
#include "../engine/vp.h"

#include <assert.h>
#include <stdarg.h>

#include <algorithm>
#include <deque>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include <amtl/am-deque.h>
#include <amtl/am-fixedarray.h>
#include <amtl/am-function.h>
#include <amtl/am-hashmap.h>
#include <amtl/am-hashset.h>
#include <amtl/am-inlinelist.h>
#include <amtl/am-priority-queue.h>
#include <amtl/am-refcounting.h>
#include <amtl/am-string.h>
#include <amtl/am-vector.h>
#include <amtl/experimental/am-argparser.h>

#if defined(__clang__)
# define NOCOV __attribute__((no_sanitize("coverage")))
#else
# define NOCOV __attribute__((no_sanitize_coverage))
#endif

static bool counting;
static uint64_t work;
extern "C" {
NOCOV void
__sanitizer_cov_trace_pc() {
    if (counting)
        work++;
}
#define WRAP(ret, name, params, args, cost)      \
    ret __real_##name params;                    \
    NOCOV ret __wrap_##name params {             \
        if (counting)                            \
            work += 1 + (cost) / 8;              \
        return __real_##name args;               \
    }
size_t __real_strlen(const char*);
WRAP(void*, memcpy, (void* a, const void* b, size_t n), (a, b, n), n)
WRAP(void*, memmove, (void* a, const void* b, size_t n), (a, b, n), n)
WRAP(void*, memset, (void* a, int b, size_t n), (a, b, n), n)
WRAP(int, memcmp, (const void* a, const void* b, size_t n), (a, b, n), n)
char* __real_strstr(const char*, const char*);
NOCOV char*
__wrap_strstr(const char* a, const char* b) {
    char* r = __real_strstr(a, b);
    if (counting)
        work += 1 + (r ? size_t(r - a) : __real_strlen(a)) / 8;
    return r;
}
NOCOV size_t
__wrap_strlen(const char* s) {
    size_t n = __real_strlen(s);
    if (counting)
        work += 1 + n / 8;
    return n;
}
int __real_vsnprintf(char* b, size_t n, const char* f, va_list ap);
NOCOV int
__wrap_vsnprintf(char* b, size_t n, const char* f, va_list ap) {
    int r = __real_vsnprintf(b, n, f, ap);
    if (counting && r > 0)
        work += 1 + size_t(r) / 8;
    return r;
}
}

// Runs |f|, and gives the steps that it took.
template <typename F>
static uint64_t
Work(F&& f) {
    work = 0;
    counting = true;
    f();
    counting = false;
    return work;
}
// A stream of numbers that does not depend on how often the generator was asked.
struct Rand {
    uint64_t x;
    uint64_t operator ()(uint64_t n) {
        x = x * 6364136223846793005ULL + 1442695040888963407ULL;
        return (x >> 33) % n;
    }
};


// kLog: n log n. kHashed: n, by the luck of a hash function, so that more is taken and more allowed.
enum Kind { kConstant, kLinear, kLog, kHashed };
template <typename F>
static void
Grows(vp::Src& s, const char* what, Kind kind, size_t n, F&& scene) {
    const size_t kTimes = kHashed == kind ? 64 : 16;
    const uint64_t kSlack = kHashed == kind ? 10 : 3;
    uint64_t small = scene(n), large = scene(n * kTimes);
    uint64_t allowed = kConstant == kind ? small * kSlack + 300 : small * kTimes * kSlack + 3000;
    if (kind == kLog) {
        unsigned a = 1, b = 1;
        while (size_t(1) << a < n)
            a++;
        while (size_t(1) << b < n * kTimes)
            b++;
        allowed = allowed * b / a;
    }
    VP_LOG("%s: %zu take %llu steps, %zu take %llu (limit %llu)\n", what, n, (unsigned long long)small, n * kTimes,
           (unsigned long long)large, (unsigned long long)allowed);
    if (const char* path = getenv("VP_RATIO")) {
        FILE* f = fopen(path, "a");
        fprintf(f, "%s %.2f\n", what, double(large) * double(kSlack) / double(allowed));
        fclose(f);
    }
    VP_CHECK(large <= allowed, "%s: %zu take %llu steps, %zu take %llu, more than %llu", what, n, (unsigned long long)small,
             n * kTimes, (unsigned long long)large, (unsigned long long)allowed);
    if (large >= 2000)
        s.nontrivial();
}

// ---- Tables ----
struct IntPolicy {
    static uint32_t hash(int k) {
        return ke::HashInt32(k);
    }
    static bool matches(int a, int b) {
        return a == b;
    }
};
struct LongPolicy {
    static uint32_t hash(int64_t k) {
        return ke::HashInt64(k);
    }
    static bool matches(int64_t a, int64_t b) {
        return a == b;
    }
};
struct TextPolicy {
    static uint32_t hash(const std::string& k) {
        return ke::HashCharSequence(k.c_str(), k.size());
    }
    static bool matches(const std::string& a, const std::string& b) {
        return a == b;
    }
};
struct FastPolicy {
    static uint32_t hash(const std::string& k) {
        return ke::FastHashCharSequence(k.c_str(), k.size());
    }
    static bool matches(const std::string& a, const std::string& b) {
        return a == b;
    }
};
struct PtrPolicy {
    static uint32_t hash(const void* k) {
        return ke::HashPointer(k);
    }
    static bool matches(const void* a, const void* b) {
        return a == b;
    }
};
typedef std::pair<int, int> Both;
struct BothPolicy {
    static uint32_t hash(const Both& k) {
        return ke::HashCombine(ke::HashInt32(k.first), ke::HashInt32(k.second));
    }
    static bool matches(const Both& a, const Both& b) {
        return a == b;
    }
};
template <typename K>
static K
Key(uint64_t i, unsigned kind, uint64_t seed);
template <>
int
Key<int>(uint64_t i, unsigned kind, uint64_t seed) {
    switch (kind % 5) {
        case 4:
            return int(uint32_t(i << 16) | uint32_t(i >> 16));
        case 0:
            return int(i);
        case 1:
            return int(i * 64);
        case 2:
            return -int(i);
        default:
            return int(uint32_t((i + seed) * 2654435761u));
    }
}
template <>
int64_t
Key<int64_t>(uint64_t i, unsigned kind, uint64_t seed) {
    return kind % 5 == 3 ? int64_t(i << 20) : kind % 5 == 4 ? int64_t(i << 44) : Key<int>(i, kind, seed);
}
template <>
const void*
Key<const void*>(uint64_t i, unsigned kind, uint64_t seed) {
    // As an allocator would place objects: 16, 64, 112, 4096 or 2 MB apart. Nothing is there.
    static const unsigned kSteps[] = {16, 64, 112, 4096, 2 << 20};
    return reinterpret_cast<const void*>(uintptr_t(0x7f0000000000 + (seed << 12) + i * kSteps[kind % 5]));
}
template <>
Both
Key<Both>(uint64_t i, unsigned kind, uint64_t seed) {
    switch (kind % 5) {
        case 0:
            return Both(int(i / 32), int(i % 32));
        case 1:
            return Both(int(i % 7), int(i / 7));
        case 2:
            return Both(int(i), int(i));
        case 4:
            return Both(int(i % 128), int(i / 128));
        default:
            return Both(int(seed), int(i));
    }
}
template <>
std::string
Key<std::string>(uint64_t i, unsigned kind, uint64_t seed) {
    char b[64];
    snprintf(b, sizeof(b), kind % 2 ? "%llu" : "symbol_%llu_name", (unsigned long long)(i + seed % 1000));
    return b;
}
template <typename K, typename P>
static void
TableOf(vp::Src& s) {
    unsigned kind = unsigned(s.draw(5)), scene = unsigned(s.draw(10));
    uint64_t seed = s.draw(1 << 20);
    // The tables have the same load in both runs.
    size_t n = 60 + s.draw(120);
    size_t window = 1 + s.draw(60);
    typedef ke::HashMap<K, int, P> C;
    auto add = [](C& c, const K& k) {
        auto p = c.findForAdd(k);
        if (!p.found())
            VP_CHECK(c.add(p, k, 1), "add failed");
    };
    auto keys = [&](size_t m, size_t from) {
        std::vector<K> v;
        for (size_t i = 0; i < m; i++)
            v.push_back(Key<K>(from + i, kind, seed));
        return v;
    };
    static const char* const kNames[] = {"adding", "finding", "missing", "iterating", "removing", "churn", "clearing and filling", "moving", "shrinking", "staying level"};
    Grows(s, kNames[scene], scene == 7 ? kConstant : kHashed, n, [&](size_t m) {
        C c;
        VP_CHECK(c.init(), "init failed");
        std::vector<K> v = keys(m, 0), w = keys(m, 1000000);
        if (scene == 0)
            return Work([&] {
                for (auto& k : v)
                    add(c, k);
            });
        if (scene == 5)
            return Work([&] {
                for (size_t i = 0; i < m; i++) {
                    add(c, v[i]);
                    if (i >= window)
                        c.removeIfExists(v[i - window]);
                }
            });
        for (auto& k : v)
            add(c, k);
        switch (scene) {
            case 1:
                return Work([&] {
                    for (auto& k : v)
                        VP_CHECK(c.find(k).found(), "a key is lost");
                });
            case 2:
                return Work([&] {
                    for (auto& k : w)
                        VP_CHECK(!c.find(k).found(), "a key is there");
                });
            case 3:
                return Work([&] {
                    size_t q = 0;
                    for (auto i = c.iter(); !i.empty(); i.next())
                        q++;
                    VP_CHECK(q == m, "%zu of %zu entries", q, m);
                });
            case 4:
                return Work([&] {
                    for (auto& k : v)
                        c.removeIfExists(k);
                    for (auto& k : w)
                        c.removeIfExists(k);
                });
            case 6:
                return Work([&] {
                    for (int i = 0; i < 3; i++) {
                        c.clear();
                        for (auto& k : v)
                            add(c, k);
                    }
                });
            case 7:
                return Work([&] {
                    C d(std::move(c));
                    VP_CHECK(d.elements() == m && c.elements() == 0, "a moved table");
                    new (&c) C(std::move(d));
                });
            case 9:
                return Work([&] {
                    for (size_t i = 0; i < m; i++) {
                        c.removeIfExists(v[i]);
                        add(c, w[i]);
                        c.removeIfExists(w[i]);
                        add(c, w[i]);
                    }
                });
            default:
                for (auto& k : v)
                    c.removeIfExists(k);
                return Work([&] {
                    for (auto& k : w)
                        add(c, k);
                    for (auto& k : w)
                        c.removeIfExists(k);
                });
        }
    });
}
VP_TARGET(Tables, 1600, 24000, 0) {
    switch (s.draw(6)) {
        case 4:
            return TableOf<const void*, PtrPolicy>(s);
        case 5:
            return TableOf<Both, BothPolicy>(s);
        case 0:
            return TableOf<int, IntPolicy>(s);
        case 1:
            return TableOf<int64_t, LongPolicy>(s);
        case 2:
            return TableOf<std::string, TextPolicy>(s);
        default:
            return TableOf<std::string, FastPolicy>(s);
    }
}

// ---- Queues, lists, arrays, vectors ----
struct Less {
    bool operator ()(int a, int b) const {
        return a < b;
    }
};
VP_TARGET(Queues, 2500, 40000, 0) {
    unsigned order = unsigned(s.draw(5)), scene = unsigned(s.draw(4));
    uint64_t seed = s.draw(1 << 20);
    size_t n = 100 + s.draw(200);
    size_t window = 1 + s.draw(100);
    static const char* const kNames[] = {"adding", "adding and serving", "serving in a window", "moving"};
    Grows(s, kNames[scene], scene == 3 ? kConstant : kLog, n, [&](size_t m) {
        ke::PriorityQueue<int, Less> q;
        Rand r{seed};
        std::vector<int> v;
        for (size_t i = 0; i < m; i++)
            v.push_back(order == 0 ? int(i) : order == 1 ? -int(i) : order == 2 ? 7 : order == 3 ? int(r(10)) : int(r(1 << 30)));
        if (scene == 3) {
            for (int i : v)
                q.add(i);
            return Work([&] {
                ke::PriorityQueue<int, Less> t(std::move(q));
                VP_CHECK(!t.empty(), "a moved queue");
                new (&q) ke::PriorityQueue<int, Less>(std::move(t));
            });
        }
        return Work([&] {
            for (size_t i = 0; i < m; i++) {
                if (i % 2)
                    q.add(v[i]);
                else
                    q.emplace(v[i]);
                if (scene == 2 && i >= window)
                    q.pop();
            }
            if (scene == 1) {
                while (!q.empty())
                    q.pop();
            }
        });
    });
}
struct Link : public ke::InlineListNode<Link> {
    int v;
};
VP_TARGET(Lists, 1500, 20000, 0) {
    unsigned scene = unsigned(s.draw(4));
    uint64_t seed = s.draw(1 << 20);
    size_t n = 50 + s.draw(200);
    static const char* const kNames[] = {"appending", "removing", "iterating", "asking"};
    Grows(s, kNames[scene], kLinear, n, [&](size_t m) {
        ke::InlineList<Link> list;
        std::vector<Link> links(m);
        uint64_t w = Work([&] {
            for (auto& l : links) {
                list.append(&l);
                if (scene == 3)
                    VP_CHECK(!list.empty() && list.length() > 0, "a list");
            }
        });
        std::vector<Link*> order;
        for (auto& l : links)
            order.push_back(&l);
        Rand r{seed};
        for (size_t i = m; i > 1; i--)
            std::swap(order[i - 1], order[r(i)]);
        uint64_t i = Work([&] {
            size_t q = 0;
            for (auto it = list.begin(); it != list.end(); it++)
                q++;
            VP_CHECK(q == m, "%zu of %zu links", q, m);
        });
        uint64_t x = Work([&] {
            for (Link* l : order)
                list.remove(l);
        });
        return scene == 1 ? x : scene == 2 ? i : w;
    });
}
VP_TARGET(Arrays, 1500, 20000, 0) {
    unsigned scene = unsigned(s.draw(5));
    size_t n = 50 + s.draw(200);
    static const char* const kNames[] = {"making", "copying", "assigning", "comparing", "moving"};
    Grows(s, kNames[scene], scene == 4 ? kConstant : kLinear, n, [&](size_t m) {
        typedef ke::FixedArray<std::string> C;
        C a(m), b(m), d(3);
        switch (scene) {
            case 0:
                return Work([&] {
                    C c(m);
                    for (size_t i = 0; i < m; i++)
                        c[i] = "x";
                });
            case 1:
                return Work([&] { C c(a); });
            case 2:
                return Work([&] {
                    a = b;
                    d = b;
                });
            case 3:
                return Work([&] { VP_CHECK(a == b && !(a != b), "equal arrays"); });
            default:
                return Work([&] {
                    C c(std::move(a));
                    C e;
                    e = std::move(c);
                    a = std::move(e);
                    VP_CHECK(a.size() == m, "a moved array");
                });
        }
    });
}
VP_TARGET(Vectors, 2500, 40000, 0) {
    unsigned scene = unsigned(s.draw(7)), pattern = unsigned(s.draw(4));
    uint64_t seed = s.draw(1 << 20);
    size_t n = 100 + s.draw(200), chunk = 1 + s.draw(20);
    static const char* const kNames[] = {"erasing", "extending", "popping", "popping a deque", "inserting at the end", "removing at the end", "erasing strings"};
    Grows(s, kNames[scene], kLinear, n, [&](size_t m) {
        std::vector<int> v;
        std::deque<int> d;
        std::vector<std::string> t;
        Rand r{seed};
        for (size_t i = 0; i < m; i++) {
            v.push_back(pattern == 0 ? int(i % 2) : pattern == 1 ? 0 : pattern == 2 ? int(i < m / 2) : int(r(2)));
            d.push_back(int(i));
            t.push_back(v.back() ? "one" : "zero");
        }
        switch (scene) {
            case 0:
                return Work([&] { ke::EraseIf(&v, [](int i) { return i == 0; }); });
            case 1:
                return Work([&] {
                    std::vector<int> to, part;
                    for (size_t i = 0; i < m; i++) {
                        part.push_back(v[i]);
                        if (part.size() == chunk)
                            ke::MoveExtend(&to, &part);
                    }
                    ke::MoveExtend(&to, &part);
                    VP_CHECK(to.size() == m, "%zu of %zu elements", to.size(), m);
                });
            case 2:
                return Work([&] {
                    while (!v.empty())
                        ke::PopBack(&v);
                });
            case 3:
                return Work([&] {
                    while (!d.empty()) {
                        ke::PopFront(&d);
                        if (!d.empty())
                            ke::PopBack(&d);
                    }
                });
            case 4:
                return Work([&] {
                    std::vector<std::string> to;
                    for (size_t i = 0; i < m; i++) {
                        ke::InsertAt(&to, to.size(), t[i]);
                        ke::EmplaceAt(&to, to.size(), "x");
                    }
                });
            case 5:
                return Work([&] {
                    while (!t.empty())
                        ke::RemoveAt(&t, t.size() - 1);
                });
            default:
                return Work([&] { ke::EraseIf(&t, [](const std::string& i) { return i == "zero"; }); });
        }
    });
}

// ---- Text and arguments ----
VP_TARGET(Texts, 2500, 40000, 0) {
    unsigned scene = unsigned(s.draw(6));
    size_t n = 100 + s.draw(200);
    size_t piece = s.draw(12), sep = 1 + s.draw(4);
    std::string sepText(sep, '-');
    static const char* const kNames[] = {"splitting", "joining", "formatting", "formatting at length", "copying", "hashing"};
    Grows(s, kNames[scene], kLinear, n, [&](size_t m) {
        std::string text;
        std::vector<std::string> pieces;
        for (size_t i = 0; i < m; i++) {
            pieces.push_back(std::string(piece, 'a'));
            text += (i ? sepText : "") + pieces.back() + "b";
        }
        switch (scene) {
            case 0:
                // Of pieces near the beginning of what is left, as a search goes no further.
                return Work([&] {
                    auto v = ke::Split(text, sepText.c_str());
                    VP_CHECK(v.size() == m, "%zu of %zu pieces", v.size(), m);
                });
            case 1:
                return Work([&] { ke::Join(pieces, sepText.c_str()); });
            case 2:
                return Work([&] {
                    for (size_t i = 0; i < m; i++)
                        ke::StringPrintf("%zu", i);
                });
            case 3:
                return Work([&] {
                    ke::StringPrintf("%s", text.c_str());
                    ke::Sprintf("%s", text.c_str());
                });
            case 4:
                return Work([&] {
                    std::vector<char> b(text.size() + 1);
                    ke::SafeStrcpy(b.data(), b.size(), text.c_str());
                    ke::SafeStrcpyN(b.data(), b.size(), text.c_str(), text.size());
                    ke::SafeSprintf(b.data(), b.size(), "%s", text.c_str());
                    b[0] = '\0';
                    ke::SafeStrcat(b.data(), b.size(), text.c_str());
                });
            default:
                return Work([&] {
                    ke::HashCharSequence(text.c_str(), text.size());
                    ke::FastHashCharSequence(text.c_str(), text.size());
                });
        }
    });
}
VP_TARGET(Arguments, 1500, 20000, 0) {
    unsigned scene = unsigned(s.draw(4));
    size_t n = 30 + s.draw(100);
    static const char* const kNames[] = {"repeated options", "extra arguments", "passed-through arguments", "inline values"};
    Grows(s, kNames[scene], kLinear, n, [&](size_t m) {
        ke::args::Parser p;
        p.collect_extra_args();
        p.allow_passthrough_args();
        p.enable_inline_values();
        ke::args::RepeatOption<std::string> r(p, "r", "repeat", "help");
        ke::args::ToggleOption t(p, "t", "toggle", ke::Some(false), "help");
        std::vector<std::string> args;
        if (scene == 2)
            args.push_back("--");
        for (size_t i = 0; i < m; i++) {
            if (scene == 0)
                args.push_back("--repeat");
            args.push_back(scene == 3 ? "-rvalue" : "value");
        }
        return Work([&] { VP_CHECK(p.parse(args), "the arguments were refused"); });
    });
}
