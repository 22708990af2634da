// C36: threads that use different objects, or only read the same one, do not disturb each other.
// Non-trivial: two threads were inside calls of the library at the same time, at least once by preemption.
#include "../engine/vp.h"

#include "common/conc.h"

#include <assert.h>
#include <dlfcn.h>
#include <errno.h>
#include <stdarg.h>
#include <strings.h>
#include <sys/wait.h>

#include <algorithm>
#include <chrono>
#include <deque>
#include <functional>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include <amtl/am-arithmetic.h>
#include <amtl/am-bits.h>
#include <amtl/am-deque.h>
#include <amtl/am-enum.h>
#include <amtl/am-fixedarray.h>
#include <amtl/am-flags.h>
#include <amtl/am-float.h>
#include <amtl/am-function.h>
#include <amtl/am-hashmap.h>
#include <amtl/am-hashset.h>
#include <amtl/am-inlinelist.h>
#include <amtl/am-maybe.h>
#include <amtl/am-mutex.h>
#include <amtl/am-priority-queue.h>
#include <amtl/am-raii.h>
#include <amtl/am-refcounting-threadsafe.h>
#include <amtl/am-refcounting.h>
#include <amtl/am-string.h>
#include <amtl/am-threadlocal.h>
#include <amtl/am-time.h>
#include <amtl/am-utility.h>
#include <amtl/am-vector.h>
#include <amtl/experimental/am-argparser.h>
#include <amtl/os/am-fsutil.h>
#include <amtl/os/am-path.h>
#include <amtl/os/am-shared-library.h>
#include <amtl/os/am-system-errors.h>

// --- the C library's work on memory, seen by the race detector ----------------------------------
// The C library is not instrumented.  These functions are wrapped at link time, so that what they
// read and write counts like any other access and is a place to preempt.

extern "C" {
void __tsan_read_range(void*, size_t);
void __tsan_write_range(void*, size_t);
int __real_vsnprintf(char*, size_t, const char*, va_list);
int __real_snprintf(char*, size_t, const char*, ...);
size_t __real_strlen(const char*);
int __real_strcmp(const char*, const char*);
int __real_strncmp(const char*, const char*, size_t);
int __real_strcasecmp(const char*, const char*);
int __real_memcmp(const void*, const void*, size_t);
char* __real_strcpy(char*, const char*);
char* __real_strncpy(char*, const char*, size_t);
char* __real_strerror_r(int, char*, size_t);
size_t __real_strftime(char*, size_t, const char*, const struct tm*);
}
static __thread int t_inside; // in a call of the library under test
static void
Seen(const void* p, size_t n, bool write) {
    if (!t_inside || !n)
        return;
    if (write)
        __tsan_write_range(const_cast<void*>(p), n);
    else
        __tsan_read_range(const_cast<void*>(p), n);
}
extern "C" {
int
__wrap_vsnprintf(char* b, size_t n, const char* fmt, va_list ap) {
    int r = __real_vsnprintf(b, n, fmt, ap);
    if (r >= 0 && n)
        Seen(b, std::min(n, size_t(r) + 1), true);
    return r;
}
int
__wrap_snprintf(char* b, size_t n, const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    int r = __wrap_vsnprintf(b, n, fmt, ap);
    va_end(ap);
    return r;
}
size_t
__wrap_strlen(const char* p) {
    size_t n = __real_strlen(p);
    Seen(p, n + 1, false);
    return n;
}
int
__wrap_strcmp(const char* a, const char* b) {
    Seen(a, 1, false);
    Seen(b, 1, false);
    return __real_strcmp(a, b);
}
int
__wrap_strncmp(const char* a, const char* b, size_t n) {
    if (n) {
        Seen(a, 1, false);
        Seen(b, 1, false);
    }
    return __real_strncmp(a, b, n);
}
int
__wrap_strcasecmp(const char* a, const char* b) {
    Seen(a, 1, false);
    Seen(b, 1, false);
    return __real_strcasecmp(a, b);
}
int
__wrap_memcmp(const void* a, const void* b, size_t n) {
    Seen(a, n, false);
    Seen(b, n, false);
    return __real_memcmp(a, b, n);
}
char*
__wrap_strcpy(char* d, const char* s) {
    size_t n = __real_strlen(s) + 1;
    Seen(s, n, false);
    Seen(d, n, true);
    return __real_strcpy(d, s);
}
char*
__wrap_strncpy(char* d, const char* s, size_t n) {
    Seen(d, n, true);
    return __real_strncpy(d, s, n);
}
char*
__wrap_strerror_r(int code, char* b, size_t n) {
    char* r = __real_strerror_r(code, b, n);
    if (r == b && n)
        Seen(b, 1, true);
    return r;
}
size_t
__wrap_strftime(char* b, size_t n, const char* fmt, const struct tm* t) {
    size_t r = __real_strftime(b, n, fmt, t);
    if (r)
        Seen(b, r + 1, true);
    return r;
}
}

// --- what a thread does -------------------------------------------------------------------------

struct Job {
    unsigned op;
    uint64_t a, b;
    size_t n;
    std::string t, u;
    std::vector<std::string> list;
};

struct TextPolicy {
    static uint32_t hash(const std::string& k) {
        return ke::HashCharSequence(k.data(), k.size());
    }
    static bool matches(const std::string& a, const std::string& b) {
        return a == b;
    }
};
struct IntPolicy {
    static uint32_t hash(uint32_t k) {
        return ke::HashInt32(int32_t(k & 7));
    }
    static bool matches(uint32_t a, uint32_t b) {
        return a == b;
    }
};
typedef ke::HashMap<std::string, int, TextPolicy> TextMap;
struct Node : public ke::InlineListNode<Node> {
    int v = 0;
};
struct Counted : public ke::Refcounted<Counted> {
    int v = 0;
};
struct Shareable : public ke::RefcountedThreadsafe<Shareable> {
    int v = 0;
};
struct VirtualCounted : public ke::VirtualRefcounted {
    int v = 0;
};
enum class Colour : uint32_t { None = 0, Red = 1, Green = 2, Blue = 4 };
KE_DEFINE_ENUM_OPERATORS(Colour)

// Made before the threads start and only read by them.
struct Common {
    TextMap map;
    ke::FixedArray<std::string> array;
    ke::Maybe<std::string> maybe;
    ke::Function<std::string(int)> function;
    ke::PriorityQueue<int> queue;
    ke::Flags<Colour> flags;
    ke::ThreadLocal<int> number;
    std::vector<std::string> words;

    Common(const std::vector<std::string>& list, int n)
     : array(list.size()),
       maybe(ke::Some(std::string(size_t(n), 'm'))),
       flags(Colour::Green),
       words(list)
    {
        bool ok = map.init(4);
        assert(ok);
        (void)ok;
        for (size_t i = 0; i < list.size(); i++) {
            auto p = map.findForAdd(list[i]);
            if (!p.found())
                map.add(p, list[i], int(i));
            array[i] = list[i];
            queue.add(int(list[i].size()));
        }
        std::string held(size_t(n), 'f');
        function = [held](int k) { return held + std::to_string(k); };
    }
};

static std::string
Num(uint64_t v) {
    return std::to_string(v) + ";";
}

static std::string
Va(int what, size_t n, const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    std::string r;
    char buf[160];
    switch (what) {
        case 0: {
            size_t k = ke::SafeVsprintf(buf, std::min(n + 1, sizeof(buf)), fmt, ap);
            r = std::string(buf, k);
            break;
        }
        case 1: {
            std::unique_ptr<char[]> p = ke::SprintfArgs(fmt, ap);
            r = p.get();
            break;
        }
        case 2:
            r = ke::StringPrintfVa(fmt, ap);
            break;
        default: {
            size_t k = ke::path::FormatVa(buf, std::min(n + 1, sizeof(buf)), fmt, ap);
            r = std::string(buf, k);
        }
    }
    va_end(ap);
    return r;
}

static const unsigned kOps = 40;

static std::string
Do(const Job& j, const Common& common) {
    std::string r;
    char buf[200];
    switch (j.op) {
        case 0: {
            size_t k = ke::SafeStrcpy(buf, std::min(j.n + 1, sizeof(buf)), j.t.c_str());
            r = std::string(buf, k);
            k = ke::SafeStrcpyN(buf, sizeof(buf), j.u.data(), std::min(j.n, j.u.size()));
            r += std::string(buf, k);
            k = ke::SafeStrcat(buf, sizeof(buf), j.t.c_str());
            return r + buf + Num(k);
        }
        case 1: {
            size_t k = ke::SafeSprintf(buf, std::min(j.n + 1, sizeof(buf)), "%s-%d-%s", j.t.c_str(), int(j.a), j.u.c_str());
            return std::string(buf, k);
        }
        case 2: {
            std::unique_ptr<char[]> p = ke::Sprintf("%s|%llu|%5d", j.t.c_str(), (unsigned long long)j.a, int(j.b & 0xffff));
            return p.get();
        }
        case 3:
            return ke::StringPrintf("%s:%x:%s", j.u.c_str(), unsigned(j.a), j.t.c_str());
        case 4:
        case 5:
        case 6:
        case 7:
            return Va(int(j.op - 4), j.n, "%s/%d\\%s", j.t.c_str(), int(j.b), j.u.c_str());
        case 8: {
            for (const std::string& p : ke::Split(j.t, "b"))
                r += "[" + p + "]";
            for (const std::string& p : ke::Split(j.u.c_str(), "ab"))
                r += "<" + p + ">";
            return r;
        }
        case 9:
            return ke::Join(j.list, j.u.substr(0, 3).c_str());
        case 10:
            return ke::Uppercase(j.t.c_str()) + ke::Lowercase(j.u.c_str());
        case 11:
            return Num(ke::StartsWith(j.t, j.u.c_str())) + Num(ke::StartsWith(j.t.c_str(), j.t.substr(0, 2).c_str())) +
                   Num(ke::EndsWith(j.t, j.u)) + Num(ke::StrCaseCmp(j.t.c_str(), j.u.c_str()) < 0);
        case 12: {
            ke::CharacterStreamHasher h;
            h.add(j.t.data(), j.t.size());
            h.add(j.u.data(), j.u.size());
            return Num(ke::HashCharSequence(j.t.data(), j.t.size())) + Num(ke::FastHashCharSequence(j.u.data(), j.u.size())) +
                   Num(h.result());
        }
        case 13:
            return Num(ke::HashInt32(int32_t(j.a))) + Num(ke::HashInt64(int64_t(j.b))) +
                   Num(ke::HashPointer((const void*)uintptr_t(j.a))) +
                   Num(ke::HashCombine(uint32_t(j.a), uint32_t(j.b)));
        case 14:
            return Num(ke::Log2(size_t(j.a | 1))) + Num(ke::FindLeftmostBit64(j.b | 1)) +
                   Num(ke::FindRightmostBit(size_t(j.a | 4))) + Num(ke::IsPowerOfTwo(size_t(j.b))) +
                   Num(ke::Align(size_t(j.a >> 8), 64)) + Num(ke::IsAligned(uintptr_t(j.b), 16));
        case 15: {
            uint64_t out = 7;
            uint32_t small = 7;
            bool x = ke::TryUint64Multiply(j.a, j.b, &out);
            bool y = ke::TryUint32Add(uint32_t(j.a), uint32_t(j.b), &small);
            return Num(x) + Num(out) + Num(y) + Num(small) + Num(ke::IsUint64AddSafe(j.a, j.b)) +
                   Num(ke::IsUint32MultiplySafe(unsigned(j.a), unsigned(j.b)));
        }
        case 16: {
            double x = double(int64_t(j.a)) / 1000, y = double(int64_t(j.b | 1)) / 100000;
            double m = ke::FloatModulo(x, y);
            return std::to_string(m) + Num(ke::IsNaN(x / 0.0 * 0.0)) + Num(ke::IsInfinite(float(m) / 0.0f));
        }
        case 17: {
            struct tm t = {};
            t.tm_year = int(j.a % 300);
            t.tm_mon = int(j.b % 12);
            t.tm_mday = int(1 + j.a % 28);
            t.tm_hour = int(j.b % 24);
            return ke::FormatTime(t, "%Y/%m/%d %H") + ke::FormatTime(t, std::string("%B %d"));
        }
        case 18: {
            timespec ts = {time_t(j.a >> 34), long(j.b % 1000000000)};
            auto d = ke::TimespecToDuration(ts);
            auto p = ke::EpochValueToTimePoint<std::chrono::system_clock::time_point>(int64_t(j.a >> 8));
            return Num(uint64_t(d.count())) + Num(uint64_t(p.time_since_epoch().count()));
        }
        case 19: {
            size_t k = ke::path::Format(buf, std::min(j.n + 1, sizeof(buf)), "%s\\%s", j.t.c_str(), j.u.c_str());
            return std::string(buf, k);
        }
        case 20: {
            // Known codes and unknown ones, in buffers that are too short, too.
            ke::FormatSystemErrorCode(int(j.a % 200), buf, 4 + j.n);
            r = buf;
            errno = int(j.b % 140);
            ke::FormatSystemError(buf, sizeof(buf));
            return r + buf;
        }
        case 21: {
            static const char* const paths[] = {"/", "/dev/null", "/proc/self/stat", "/no/such/thing", "/usr", "relative"};
            const char* p = paths[j.a % 6];
            return Num(ke::file::PathExists(p)) + Num(ke::file::IsFile(p)) + Num(ke::file::IsDirectory(p));
        }
        case 22: {
            TextMap map;
            if (!map.init(size_t(1) << (j.a % 4)))
                return "init failed";
            for (const std::string& k : j.list) {
                auto p = map.findForAdd(k);
                if (p.found())
                    p->value++;
                else
                    map.add(p, k, 1);
            }
            map.removeIfExists(j.t);
            TextMap other(std::move(map));
            std::vector<std::string> seen;
            for (auto it = other.iter(); !it.empty(); it.next())
                seen.push_back(it->key + Num(uint64_t(it->value)));
            std::sort(seen.begin(), seen.end());
            for (auto& k : seen)
                r += k;
            return r + Num(other.elements());
        }
        case 23: {
            ke::HashSet<uint32_t, IntPolicy> set;
            if (!set.init(4))
                return "init failed";
            for (unsigned i = 0; i < 12; i++)
                set.add(uint32_t((j.a >> i) & 31));
            set.removeIfExists(uint32_t(j.b & 31));
            for (uint32_t i = 0; i < 32; i++)
                r += set.has(i) ? '1' : '0';
            set.clear();
            return r + Num(set.elements());
        }
        case 24: {
            ke::FixedArray<std::string> x(j.list.size());
            for (size_t i = 0; i < j.list.size(); i++)
                x[i] = j.list[i];
            ke::FixedArray<std::string> y(x), z(0);
            z = std::move(x);
            for (auto& e : z)
                r += e;
            return r + Num(y == z) + Num(x.size());
        }
        case 25: {
            ke::PriorityQueue<std::string> q;
            for (const std::string& k : j.list)
                q.add(k);
            while (!q.empty()) {
                r += q.peek().substr(0, 1);
                r += q.pop();
            }
            return r;
        }
        case 26: {
            ke::InlineList<Node> list;
            Node nodes[5];
            for (int i = 0; i < 5; i++) {
                nodes[i].v = i;
                list.append(&nodes[i]);
            }
            list.remove(&nodes[j.a % 5]);
            for (auto it = list.begin(); it != list.end();) {
                r += Num(uint64_t(it->v));
                if (it->v == int(j.b % 5))
                    it = list.erase(it);
                else
                    it++;
            }
            return r + Num(list.length());
        }
        case 27: {
            ke::Maybe<std::string> m(ke::Some(j.t)), k;
            k = m;
            m = ke::Maybe<std::string>();
            k.get() += j.u;
            return k.get() + Num(m.isValid()) + Num(k.isValid());
        }
        case 28: {
            std::string held = j.t;
            ke::Function<std::string(const std::string&)> f([held](const std::string& x) { return held + x; }), g;
            g = f;
            f = nullptr;
            int n = int(j.a & 15);
            ke::Function<int(int)> small([&n](int x) { return n += x; });
            ke::Function<int(int)> moved(std::move(small));
            return g(j.u) + Num(bool(f)) + Num(uint64_t(moved(3)));
        }
        case 29: {
            ke::RefPtr<Counted> a(new Counted), b;
            a->v = int(j.a & 0xff);
            b = a;
            a = new Counted;
            ke::RefPtr<VirtualCounted> v(new VirtualCounted);
            v->v = 3;
            ke::RefPtr<VirtualCounted> w(std::move(v));
            return Num(uint64_t(b->v)) + Num(uint64_t(a->v)) + Num(uint64_t(w->v));
        }
        case 30: {
            ke::AtomicRef<Shareable> ref;
            {
                ke::RefPtr<Shareable> p(new Shareable);
                p->v = int(j.b & 0xff);
                ref = p;
            }
            ke::RefPtr<Shareable> q(ref.get());
            ref = nullptr;
            return Num(uint64_t(q->v)) + Num(bool(ke::RefPtr<Shareable>(ref.get())));
        }
        case 31: {
            int x = 1;
            {
                ke::SaveAndSet<int> save(&x, int(j.a & 15));
                auto guard = ke::MakeScopeGuard([&] { r += "g"; });
                r += Num(uint64_t(x));
                if (j.b & 1)
                    guard.cancel();
            }
            std::string s = j.t;
            r += ke::ReturnAndVoid(s);
            return r + s + Num(uint64_t(x));
        }
        case 32: {
            ke::Mutex m;
            m.lock();
            m.AssertCurrentThreadOwns();
            m.unlock();
            bool got = m.try_lock();
            if (got)
                m.unlock();
            return Num(got);
        }
        case 33: {
            ke::ThreadLocal<int> own;
            int first = own.get();
            own = int(j.a & 0xffff);
            return Num(uint64_t(first)) + Num(uint64_t(own.get()));
        }
        case 34: {
            std::vector<std::string> v(j.list), w(j.list);
            ke::InsertAt(&v, v.size() / 2, j.t);
            ke::MoveExtend(&v, &w);
            ke::EraseIf(&v, [&](const std::string& x) { return x == j.u; });
            if (!v.empty())
                r += ke::PopBack(&v);
            std::deque<std::string> d(v.begin(), v.end());
            if (!d.empty())
                r += ke::PopFront(&d);
            for (auto& e : d)
                r += e;
            return r;
        }
        case 35: {
            ke::Flags<Colour> f(Colour::Red);
            f |= Colour(j.a & 6);
            Colour c = Colour(j.b & 7) | Colour::Blue;
            return Num(f.bits()) + Num(uint32_t(c)) + Num(uint32_t(~c & Colour::Red));
        }
        case 36: {
            using namespace ke::args;
            Parser parser("help of the program");
            EnableOption e(parser, "e", "enable", false, "turn it on");
            StringOption s(parser, "s", "string", ke::Some(std::string("none")), "some text that goes on and on");
            IntOption i(parser, "i", "int", ke::Some(3), "a number");
            RepeatOption<std::string> rep(parser, "r", "repeat", "many");
            parser.collect_extra_args();
            parser.allow_passthrough_args();
            std::string num = std::to_string(int(j.a & 0xffff));
            std::vector<std::string> args = {"-s", j.t, "--repeat=" + j.u, "-r", num, (j.a & 8) ? "-i" : "--int", num};
            if (j.b & 1)
                args.push_back("-e");
            if (j.b & 2)
                args.push_back("extra");
            if (j.b & 4)
                args.push_back("--no-such");
            if (j.b & 8) {
                args.push_back("--");
                args.push_back(j.u);
            }
            bool ok = parser.parse(args);
            r = Num(ok) + Num(e.value()) + s.value() + Num(uint64_t(i.value()));
            for (auto& x : rep.values())
                r += "," + x;
            for (auto& x : parser.extra_args())
                r += "+" + x;
            for (auto& x : parser.passthrough_args())
                r += "*" + x;
            if (j.a & 16) {
                char text[1500];
                memset(text, 0, sizeof(text));
                FILE* fp = fmemopen(text, sizeof(text) - 1, "w");
                char name[] = "prog";
                char* argv[] = {name, nullptr};
                parser.usage(fp, 1, argv);
                fclose(fp);
                r += text;
            }
            return r;
        }
        case 37: {
            char err[120] = "";
            if (j.a & 1) {
                ke::RefPtr<ke::SharedLib> lib(ke::SharedLib::Open("libm.so.6"));
                return lib ? Num(lib->lookup("cos") != nullptr) + Num(lib->lookup("no_such_thing") != nullptr) : "not opened";
            }
            std::string name = "no-such-library-" + j.u.substr(0, j.u.find('\0'));
            ke::RefPtr<ke::SharedLib> lib(ke::SharedLib::Open(name.c_str(), err, sizeof(err)));
            return Num(bool(lib)) + err;
        }
        case 38: {
            // Reading what the others read, too.
            auto p = common.map.find(j.t);
            r = p.found() ? Num(uint64_t(p->value)) : "-";
            for (const std::string& k : common.words)
                r += Num(common.map.find(k).found());
            if (common.array.size())
                r += common.array[j.a % common.array.size()];
            r += Num(common.array.size()) + Num(common.array == common.array);
            r += common.maybe.get();
            return r + common.function(int(j.a & 7));
        }
        default: {
            if (!common.queue.empty())
                r += Num(uint64_t(common.queue.peek()));
            r += Num(bool(common.flags & Colour::Green)) + Num(uint64_t(common.number.get()));
            ke::Function<std::string(int)> copy(common.function);
            ke::FixedArray<std::string> array(common.array);
            ke::Maybe<std::string> maybe(common.maybe);
            r += copy(int(j.b & 7)) + maybe.get() + ke::Join(common.words, ",");
            for (auto& e : array)
                r += e;
            return r + Num(common.map.elements());
        }
    }
}

// --- the runs -----------------------------------------------------------------------------------

static std::string
Text(vp::Src& s, size_t max) {
    std::string r;
    size_t n = s.size(max);
    while (r.size() < n)
        r.push_back("abBz \\/-"[s.draw(8)]);
    return r;
}

static int g_inside; // threads in a call of the library; touched with the scheduler's attention off
static bool g_overlap;

static std::string
Call(const Job& j, const Common& common, uint64_t* switches) {
    {
        sched::Ignore ig;
        g_overlap |= g_inside > 0;
        g_inside++;
        *switches = sched::Switches();
    }
    t_inside++;
    std::string r = Do(j, common);
    t_inside--;
    sched::Ignore ig;
    g_inside--;
    return r;
}

struct Plan {
    std::vector<std::vector<Job>> jobs;
    std::vector<std::string> list;
    int number;
};

static Plan
Draw(vp::Src& s, bool alike) {
    Plan plan;
    size_t n = 2 + s.draw(3);
    std::vector<std::vector<Job>>& jobs = plan.jobs;
    jobs.resize(n);
    unsigned same = unsigned(s.draw(kOps));
    for (size_t i = 0, k = s.draw(6); i < k; i++)
        plan.list.push_back(Text(s, 6));
    plan.number = int(s.draw(20));
    for (size_t i = 0; i < n; i++) {
        size_t k = 1 + s.draw(alike ? 2 : 3);
        for (size_t x = 0; x < k; x++) {
            Job j;
            // Often the same kind of work everywhere, on different data.
            j.op = alike ? same : unsigned(s.draw(kOps));
            j.a = s.uint(64);
            j.b = s.uint(64);
            j.n = s.draw(40);
            j.t = Text(s, 30);
            j.u = Text(s, 12);
            for (size_t y = 0, m = s.draw(6); y < m; y++)
                j.list.push_back(Text(s, 6));
            VP_LOG("thread %zu: operation %u of %zx, %zx, %zu, %s, %s and %zu texts\n", i, j.op, size_t(j.a), size_t(j.b), j.n,
                   vp::Quote(j.t.data(), j.t.size()), vp::Quote(j.u.data(), j.u.size()), j.list.size());
            jobs[i].push_back(std::move(j));
        }
    }
    return plan;
}

static bool
Play(vp::Src& s, const Plan& plan) {
    const std::vector<std::vector<Job>>& jobs = plan.jobs;
    size_t n = jobs.size();
    std::vector<std::vector<std::string>> results(n);
    for (size_t i = 0; i < n; i++)
        results[i].resize(jobs[i].size());
    g_inside = 0;
    g_overlap = false;
    {
        conc::Run run(s, true);
        {
            Common common(plan.list, plan.number);
            auto work = [&](size_t i) {
                for (size_t x = 0; x < jobs[i].size(); x++) {
                    uint64_t from;
                    results[i][x] = Call(jobs[i][x], common, &from);
                }
            };
            std::vector<std::thread> threads;
            threads.reserve(n);
            for (size_t i = 1; i < n; i++)
                threads.emplace_back([&work, i] { work(i); });
            work(0);
            for (auto& t : threads)
                t.join();
            // Alone, every call has to give what it gave in company.
            for (size_t i = 0; i < n; i++) {
                for (size_t x = 0; x < jobs[i].size(); x++) {
                    sched::Ignore ig;
                    std::string alone = Do(jobs[i][x], common);
                    const std::string& got = results[i][x];
                    VP_CHECK(alone == got, "operation %u of thread %zu gave %s while others worked, but gives %s alone",
                             jobs[i][x].op, i, vp::Quote(got.data(), got.size()), vp::Quote(alone.data(), alone.size()));
                    std::string().swap(results[i][x]);
                }
            }
        }
    }
    return g_overlap;
}

VP_TARGET(FirstUse, 15000, 600000, 0) {
    // In a process of its own, in which nothing of the library has run before.
    const int kNoOverlap = 3;
    Plan plan = Draw(s, s.draw(4) != 3);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0)
        _exit(Play(s, plan) ? 0 : kNoOverlap);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    if (WIFSIGNALED(st))
        vp::Fail("a child crashed with signal %d", WTERMSIG(st));
    if (WEXITSTATUS(st) == 0)
        s.nontrivial();
    else if (WEXITSTATUS(st) != kNoOverlap)
        _exit(WEXITSTATUS(st));
}
VP_TARGET(Alike, 120000, 8000000, 0) {
    if (Play(s, Draw(s, true)))
        s.nontrivial();
}
VP_TARGET(Mixed, 60000, 4000000, 0) {
    if (Play(s, Draw(s, false)))
        s.nontrivial();
}
