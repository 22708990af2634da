// C34: the headers combine - any of them, in any order, in any number of translation units.
// A case is a generated program: one to three translation units, each with its own compiler,
// language version, sequence of headers (some twice) and one function per header that uses it.
// It must compile, link and run, and every translation unit must see the same layouts.
// Non-trivial: at least two headers in some unit, or a header that is in two units.
#include "../engine/vp.h"

#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <string>
#include <vector>

struct Use {
    const char* header;
    const char* types; // in an unnamed namespace
    const char* body;  // returns what all units must agree on, or 0 if something is wrong
};

static const Use kUses[] = {
    {"am-allocator-policies.h", "",
     "ke::SystemAllocatorPolicy p; void* m = p.am_malloc(10); bool ok = m; p.am_free(m); return ok;"},
    {"am-arithmetic.h", "",
     "uint32_t a = 0; uint64_t b = 0, c = 0; return ke::TryUint32Add(1, 2, &a) && ke::TryUint64Add(3, 4, &b) && "
     "ke::TryUint64Multiply(5, 6, &c) && !ke::TryUint32Add(~uint32_t(0), 1, &a) ? a + b + c : 0;"},
    {"am-assert.h", "", "KE_RELEASE_ASSERT(U > -1); return 1;"},
    {"am-bits.h", "",
     "static char c[16]; return ke::Log2(1024) + ke::FindLeftmostBit32(8) + ke::FindLeftmostBit64(8) + ke::FindRightmostBit(4) + "
     "ke::Align(13, 8) + ke::IsPowerOfTwo(16) + ke::IsUint32AddSafe(1, 2) + ke::IsUint64AddSafe(1, 2) + ke::IsUintPtrAddSafe(1, 2) + "
     "ke::IsUint32MultiplySafe(1, 2) + ke::IsUint64MultiplySafe(1, 2) + ke::IsUintPtrMultiplySafe(1, 2) + ke::IsAligned(64, 32) + "
     "(ke::AlignedBase(c, 1) == c) + ke::kMallocAlignment + ke::kKB + ke::kMB + ke::kGB + "
     "ke::GetPointerBits<2>(ke::SetPointerBits(reinterpret_cast<char*>(64), 3)) + "
     "(ke::ClearPointerBits<2>(reinterpret_cast<char*>(67)) == reinterpret_cast<char*>(64));"},
    {"am-cxx.h", "", "return KE_UNIT_DEFINED;"},
    {"am-deque.h", "",
     "std::deque<int> d; d.push_back(3); d.push_back(4); d.push_back(5); return 10 * ke::PopBack(&d) + ke::PopFront(&d);"},
    {"am-enum.h", "enum class E : unsigned short { A = 1, B = 2 }; KE_DEFINE_ENUM_OPERATORS(E) "
                  "enum G { G1 = 7 }; KE_DEFINE_ENUM_COMPARATORS(G, int)",
     "E e = E::A; e |= E::B; e ^= E::A; e &= ~E::A; int seven = 7; "
     "return (e | E::A) == (E::A | E::B) && !(e & E::A) && G1 == seven && !(seven != G1) ? sizeof(ke::enum_integral_type<E>::type) : 0;"},
    {"am-fixedarray.h", "",
     "ke::FixedArray<int> a(3), b(a); a[1] = 5; b = a; return b[1] == 5 && a == b ? sizeof(a) + b.size() : 0;"},
    {"am-flags.h", "enum class F : unsigned { A = 1, B = 4 };",
     "ke::Flags<F> f(F::A); f += F::B; f -= F::A; return f.bits() * 100 + sizeof(f);"},
    {"am-float.h", "",
     "return !ke::IsNaN(1.0) && !ke::IsNaN(1.0f) && ke::IsInfinite(1e300 * 1e300) && !ke::IsInfinite(2.0f) && "
     "ke::FloatModulo(7.0, 4.0) == 3.0 && ke::FloatModulo(7.0f, 4.0f) == 3.0f;"},
    {"am-function.h", "struct Fn { int operator()(int x) const { return x + 1; } };",
     "ke::Function<int(int)> f = Fn(), g(f); ke::Function<int(int)> h = [](int x) { return x * 3; }; "
     "return g(1) == 2 && h(2) == 6 ? sizeof(f) + f.usingInlineStorage() : 0;"},
    {"am-hashmap.h", "",
     "ke::HashMap<void*, int, ke::PointerPolicy<void>> m; if (!m.init()) return 0; int x; auto i = m.findForAdd(&x); "
     "m.add(i, &x, 7); auto r = m.find(&x); return r.found() && r->value == 7 ? sizeof(m) + m.estimateMemoryUse() : 0;"},
    {"am-hashset.h", "struct S { static uint32_t hash(int k) { return ke::HashInt32(k); } static bool matches(int a, int b) { return a == b; } };",
     "ke::HashSet<int, S> s; if (!s.init()) return 0; s.add(4); return s.has(4) && !s.has(5) ? sizeof(s) + s.elements() : 0;"},
    {"am-hashtable.h", "struct P { typedef int Payload; static uint32_t hash(int k) { return uint32_t(k); } static bool matches(int a, int b) { return a == b; } };",
     "ke::HashTable<P> t; if (!t.init(16)) return 0; auto i = t.findForAdd(3); t.add(i, 3); int x = 0; return t.find(3).found() ? "
     "sizeof(t) + t.estimateMemoryUse() + ke::HashCharSequence(\"abc\", 3) + ke::FastHashCharSequence(\"abc\", 3) + ke::HashInt32(9) + ke::HashInt64(9) + "
     "ke::HashInteger<4>(9) + ke::HashInteger<8>(9) + ke::HashCombine(1, 2) + 0 * ke::HashPointer(&x) : 0;"},
    {"am-inlinelist.h", "struct Node : public ke::InlineListNode<Node> { int v = 3; };",
     "Node n; ke::InlineList<Node> l; l.append(&n); int v = (*l.begin())->v; n.isInList() ? l.remove(&n) : void(); return l.empty() && v == 3 ? sizeof(l) + sizeof(n) : 0;"},
    {"am-linking.h", "", "return KE_UNIT_LINKED;"},
    {"am-maybe.h", "", "ke::Maybe<int> m = ke::Some(4), n; n = m; return *n == 4 ? sizeof(m) : 0;"},
    {"am-mutex.h", "", "ke::Mutex m; m.lock(); m.AssertCurrentThreadOwns(); m.unlock(); bool ok = m.try_lock(); m.unlock(); return ok ? sizeof(m) : 0;"},
    {"am-platform.h", "",
     "int n = 0;\n#ifdef KE_LINUX\nn += 1;\n#endif\n#ifdef KE_POSIX\nn += 2;\n#endif\n#ifdef KE_ARCH_X64\nn += 4;\n#endif\nreturn n;"},
    {"am-priority-queue.h", "",
     "ke::PriorityQueue<int> q; q.add(4); q.emplace(2); q.add(3); int a = q.pop(), b = q.peek(); return a == 2 && b == 3 ? sizeof(q) : 0;"},
    {"am-raii.h", "struct L : public ke::StackLinked<L> { explicit L(L** p) : ke::StackLinked<L>(p) {} };",
     "int x = 1; { ke::SaveAndSet<int> s(&x, 2); if (x != 2) return 0; } L* top = nullptr; unsigned long n; { L l(&top); n = sizeof(l); if (top != &l) return 0; } "
     "int k = 0; { auto g = ke::MakeScopeGuard([&]() { k++; }); } int y = 5; return x == 1 && !top && k == 1 && ke::ReturnAndVoid(y) == 5 && !y ? n : 0;"},
    {"am-refcounting.h", "struct R : public ke::Refcounted<R> { int v = 2; }; struct V : public ke::VirtualRefcounted {}; "
                         "struct I : public ke::IRefcounted, public ke::Refcounted<I> { KE_IMPL_REFCOUNTING(I) };",
     "ke::RefPtr<R> r = new R, q(r); ke::RefPtr<V> v = new V; ke::RefPtr<I> i = new I; r = nullptr; ke::RefPtr<R> a = ke::AdoptRef(q.take().take()); "
     "return a->v == 2 && !q ? sizeof(r) + sizeof(R) + sizeof(V) + sizeof(I) : 0;"},
    {"am-refcounting-threadsafe.h", "struct R2 : public ke::RefcountedThreadsafe<R2> { int v = 2; }; struct V2 : public ke::VirtualRefcountedThreadsafe {}; "
                                    "struct I2 : public ke::IRefcounted, public ke::RefcountedThreadsafe<I2> { KE_IMPL_REFCOUNTING_TS(I2) };",
     "ke::RefPtr<R2> r = new R2; ke::AtomicRef<R2> a(r.get()); a = r.get(); ke::RefPtr<R2> b = a.get(); ke::RefPtr<V2> v = new V2; ke::RefPtr<I2> i = new I2; "
     "return b->v == 2 ? sizeof(a) + sizeof(R2) + sizeof(V2) + sizeof(I2) : 0;"},
    {"am-storagebuffer.h", "", "ke::StorageBuffer<double> b; *b.address() = 2; return *b.address() == 2 ? sizeof(b) : 0;"},
    {"am-string.h", "",
     "char b[8]; unsigned long n = ke::SafeSprintf(b, sizeof(b), \"%d%s\", 12, \"3\") + ke::SafeStrcpy(b, sizeof(b), \"hi\") + ke::SafeStrcat(b, sizeof(b), \"gh\") + "
     "ke::SafeStrcpyN(b, sizeof(b), \"abcd\", 2); auto p = ke::Sprintf(\"%d\", 5); return p[0] == '5' && ke::StringPrintf(\"%c\", 'x') == \"x\" && "
     "ke::Join(ke::Split(\"a,b\", \",\"), \"-\") == \"a-b\" && ke::Uppercase(\"a\") == \"A\" && ke::Lowercase(\"B\") == \"b\" && ke::StartsWith(\"ab\", \"a\") && "
     "ke::StartsWith(std::string(\"ab\"), \"a\") && ke::EndsWith(\"ab\", \"b\") && !ke::StrCaseCmp(\"q\", \"Q\") && sizeof(KE_FMT_SIZET KE_FMT_I64) ? n : 0;"},
    {"am-thread.h", "",
     "int x = 0; auto t = ke::NewThread(\"unit\", [&](int v) { x = v; }, 4); t->join(); ke::SetThreadName(\"unit main\"); return x == 4;"},
    {"am-threadlocal.h", "",
     "static ke::ThreadLocal<int> t; static ke::ThreadLocal<void*> v; t = 4; int x; v = &x; return t.get() == 4 && v.get() == &x ? sizeof(t) : 0;"},
    {"am-time.h", "",
     "timespec ts = {3, 4}; struct tm tm = {}; tm.tm_year = 99; auto d = ke::TimespecToDuration(ts); "
     "auto p = ke::TimespecToTimePoint<std::chrono::system_clock>(ts); auto e = ke::EpochValueToTimePoint<std::chrono::system_clock::time_point>(5); "
     "return ke::FormatTime(tm, \"%Y\") == \"1999\" && ke::FormatTime(tm, std::string(\"%y\")) == \"99\" && p > e ? d.count() : 0;"},
    {"am-unused.h", "", "int x = 3; ke::Unused() << x; return 1;"},
    {"am-utility.h", "struct Z { int a[3]; };",
     "Z z; ke::MemsetZero(&z); int a[4]; return ARRAY_LENGTH(a) + IS_ALIGNED(64, 16) + (KE_CRITICAL_LIKELY(z.a[2] == 0) ? 1 : 100) + "
     "(unsigned long)(ke::cast_to_pointer<int>::cast(7)) + (ke::cast_to_pointer<Z*>::cast(&z) == &z);"},
    {"am-vector.h", "",
     "std::vector<int> v = {1, 2, 3}, w = {4}; ke::MoveExtend(&v, &w); ke::RemoveAt(&v, 0); int n = 9; ke::InsertAt(&v, 0, n); ke::InsertAt(&v, 0, 8); "
     "ke::EmplaceAt(&v, 0, 7); ke::EraseIf(&v, [](int x) { return x == 3; }); return 10 * ke::PopBack(&v) + v.size();"},
    {"os/am-fsutil.h", "",
     "return ke::file::PathExists(\"/\") && ke::file::IsDirectory(\"/\") && !ke::file::IsFile(\"/\") && !ke::file::CreateDirectory(\"\");"},
    {"os/am-path.h", "", "char b[9]; unsigned long n = ke::path::Format(b, sizeof(b), \"a\\\\%s\", \"b\"); return b[1] == '/' ? n : 0;"},
    {"os/am-shared-library.h", "",
     "ke::RefPtr<ke::SharedLib> l = ke::SharedLib::Open(\"/nowhere/at/all.so\"); return !l ? sizeof(ke::SharedLib) : 0;"},
    {"os/am-system-errors.h", "", "char b[90]; ke::FormatSystemErrorCode(2, b, sizeof(b)); unsigned long n = b[0]; ke::FormatSystemError(b, sizeof(b)); return n;"},
    {"experimental/am-argparser.h", "",
     "using namespace ke::args; Parser p(\"x\"); IntOption i(p, \"i\", \"int\", ke::Nothing(), \"help\"); Option<bool> b(p, \"b\", \"bool\", ke::Some(false), \"help\"); "
     "StringOption s(p, \"pos\", \"help\"); ToggleOption t(p, \"t\", \"toggle\", ke::Nothing(), \"h\"); RepeatOption<std::string> r(p, \"r\", \"rep\", \"h\"); "
     "EnableOption e(p, nullptr, \"enable\", false, \"h\"); p.add_usage_line(\"a\", \"b\"); "
     "bool ok = p.parsev(\"-i\", \"4\", \"word\", \"--enable\", \"-r\", \"q\", (const char*)nullptr); "
     "return ok && i.value() == 4 && s.value() == \"word\" && e.value() && r.values().size() == 1 ? sizeof(p) + sizeof(i) + sizeof(s) + sizeof(t) + sizeof(r) + sizeof(e) : 0;"},
};
static const size_t kN = sizeof(kUses) / sizeof(*kUses);

static const char* const kCompilers[] = {"g++", "clang++"};
static const char* const kStandards[] = {"c++17", "c++20", "gnu++17"};
static const char* const kModes[] = {"-DDEBUG -D_DEBUG", "-DNDEBUG", "-O1 -DNDEBUG"};

struct Unit {
    unsigned compiler, standard;
    std::vector<unsigned> includes; // with repetitions
    std::vector<unsigned> used;     // each once
};

static void
WriteFile(const std::string& path, const std::string& text) {
    FILE* f = fopen(path.c_str(), "w");
    if (!f)
        abort();
    fwrite(text.data(), 1, text.size(), f);
    fclose(f);
}
static std::string
ReadFile(const std::string& path) {
    std::string r;
    if (FILE* f = fopen(path.c_str(), "r")) {
        char b[4096];
        for (size_t n; (n = fread(b, 1, sizeof(b), f)) > 0;)
            r.append(b, n);
        fclose(f);
    }
    return r;
}

// -> exit status, or -1 when it could not be run.
static int
Shell(const std::string& dir, const std::string& cmd) {
    std::string line = "cd " + dir + " && ( " + cmd + " ) > log 2>&1";
    int st = system(line.c_str());
    return WIFEXITED(st) ? WEXITSTATUS(st) : -1;
}

static std::string
Text(const std::vector<Unit>& units, unsigned u, bool use_namespace) {
    std::string t;
    for (unsigned h : units[u].includes)
        t += std::string("#include <amtl/") + kUses[h].header + ">\n";
    std::string un = std::to_string(u);
    t += "#define U " + un + "\n";
    if (use_namespace)
        t += "namespace ke {}\nusing namespace ke;\n";
    for (unsigned h : units[u].used) {
        std::string id = un + "_" + std::to_string(h);
        if (!strcmp(kUses[h].header, "am-cxx.h"))
            t += "KE_LINKONCE(int c34_once);\n#define KE_UNIT_DEFINED (++c34_once)\n";
        if (!strcmp(kUses[h].header, "am-linking.h"))
            t += "extern \"C\" KE_DLL_EXPORT int c34_exported_" + un + "() { return 5; }\n"
                 "extern \"C\" KE_DLL_PRIVATE int c34_private_" + un + "() { return 6; }\n"
                 "#define KE_UNIT_LINKED (c34_exported_" + un + "() * c34_private_" + un + "())\n";
        t += std::string("namespace {\n") + kUses[h].types + "\n}\n";
        t += "unsigned long c34_use_" + id + "() { " + kUses[h].body + "\n}\n";
    }
    if (u == 0) {
        t += "extern \"C\" int printf(const char*, ...);\n";
        std::string calls;
        for (unsigned k = 0; k < units.size(); k++) {
            for (unsigned h : units[k].used) {
                std::string fn = "c34_use_" + std::to_string(k) + "_" + std::to_string(h);
                if (k)
                    t += "unsigned long " + fn + "();\n";
                calls += "    printf(\"%u %u %lu\\n\", " + std::to_string(k) + "u, " + std::to_string(h) + "u, " + fn + "());\n";
            }
        }
        t += "int main() {\n" + calls + "    printf(\"end\\n\");\n    return 0;\n}\n";
    }
    return t;
}

static std::string
FirstLines(const std::string& log, const char* pattern) {
    size_t at = log.find(pattern);
    size_t from = log.rfind('\n', at);
    from = from == std::string::npos ? 0 : from + 1;
    return log.substr(from, log.find('\n', at) - from);
}

VP_TARGET(Combine, 220, 4000, 0) {
    static std::string dir;
    if (dir.empty()) {
        dir = std::string(VP_BUILD_DIR) + "/c34." + std::to_string(getpid());
        mkdir(dir.c_str(), 0755);
    }
    unsigned mode = unsigned(s.draw(3));
    bool single = s.chance(1, 5), use_namespace = s.chance(1, 4), std_enum = s.chance(1, 4);
    std::vector<Unit> units(1 + s.draw(3));
    std::vector<unsigned> seen(kN);
    bool interesting = false;
    for (size_t u = 0; u < units.size(); u++) {
        Unit& unit = units[u];
        unit.compiler = unsigned(s.draw(2));
        unit.standard = unsigned(s.draw(3));
        // One header by itself, a few, or most of them.
        size_t shape = s.draw(4);
        size_t n = shape == 0 ? 1 : shape < 3 ? 2 + s.draw(5) : kN - s.draw(kN / 2);
        std::vector<unsigned> order;
        for (unsigned h = 0; h < kN; h++)
            order.push_back(h);
        for (size_t i = 0; i < n; i++)
            std::swap(order[i], order[i + s.draw(kN - i)]);
        order.resize(n);
        unit.used = order;
        unit.includes = order;
        while (s.chance(1, 3))
            unit.includes.push_back(order[s.draw(n)]);
        for (unsigned h : order)
            interesting |= seen[h]++ > 0;
        interesting |= n > 1;
        std::string list;
        for (unsigned h : unit.includes)
            list += std::string(" ") + kUses[h].header;
        VP_LOG("unit %zu, %s -std=%s:%s", u, kCompilers[unit.compiler], kStandards[unit.standard], list.c_str());
    }
    VP_LOG("all with %s%s%s%s", kModes[mode], single ? " -DKE_SINGLE_THREADED" : "", std_enum ? " -DKE_ALLOW_STD_CXX" : "",
           use_namespace ? ", using namespace ke" : "");
    if (interesting)
        s.nontrivial();
    if (units.size() > 1)
        s.mark("several units");

    std::string cmd, objs;
    for (unsigned u = 0; u < units.size(); u++) {
        std::string n = std::to_string(u);
        WriteFile(dir + "/u" + n + ".cpp", Text(units, u, use_namespace));
        cmd += std::string(u ? " && " : "") + kCompilers[units[u].compiler] + " -w -c -std=" + kStandards[units[u].standard] + " " + kModes[mode] +
               (single ? " -DKE_SINGLE_THREADED" : "") + (std_enum ? " -DKE_ALLOW_STD_CXX" : "") +
               " -D_LINUX -DPOSIX -fno-exceptions -I" VP_REPO_DIR " u" + n + ".cpp -o u" + n + ".o";
        objs += " u" + n + ".o";
    }
    int rc = Shell(dir, "ulimit -t 60; " + cmd);
    std::string log = ReadFile(dir + "/log");
    if (rc != 0) {
        bool error = log.find("error: ") != std::string::npos && log.find("internal compiler error") == std::string::npos;
        VP_CHECK(!error, "does not compile: %s", FirstLines(log, "error: ").c_str());
        s.mark("compiler could not be run");
        return;
    }
    rc = Shell(dir, "ulimit -t 60; g++" + objs + " " VP_BUILD_DIR "/c34_argparser.o -o prog -lpthread -ldl");
    log = ReadFile(dir + "/log");
    if (rc != 0) {
        for (const char* what : {"multiple definition", "undefined reference"})
            VP_CHECK(log.find(what) == std::string::npos, "does not link: %s", FirstLines(log, what).c_str());
        s.mark("linker could not be run");
        return;
    }
    rc = Shell(dir, "ulimit -t 20; ./prog");
    log = ReadFile(dir + "/log");
    VP_CHECK(rc == 0 && log.find("end\n") != std::string::npos, "the program ended with status %d: %s", rc, log.substr(0, 300).c_str());
    std::vector<unsigned long> value(kN);
    std::vector<unsigned> who(kN, ~0u);
    unsigned u, h;
    unsigned long v;
    const char* p = log.c_str();
    for (int len = 0; sscanf(p, "%u %u %lu\n%n", &u, &h, &v, &len) == 3; p += len) {
        if (h >= kN || u >= units.size())
            break;
        const char* name = kUses[h].header;
        VP_CHECK(v, "unit %u: %s did something wrong", u, name);
        if (!strcmp(name, "am-cxx.h"))
            continue;
        if (who[h] != ~0u)
            VP_CHECK(value[h] == v, "%s: unit %u has %lu, unit %u has %lu", name, who[h], value[h], u, v);
        who[h] = u;
        value[h] = v;
    }
}
