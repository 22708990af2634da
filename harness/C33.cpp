// C33: utility macros, casts and linking macros do exactly what they say.
// Non-trivial: an address that is not aligned or a block with neighbours; a value of more than 32
// bits; a variable written from one part of a library and read from the other.
#include "../engine/vp.h"

#include <dlfcn.h>
#include <stdint.h>
#include <string.h>

#include <utility>
#include <vector>

#include <amtl/am-cxx.h>
#include <amtl/am-linking.h>
#include <amtl/am-platform.h>
#include <amtl/am-unused.h>
#include <amtl/am-utility.h>

// ---- MemsetZero ----

template <size_t N, typename Unit>
struct Plain {
    Unit u[N];
};
struct Mixed {
    char a;
    double b;
    short c;
    void* d;
    int e[3];
    char f;
};
union Either {
    char c[13];
    uint64_t w;
};

template <typename T>
static void
Zero(vp::Src& s) {
    // Neighbours of the same type on both sides, all of it at a drawn address the type allows.
    size_t n = 1 + s.draw(4), at = s.draw(n), off = s.draw(4) * alignof(T);
    std::vector<unsigned char> block(n * sizeof(T) + off + 64);
    unsigned char* base = block.data() + (16 - uintptr_t(block.data()) % 16) % 16 + off;
    std::vector<unsigned char> want(n * sizeof(T) + 16);
    for (size_t i = 0; i < want.size(); i++)
        want[i] = base[i] = (unsigned char)(i < 2000 ? 1 + s.draw(255) : 1 + i % 255);
    T* arr = reinterpret_cast<T*>(base);
    VP_LOG("MemsetZero of element %zu of %zu, %zu bytes each", at, n, sizeof(T));
    ke::MemsetZero(arr + at);
    memset(want.data() + at * sizeof(T), 0, sizeof(T));
    if (n > 1)
        s.nontrivial();
    for (size_t i = 0; i < want.size(); i++)
        VP_CHECK(base[i] == want[i], "byte %zu is %u, not %u", i, base[i], want[i]);
}

VP_TARGET(ClearsObject, 100000, 2000000, 0) {
    switch (s.draw(200) == 199 ? 9 : s.draw(9)) {
        case 9: return s.coin() ? Zero<Plain<70000, char>>(s) : Zero<Plain<300, int>>(s);
        case 0: return Zero<char>(s);
        case 1: return Zero<int>(s);
        case 2: return Zero<double>(s);
        case 3: return Zero<Plain<3, char>>(s);
        case 4: return Zero<Plain<7, short>>(s);
        case 5: return Zero<Plain<100, uint64_t>>(s);
        case 6: return Zero<Mixed>(s);
        case 7: return Zero<Either>(s);
        case 8: return Zero<int[5]>(s);
    }
}

// ---- IS_ALIGNED ----

VP_TARGET(Alignment, 1000000, 20000000, 0) {
    unsigned k = unsigned(s.draw(40));
    uint64_t unit = uint64_t(1) << k;
    uint64_t a = s.uint(64);
    switch (s.draw(4)) {
        case 0: a = a >> k << k; break;
        case 1: a = (a >> k << k) + 1; break;
        case 2: a = (a >> k << k) - 1; break;
    }
    uint64_t b = a;
    bool want = true;
    for (unsigned i = 0; i < k; i++, b >>= 1)
        want = want && !(b & 1);
    if (!want)
        s.nontrivial();
    VP_LOG("address %" PRIx64 " alignment %" PRIu64, a, unit);
    VP_CHECK(bool(IS_ALIGNED(a, unit)) == want, "as a number: %d", bool(IS_ALIGNED(a, unit)));
    VP_CHECK(bool(IS_ALIGNED(reinterpret_cast<char*>(a), unit)) == want, "as a pointer");
    VP_CHECK(bool(IS_ALIGNED(reinterpret_cast<void*>(a), size_t(unit))) == want, "as a void pointer");
    VP_CHECK(bool(IS_ALIGNED(a + 0, uint64_t(1) << k)) == want, "from expressions");
    VP_CHECK(bool(IS_ALIGNED(a | 0, k ? unit | 0 : 1)) == want, "from expressions of low precedence");
    VP_CHECK((IS_ALIGNED(a, unit) == true) == want, "compared");
    VP_CHECK(!IS_ALIGNED(a, unit) == !want, "negated");
    if (k < 30)
        VP_CHECK(bool(IS_ALIGNED(a, int(unit))) == want, "with a signed alignment");
    if (a <= 0x7fffffff)
        VP_CHECK(bool(IS_ALIGNED(int(a), unit)) == want, "with an int address");
}

// ---- ARRAY_LENGTH ----

template <typename T, size_t N>
static size_t
Length(size_t& bytes) {
    static T arr[N];
    static T two[N][3];
    static_assert(ARRAY_LENGTH(two) == N && ARRAY_LENGTH(two[0]) == 3, "");
    VP_CHECK(1000 / ARRAY_LENGTH(arr) == 1000 / N && ARRAY_LENGTH(arr) % 7 == N % 7, "within an expression");
    bytes = sizeof(arr);
    return ARRAY_LENGTH(arr);
}
template <typename T, size_t... I>
static size_t
LengthAt(size_t n, size_t& bytes, std::index_sequence<I...>) {
    static size_t (*const fns[])(size_t&) = {&Length<T, I + 1>...};
    return fns[n - 1](bytes);
}
template <typename T>
static void
Count(vp::Src& s) {
    size_t n = 1 + s.draw(40), bytes = 0;
    size_t got = LengthAt<T>(n, bytes, std::make_index_sequence<40>());
    VP_LOG("array of %zu elements of %zu bytes", n, sizeof(T));
    VP_CHECK(got == n && bytes == n * sizeof(T), "ARRAY_LENGTH is %zu", got);
    if (n > 1)
        s.nontrivial();
}

VP_TARGET(ArrayLength, 100000, 1000000, 0) {
    switch (s.draw(5)) {
        case 0: return Count<char>(s);
        case 1: return Count<int>(s);
        case 2: return Count<void*>(s);
        case 3: return Count<Plain<5, char>>(s);
        case 4: return Count<Mixed>(s);
    }
}

// ---- cast_to_pointer ----

enum class Small : uint8_t {};
enum class Large : uint64_t {};

template <typename T>
static void
RoundTrip(uint64_t v) {
    T t = T(v);
    void* p = ke::cast_to_pointer<T>::cast(t);
    VP_CHECK(p == (void*)(uintptr_t)t, "value %" PRIx64 " became %p", uint64_t(t), p);
    VP_CHECK(T(uintptr_t(p)) == t, "value %" PRIx64 " came back as %" PRIx64, uint64_t(t), uint64_t(T(uintptr_t(p))));
}

VP_TARGET(PointerCast, 400000, 8000000, 0) {
    uint64_t v = s.uint(64);
    if (v >> 32)
        s.nontrivial();
    unsigned k = unsigned(s.draw(11));
    VP_LOG("value %" PRIx64 " as type %u", v, k);
    switch (k) {
        case 0: return RoundTrip<uint8_t>(v);
        case 1: return RoundTrip<int8_t>(v);
        case 2: return RoundTrip<uint16_t>(v);
        case 3: return RoundTrip<int16_t>(v);
        case 4: return RoundTrip<uint32_t>(v);
        case 5: return RoundTrip<int32_t>(v);
        case 6: return RoundTrip<uint64_t>(v);
        case 7: return RoundTrip<int64_t>(v);
        case 8: return RoundTrip<Small>(v);
        case 9: return RoundTrip<Large>(v);
        case 10: {
            int* p = reinterpret_cast<int*>(v & ~uint64_t(3));
            const int* q = p;
            void* a = ke::cast_to_pointer<int*>::cast(p);
            const void* b = ke::cast_to_pointer<int*>::cast(q);
            VP_CHECK(a == p && b == p, "pointer %p became %p and %p", (void*)p, a, b);
            return;
        }
    }
}

// ---- KE_CRITICAL_LIKELY, Unused ----

VP_TARGET(Conditions, 400000, 8000000, 0) {
    uint64_t v = s.uint(64);
    unsigned evaluated = 0;
    auto once = [&](auto x) {
        evaluated++;
        return x;
    };
    auto hit = [](bool b) { return b; };
    VP_LOG("condition on %" PRIx64, v);
    if (v > 1)
        s.nontrivial();
    VP_CHECK(hit(KE_CRITICAL_LIKELY(once(v))) == (v != 0), "64 bits");
    VP_CHECK(evaluated == 1, "evaluated %u times", evaluated);
    VP_CHECK(hit(KE_CRITICAL_LIKELY(once(uint32_t(v)))) == (uint32_t(v) != 0), "32 bits");
    VP_CHECK(hit(KE_CRITICAL_LIKELY(once((void*)v))) == (v != 0), "a pointer");
    VP_CHECK(hit(KE_CRITICAL_LIKELY(once(v & 1) || (v & 6))) == ((v & 7) != 0), "a disjunction");
    double d = double(v) / 4;
    VP_CHECK(hit(KE_CRITICAL_LIKELY(d < 1)) == (d < 1) && hit(!KE_CRITICAL_LIKELY(v == 5)) == (v != 5), "comparisons");
    evaluated = 0;
    ke::Unused() << once(v);
    VP_CHECK(evaluated == 1, "Unused evaluated its operand %u times", evaluated);
    struct NoCopy {
        NoCopy() = default;
        NoCopy(const NoCopy&) = delete;
    } nc;
    ke::Unused() << nc;
    ke::Unused() << NoCopy();
}

// ---- Linking ----

struct Library {
    void* h;
    void (*set[2])(unsigned, uint64_t);
    uint64_t (*get[2])(unsigned);
    uint64_t (*through[2])();
};

static Library
Open(const char* name) {
    Library l;
    char path[1000];
    snprintf(path, sizeof(path), "%s/%s", VP_BUILD_DIR, name);
    l.h = dlopen(path, RTLD_NOW | RTLD_LOCAL);
    VP_CHECK(l.h, "cannot load the library: %s", dlerror());
    for (int i = 0; i < 2; i++) {
        char n[32];
        snprintf(n, sizeof(n), "c33_set%d", i);
        l.set[i] = (void (*)(unsigned, uint64_t))dlsym(l.h, n);
        snprintf(n, sizeof(n), "c33_get%d", i);
        l.get[i] = (uint64_t(*)(unsigned))dlsym(l.h, n);
        snprintf(n, sizeof(n), "c33_through%d", i);
        l.through[i] = (uint64_t(*)())dlsym(l.h, n);
        VP_CHECK(l.set[i] && l.get[i] && l.through[i], "%s: an exported function is not there", name);
        snprintf(n, sizeof(n), "c33_private%d", i);
        VP_CHECK(!dlsym(l.h, n), "%s: the private function %s is visible", name, n);
    }
    return l;
}

VP_TARGET(Linking, 40000, 400000, 0) {
    static const Library libs[] = {Open("libc33_hidden.so"), Open("libc33_default.so")};
    const Library& l = libs[s.draw(2)];
    uint64_t model[17];
    for (unsigned i = 0; i < 17; i++)
        l.set[0](i, model[i] = 0);
    bool crossed = false;
    while (s.more(40)) {
        unsigned i = unsigned(s.draw(17)), part = unsigned(s.draw(2));
        if (s.coin()) {
            model[i] = s.uint(64);
            VP_LOG("part %u sets %u to %" PRIx64, part, i, model[i]);
            l.set[part](i, model[i]);
        } else {
            crossed = true;
            uint64_t a = l.get[part](i);
            VP_LOG("part %u reads %u: %" PRIx64, part, i, a);
            VP_CHECK(a == model[i], "not %" PRIx64, model[i]);
            VP_CHECK(l.through[part]() == model[16], "through the private function");
        }
    }
    if (crossed)
        s.nontrivial();
}

// ---- Platform ----

VP_TARGET(Platform, 10, 10, 0) {
    s.draw(2);
    s.nontrivial();
    int arch = 0, os = 0, cxx = 0;
#ifdef KE_ARCH_X64
    arch++;
    VP_CHECK(sizeof(void*) == 8, "64-bit architecture");
#endif
#ifdef KE_ARCH_X86
    arch++;
    VP_CHECK(sizeof(void*) == 4, "32-bit architecture");
#endif
#ifdef KE_ARCH_ARM64
    arch++;
#endif
#ifdef KE_ARCH_ARM
    arch++;
#endif
#ifdef KE_ARCH_UNKNOWN
    arch++;
#endif
#ifdef KE_LINUX
    os++;
#endif
#ifdef KE_WINDOWS
    os++;
#endif
#ifdef KE_BSD
    os++;
#endif
#ifdef KE_CXX_CLANG
    cxx++;
#endif
#ifdef KE_CXX_GCC
    cxx++;
#endif
#ifdef KE_CXX_MSVC
    cxx++;
#endif
    VP_CHECK(arch == 1 && os == 1 && cxx == 1, "%d architectures, %d systems, %d compilers", arch, os, cxx);
#if defined(__linux__) && !defined(KE_POSIX)
    VP_CHECK(false, "Linux is not POSIX");
#endif
#if defined(__clang__) != defined(KE_CXX_CLANG) || !defined(KE_CXX_LIKE_GCC)
    VP_CHECK(false, "the compiler is another one");
#endif
}
