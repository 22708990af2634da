// C32: the default allocation policy never returns null and release assertions hold.
// Non-trivial: an allocation was made to fail, a condition was false, or a block was used in full.
#include "../engine/vp.h"

#include <assert.h>
#include <errno.h>
#include <stdlib.h>

#include <vector>

// The policy's calls of the allocation functions come here (--wrap), so that an allocation can be made to fail.
static long g_fail_after = -1;   // calls until one fails; -1 never
static bool g_refused = false;
static bool
Refuse() {
    if (g_fail_after == 0) {
        g_refused = true;
        errno = ENOMEM;
        return true;
    }
    if (g_fail_after > 0)
        g_fail_after--;
    return false;
}
extern "C" {
void* __real_malloc(size_t n);
void* __real_calloc(size_t a, size_t b);
void* __real_realloc(void* p, size_t n);
void* __real_aligned_alloc(size_t a, size_t n);
int __real_posix_memalign(void** p, size_t a, size_t n);
void*
__wrap_malloc(size_t n) {
    return Refuse() ? nullptr : __real_malloc(n);
}
void*
__wrap_calloc(size_t a, size_t b) {
    return Refuse() ? nullptr : __real_calloc(a, b);
}
void*
__wrap_realloc(void* p, size_t n) {
    return Refuse() ? nullptr : __real_realloc(p, n);
}
void*
__wrap_aligned_alloc(size_t a, size_t n) {
    return Refuse() ? nullptr : __real_aligned_alloc(a, n);
}
int
__wrap_posix_memalign(void** p, size_t a, size_t n) {
    return Refuse() ? ENOMEM : __real_posix_memalign(p, a, n);
}
}
#include <amtl/am-allocator-policies.h>
#include <amtl/am-assert.h>

struct Seen {
    volatile int evaluations;
    volatile int after;
    volatile int returned;   // 1 non-null, 2 null
};
static Seen*
SharedSeen() {
    static Seen* p = (Seen*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void*)p, 0, sizeof(*p));
    return p;
}

// Runs |fn| in a child; true if it aborted.
template <typename Fn>
static bool
Aborts(Fn fn) {
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    VP_CHECK(pid >= 0, "harness: fork failed");
    if (pid == 0) {
        fn();
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT)
        return true;
    VP_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the child ended in an unexpected way (status %#x)", st);
    return false;
}

VP_TARGET(Blocks, 150000, 4000000, vp::kLeakCheck) {
    // A history of allocations, all used in full and freed through the policy.
    ke::SystemAllocatorPolicy a, b;
    struct Block {
        unsigned char* p;
        size_t n;
        unsigned char fill;
    };
    std::vector<Block> live;
    g_fail_after = -1;
    auto verify = [&](const Block& x) {
        for (size_t i = 0; i < x.n; i++)
            VP_CHECK(x.p[i] == x.fill, "byte %zu of a %zu-byte block changed", i, x.n);
    };
    while (s.more(12)) {
        if (live.empty() || s.draw(3)) {
            size_t n = s.draw(40) == 39 ? size_t(s.draw(1 << 18)) : s.size(2000);
            unsigned char fill = (unsigned char)(live.size() * 7 + n);
            void* p = s.coin() ? a.am_malloc(n) : b.am_malloc(n);
            VP_LOG("allocate %zu\n", n);
            VP_CHECK(p != nullptr, "am_malloc(%zu) returned null", n);
            VP_CHECK(((uintptr_t)p & (alignof(max_align_t) - 1)) == 0, "am_malloc(%zu) is misaligned", n);
            memset(p, fill, n);
            if (n)
                s.nontrivial();
            live.push_back(Block{(unsigned char*)p, n, fill});
        } else {
            size_t i = s.draw(live.size());
            verify(live[i]);
            VP_LOG("free %zu\n", live[i].n);
            if (s.coin())
                a.am_free(live[i].p);
            else
                b.am_free(live[i].p);
            live.erase(live.begin() + long(i));
        }
    }
    for (const Block& x : live) {
        verify(x);
        a.am_free(x.p);
    }
    a.am_free(nullptr);
}

VP_TARGET(Exhaustion, 1500, 20000, 0) {
    // Some request fails: the process must abort and never see null.
    Seen* seen = SharedSeen();
    bool huge = s.coin();
    size_t big = ~size_t(0) >> 1;
    unsigned kind = unsigned(s.draw(3));
    if (kind == 0)
        big = ~size_t(0) - s.draw(4096);
    else if (kind == 1)
        big = (size_t(1) << (48 + s.draw(16))) + s.draw(1000);
    else
        big -= s.draw(1000);
    long ok = long(s.draw(5));
    size_t n = s.draw(4) ? s.draw(1000) : s.draw(3);
    if (huge)
        VP_LOG("request of %zu bytes", big);
    else
        VP_LOG("request number %ld of %zu bytes is refused", ok + 1, n);
    s.nontrivial();
    bool aborted = Aborts([&] {
        ke::SystemAllocatorPolicy p;
        if (huge) {
            void* volatile q = p.am_malloc(big);
            seen->returned = q ? 1 : 2;
            return;
        }
        g_fail_after = ok;
        for (long i = 0; i < ok; i++) {
            void* volatile q = p.am_malloc(n);
            if (!q)
                seen->returned = 2;
        }
        void* volatile q = p.am_malloc(n);
        seen->returned = q ? 1 : 2;
        if (q && !g_refused)
            seen->returned = 3;   // it got its memory some other way: fine
    });
    VP_CHECK(seen->returned != 2, "am_malloc returned null");
    VP_CHECK(aborted || seen->returned == 3, "the process went on after an allocation that cannot be satisfied");
}

VP_TARGET(Reports, 300, 2000, 0) {
    bool overflow = s.coin();
    SharedSeen();
    s.nontrivial();
    VP_LOG("%s", overflow ? "reportAllocationOverflow" : "reportOutOfMemory");
    bool aborted = Aborts([&] {
        ke::SystemAllocatorPolicy p;
        if (overflow)
            p.reportAllocationOverflow();
        else
            p.reportOutOfMemory();
    });
    VP_CHECK(aborted, "%s returned", overflow ? "reportAllocationOverflow" : "reportOutOfMemory");
}

// --- release assertions -------------------------------------------------------------------------

struct Truthy {
    int v;
    explicit operator bool() const {
        return v != 0;
    }
};
struct WithNot {
    int v;
    operator bool() const {
        return v != 0;
    }
};

template <typename T>
static T
Eval(Seen* seen, T v) {
    seen->evaluations = seen->evaluations + 1;
    return v;
}

static void
Assert(Seen* seen, unsigned kind, uint64_t raw, double d) {
    static char anything[16];
    switch (kind) {
        case 0:
            KE_RELEASE_ASSERT(Eval<bool>(seen, raw & 1));
            break;
        case 1:
            KE_RELEASE_ASSERT(Eval<int>(seen, int(uint32_t(raw))));
            break;
        case 2:
            KE_RELEASE_ASSERT(Eval<uint64_t>(seen, raw));
            break;
        case 3:
            KE_RELEASE_ASSERT(Eval<void*>(seen, (raw & 1) ? (void*)anything : nullptr));
            break;
        case 4:
            KE_RELEASE_ASSERT(Eval<double>(seen, d));
            break;
        case 5:
            KE_RELEASE_ASSERT(Eval<Truthy>(seen, Truthy{int(raw & 1)}));
            break;
        case 6:
            // The usual precedence traps.
            KE_RELEASE_ASSERT((raw & 2) || Eval<bool>(seen, raw & 1));
            break;
        case 7:
            KE_RELEASE_ASSERT(Eval<int>(seen, int(raw & 3)) == 1);
            break;
        case 8:
            if (raw & 4)
                KE_RELEASE_ASSERT(Eval<bool>(seen, raw & 1));
            else
                seen->evaluations = 100;
            break;
        default: {
            // More than one in a row, with side effects.
            int i = int(raw & 1);
            KE_RELEASE_ASSERT(i++ >= 0);
            seen->evaluations = i - int(raw & 1);
            KE_RELEASE_ASSERT(i == 2);
        }
    }
    seen->after = 1;
}

VP_TARGET(Assertions, 6000, 60000, 0) {
    Seen* seen = SharedSeen();
    unsigned kind = unsigned(s.draw(10));
    uint64_t raw = s.uint(64);
    double d = s.draw(3) == 0 ? 0.0 : s.draw(2) ? -0.0 : double(raw) * 1e-300;
    bool want;
    int evals = 1;
    switch (kind) {
        case 1:
            want = uint32_t(raw) != 0;
            break;
        case 2:
            want = raw != 0;
            break;
        case 4:
            want = d != 0;
            break;
        case 6:
            want = (raw & 2) || (raw & 1);
            evals = (raw & 2) ? 0 : 1;
            break;
        case 7:
            want = (raw & 3) == 1;
            break;
        case 8:
            want = !(raw & 4) || (raw & 1);
            evals = (raw & 4) ? 1 : 100;
            break;
        default:
            want = raw & 1;
    }
    VP_LOG("condition kind %u value %#" PRIx64 " (%a): %s", kind, raw, d, want ? "true" : "false");
    if (!want)
        s.nontrivial();
    bool aborted = Aborts([&] { Assert(seen, kind, raw, d); });
    VP_CHECK(aborted == !want, "the assertion %s although its condition is %s", aborted ? "aborted" : "went on",
             want ? "true" : "false");
    VP_CHECK(seen->evaluations == evals, "the condition was evaluated %d times", seen->evaluations);
    VP_CHECK(seen->after == (want ? 1 : 0), "execution after the assertion is wrong");
}
