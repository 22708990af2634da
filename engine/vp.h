// vp.h - the property-based testing engine shared by every check.
//
// A test case is a *choice sequence*: the target draws every random decision through vp::Src, in
// random mode from a generator seeded by (seed, target, case index) and in replay mode from a
// recorded sequence.  Cases run in forked workers; a crash, a failed assertion, a sanitizer report
// or a hang is simply a failing case.  A failing sequence is shrunk in forked children, replayed
// three times and written to a replay file.
//
// Include this header in exactly one translation unit per harness: it defines main().
#pragma once

#include <errno.h>
#include <fcntl.h>
#include <inttypes.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#if defined(__has_feature)
#    if __has_feature(address_sanitizer)
#        define VP_ASAN 1
#    endif
#endif
#if defined(__SANITIZE_ADDRESS__) && !defined(VP_ASAN)
#    define VP_ASAN 1
#endif

#ifndef VP_CONFIG
#    define VP_CONFIG "debug"
#endif

namespace vp {

static const size_t kMaxChoices = 1 << 18;
static const size_t kMaxLabels = 96;
static const size_t kLogSize = 1 << 16;
static const int kExitFail = 77;
static const int kExitAsan = 76;

struct Label {
    char name[56];
    const char* key;
    uint64_t count;
};

// Shared between a worker and the parent, so that it survives the worker's crash.
struct Shared {
    volatile uint64_t case_index;
    volatile uint64_t done;
    volatile uint32_t nchoices;
    volatile uint32_t overflowed;
    volatile uint64_t evals;
    volatile uint64_t nontrivial;
    volatile uint32_t nlabels;
    volatile uint32_t nsamples;
    volatile uint64_t beat;
    uint64_t samples[8];
    Label labels[kMaxLabels];
    char msg[8192];
    char log[kLogSize];
    volatile uint32_t loglen;
    uint64_t choices[kMaxChoices];
    size_t hash_cap;
    volatile uint64_t nhashes;
    uint64_t hashes[1];
};

static Shared* g_sh = nullptr;
static bool g_describe = false;
static bool g_verbose = false;

static inline uint64_t splitmix(uint64_t& x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

__attribute__((noreturn, format(printf, 1, 2))) static inline void
Fail(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    if (g_sh)
        vsnprintf(g_sh->msg, sizeof(g_sh->msg), fmt, ap);
    va_end(ap);
#ifdef VP_LIBFUZZER
    fprintf(stderr, "VP_FAIL: %s\n", g_sh ? g_sh->msg : "");
    abort();
#endif
    _exit(kExitFail);
}

#define VP_CHECK(cond, ...)        \
    do {                           \
        if (!(cond))               \
            ::vp::Fail(__VA_ARGS__); \
    } while (0)

class Src
{
  public:
    enum Mode { kRandom, kReplay, kBytes };

    void start_random(uint64_t seed) {
        mode_ = kRandom;
        uint64_t s = seed;
        a_ = splitmix(s);
        b_ = splitmix(s) | 1;
        begin();
    }
    void start_replay(const uint64_t* c, size_t n) {
        mode_ = kReplay;
        in_ = c;
        nin_ = n;
        begin();
    }
    void start_bytes(const uint8_t* p, size_t n) {
        mode_ = kBytes;
        bytes_ = p;
        nbytes_ = n;
        begin();
    }

    // Uniform in [0, n); 0 is the simplest value.  n == 0 means the full 64-bit range.
    uint64_t draw(uint64_t n) {
        uint64_t v;
        if (mode_ == kRandom) {
            v = next();
            if (n)
                v = uint64_t((unsigned __int128)v * n >> 64);
        } else if (mode_ == kReplay) {
            v = pos_ < nin_ ? in_[pos_] : 0;
            if (n && v >= n)
                v %= n;
        } else {
            int want = 8;
            if (n) {
                want = 0;
                uint64_t m = n - 1;
                while (m) {
                    want++;
                    m >>= 8;
                }
            }
            v = 0;
            for (int i = 0; i < want; i++)
                v = (v << 8) | (bpos_ < nbytes_ ? bytes_[bpos_++] : 0);
            if (n)
                v %= n;
        }
        if (pos_ < kMaxChoices) {
            g_sh->choices[pos_] = v;
            g_sh->nchoices = uint32_t(pos_ + 1);
        } else {
            g_sh->overflowed = 1;
        }
        pos_++;
        h_ = (h_ ^ v) * 0x9E3779B97F4A7C15ULL;
        h_ ^= h_ >> 29;
        return v;
    }
    bool exhausted() const {
        return (mode_ == kReplay && pos_ >= nin_) || (mode_ == kBytes && bpos_ >= nbytes_) ||
               pos_ >= kMaxChoices;
    }

    // True with probability num/den; false is the simple value.
    bool chance(uint64_t num, uint64_t den) {
        return draw(den) >= den - num;
    }
    bool coin() {
        return draw(2) == 1;
    }
    uint64_t range(uint64_t lo, uint64_t hi) {
        return lo + draw(hi - lo + 1);
    }
    int64_t irange(int64_t lo, int64_t hi) {
        return lo + int64_t(draw(uint64_t(hi - lo) + 1));
    }
    // Loop guard: one draw per step, about |avg| steps; the simple value stops.
    bool more(uint64_t avg) {
        return !exhausted() && draw(avg + 1) != 0;
    }
    // Weighted choice, index 0 is the simplest.
    size_t weighted(const unsigned* w, size_t n) {
        uint64_t sum = 0;
        for (size_t i = 0; i < n; i++)
            sum += w[i];
        uint64_t v = draw(sum);
        for (size_t i = 0; i < n; i++) {
            if (v < w[i])
                return i;
            v -= w[i];
        }
        return 0;
    }
    template <size_t N>
    size_t weighted(const unsigned (&w)[N]) {
        return weighted(w, N);
    }
    // Values spread over magnitudes, with the neighbourhoods of powers of two over-represented.
    uint64_t uint(unsigned bits) {
        uint64_t mask = bits >= 64 ? ~uint64_t(0) : (uint64_t(1) << bits) - 1;
        switch (draw(8)) {
            case 0:
                return draw(20) & mask;
            case 1:
            case 2: {
                unsigned sh = unsigned(draw(bits));
                uint64_t v = uint64_t(1) << sh;
                return (v + draw(5) - 2) & mask;
            }
            case 3:
                return (mask - draw(20)) & mask;
            case 4:
            case 5: {
                unsigned n = unsigned(draw(bits)) + 1;
                uint64_t m = n >= 64 ? ~uint64_t(0) : (uint64_t(1) << n) - 1;
                return draw(0) & m & mask;
            }
            case 6: {
                uint64_t v = uint64_t(1) << draw(bits);
                v |= uint64_t(1) << draw(bits);
                v |= uint64_t(1) << draw(bits);
                return v & mask;
            }
            default:
                return draw(0) & mask;
        }
    }
    // A size in [0, max], usually small.
    size_t size(size_t max) {
        size_t m;
        switch (draw(4)) {
            case 0:
                m = 4;
                break;
            case 1:
                m = 16;
                break;
            case 2:
                m = 80;
                break;
            default:
                m = max;
        }
        if (m > max)
            m = max;
        return size_t(draw(m + 1));
    }

    void mark(const char* label) {
        Shared* s = g_sh;
        for (uint32_t i = 0; i < s->nlabels; i++) {
            if (s->labels[i].key == label || !strcmp(s->labels[i].name, label)) {
                s->labels[i].count++;
                return;
            }
        }
        if (s->nlabels < kMaxLabels) {
            Label& l = s->labels[s->nlabels];
            snprintf(l.name, sizeof(l.name), "%s", label);
            l.key = label;
            l.count = 1;
            s->nlabels = s->nlabels + 1;
        }
    }
    // The case exercised what the property is about (by the rule the harness documents).
    void nontrivial() {
        nontrivial_ = true;
    }
    bool is_nontrivial() const {
        return nontrivial_;
    }
    uint64_t hash() const {
        return h_;
    }

  private:
    void begin() {
        pos_ = 0;
        bpos_ = 0;
        nontrivial_ = false;
        h_ = 1469598103934665603ULL;
        g_sh->nchoices = 0;
        g_sh->overflowed = 0;
        g_sh->msg[0] = 0;
        g_sh->loglen = 0;
        g_sh->log[0] = 0;
    }
    uint64_t next() {
        // xorshift128+
        uint64_t x = a_, y = b_;
        a_ = y;
        x ^= x << 23;
        b_ = x ^ y ^ (x >> 17) ^ (y >> 26);
        return b_ + y;
    }

  private:
    Mode mode_;
    uint64_t a_, b_;
    const uint64_t* in_ = nullptr;
    size_t nin_ = 0;
    const uint8_t* bytes_ = nullptr;
    size_t nbytes_ = 0, bpos_ = 0;
    size_t pos_ = 0;
    uint64_t h_ = 0;
    bool nontrivial_ = false;
};

// Describe the case in words (kept only when a case is being described or replayed).
__attribute__((format(printf, 1, 2))) static inline void
Logf(const char* fmt, ...) {
    if (!g_describe)
        return;
    va_list ap;
    va_start(ap, fmt);
    uint32_t n = g_sh->loglen;
    if (n + 512 < kLogSize) {
        int k = vsnprintf(g_sh->log + n, kLogSize - n - 1, fmt, ap);
        if (k > 0) {
            n += uint32_t(k);
            if (n > kLogSize - 2)
                n = kLogSize - 2;
            g_sh->loglen = n;
        }
    }
    va_end(ap);
}
#define VP_LOG(...)                  \
    do {                             \
        if (::vp::g_describe)        \
            ::vp::Logf(__VA_ARGS__); \
    } while (0)

// printable form of arbitrary bytes (describe mode only; rotating static buffers)
static inline const char*
Quote(const char* p, size_t n) {
    static char bufs[8][600];
    static int which = 0;
    char* b = bufs[which = (which + 1) & 7];
    size_t o = 0;
    b[o++] = '"';
    for (size_t i = 0; i < n && o < 580; i++) {
        unsigned char c = (unsigned char)p[i];
        if (c >= 32 && c < 127 && c != '"' && c != '\\') {
            b[o++] = char(c);
        } else {
            snprintf(b + o, 6, "\\x%02x", c);
            o += 4;
        }
    }
    b[o++] = '"';
    if (n > 580)
        b[o++] = '~';
    b[o] = 0;
    return b;
}

// --- allocation accounting (through the sanitizer's malloc hooks) -------------------------------

static volatile long g_live_blocks = 0;
static volatile unsigned long g_total_mallocs = 0;

#ifdef VP_ASAN
extern "C" int __sanitizer_install_malloc_and_free_hooks(
    void (*malloc_hook)(const volatile void*, size_t), void (*free_hook)(const volatile void*));
extern "C" void* __asan_region_is_poisoned(void* beg, size_t size);
static void
HookMalloc(const volatile void* p, size_t) {
    if (p) {
        __atomic_fetch_add(&g_live_blocks, 1, __ATOMIC_RELAXED);
        __atomic_fetch_add(&g_total_mallocs, 1, __ATOMIC_RELAXED);
    }
}
static void
HookFree(const volatile void* p) {
    if (p)
        __atomic_fetch_sub(&g_live_blocks, 1, __ATOMIC_RELAXED);
}
#endif

// Number of heap blocks allocated so far (0 without ASan).
static inline unsigned long
Mallocs() {
    return g_total_mallocs;
}

// --- target registry ----------------------------------------------------------------------------

typedef void (*TargetFn)(Src& s);

enum Flags {
    kLeakCheck = 1,   // the case must return every heap block it allocated
    kFinding = 2,     // a known finding: one deterministic case, expected to fail when listed
};

struct Target {
    const char* name;
    TargetFn fn;
    uint64_t quick;     // cases in the quick tier
    uint64_t thorough;  // cases in the thorough tier
    unsigned flags;
    const char* text;
};

static Target g_targets[64];
static size_t g_ntargets = 0;

struct Registrar {
    Registrar(const char* name, TargetFn fn, uint64_t quick, uint64_t thorough, unsigned flags,
              const char* text = "") {
        g_targets[g_ntargets++] = Target{name, fn, quick, thorough, flags, text};
    }
};

#define VP_TARGET(name, quick, thorough, flags)                                          \
    static void name(::vp::Src& s);                                                      \
    static ::vp::Registrar vp_reg_##name(#name, name, quick, thorough, flags);           \
    static void name(::vp::Src& s)

// A known finding: the body must VP_CHECK-fail (or crash) while the defect exists.
#define VP_FINDING(name, text)                                                           \
    static void name(::vp::Src& s);                                                      \
    static ::vp::Registrar vp_reg_##name(#name, name, 1, 1, ::vp::kFinding, text);       \
    static void name(::vp::Src& s)

// Optional per-process set-up, called in every worker before its first case.
static void (*g_worker_setup)() = nullptr;

// --- running one case ---------------------------------------------------------------------------

static double g_cpu_limit = 20.0;
static double g_wall_limit = 150.0;

static inline double
Now() {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return double(ts.tv_sec) + double(ts.tv_nsec) * 1e-9;
}

static void
ArmCpu(double sec) {
    struct itimerval it;
    memset(&it, 0, sizeof(it));
    it.it_value.tv_sec = long(sec);
    it.it_value.tv_usec = long((sec - double(long(sec))) * 1e6);
    setitimer(ITIMER_PROF, &it, nullptr);
}

static Src g_src;

static void
RunBody(const Target& t) {
    t.fn(g_src);
}

// Runs the case that g_src was started with; |again| restarts g_src identically.
template <typename Restart>
static void
RunCase(const Target& t, Restart again) {
    long before = g_live_blocks;
    again();
    RunBody(t);
#ifdef VP_ASAN
    if ((t.flags & kLeakCheck) && g_live_blocks != before) {
        // One-time initialisation inside libc does not repeat; a leak does.
        bool saved = g_describe;
        bool nt = g_src.is_nontrivial();
        uint64_t h = g_src.hash();
        long delta = 0;
        for (int i = 0; i < 2; i++) {
            g_describe = false;
            long b = g_live_blocks;
            again();
            RunBody(t);
            delta = g_live_blocks - b;
            if (!delta)
                break;
        }
        g_describe = saved;
        (void)nt;
        (void)h;
        if (delta)
            Fail("leak: %ld heap block(s) still allocated after the case", delta);
    }
#else
    (void)before;
#endif
}

static uint64_t
CaseSeed(uint64_t seed, size_t target, uint64_t index) {
    uint64_t x = seed * 0x9e3779b97f4a7c15ULL + 0x1234567;
    const char* n = g_targets[target].name;
    for (; *n; n++)
        x = (x ^ uint64_t((unsigned char)*n)) * 1099511628211ULL;
    x ^= index * 0xD6E8FEB86659FD93ULL;
    uint64_t y = x;
    return splitmix(y);
}

static Shared*
MapShared(size_t hashes) {
    size_t sz = sizeof(Shared) + hashes * sizeof(uint64_t);
    void* p = mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE,
                   -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        exit(2);
    }
    Shared* s = (Shared*)p;
    s->hash_cap = hashes;
    return s;
}

#ifndef VP_LIBFUZZER

static char g_tmpdir[256] = "/tmp";

static void
ChildCommon(const char* errfile) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    int fd = open(errfile, O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd >= 0) {
        dup2(fd, 2);
        close(fd);
    }
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    if (g_worker_setup)
        g_worker_setup();
}

static void
ErrPath(char* out, size_t n, const char* tag, int w) {
    snprintf(out, n, "%s/err.%d.%s.%d", g_tmpdir, int(getpid()), tag, w);
}

// Why did the child die?  Reads its captured stderr for sanitizer or assert text.
static void
Diagnose(int status, const char* errfile, Shared* sh, char* out, size_t n) {
    if (WIFEXITED(status) && WEXITSTATUS(status) == kExitFail) {
        snprintf(out, n, "%s", sh->msg);
        return;
    }
    char line[1024];
    FILE* f = fopen(errfile, "r");
    char best[1024] = "";
    while (f && fgets(line, sizeof(line), f)) {
        if (strstr(line, "ERROR: AddressSanitizer") || strstr(line, "runtime error:") ||
            strstr(line, "Assertion") || strstr(line, "OUT OF MEMORY") || strstr(line, "VP:"))
        {
            line[strcspn(line, "\n")] = 0;
            snprintf(best, sizeof(best), "%.*s", 900, line);
            break;
        }
    }
    if (f)
        fclose(f);
    if (WIFSIGNALED(status)) {
        if (WTERMSIG(status) == SIGPROF)
            snprintf(out, n, "hang: the case used more CPU time than its limit");
        else if (WTERMSIG(status) == SIGKILL && sh->msg[0])
            snprintf(out, n, "%s", sh->msg);
        else
            snprintf(out, n, "killed by signal %d (%s) %s", WTERMSIG(status),
                     strsignal(WTERMSIG(status)), best);
    } else {
        snprintf(out, n, "exit status %d: %s", WEXITSTATUS(status), best);
    }
}

// Run one recorded sequence in a child.  Returns true if it fails; fills |msg|, leaves the consumed
// choices and the log in |sh|.
static bool
RunChoices(size_t target, const uint64_t* c, size_t n, Shared* sh, bool describe, double cpu,
           double wall, char* msg, size_t msgn) {
    fflush(stdout);
    fflush(stderr);
    char errfile[400];
    ErrPath(errfile, sizeof(errfile), "s", 0);
    pid_t pid = fork();
    if (pid < 0)
        return false;
    if (pid == 0) {
        g_sh = sh;
        g_describe = describe;
        setpgid(0, 0);
        ChildCommon(errfile);
        ArmCpu(cpu);
        RunCase(g_targets[target], [&] { g_src.start_replay(c, n); });
        _exit(0);
    }
    double t0 = Now();
    int status = 0;
    bool killed = false;
    useconds_t nap = 200;
    for (;;) {
        pid_t r = waitpid(pid, &status, WNOHANG);
        if (r == pid)
            break;
        if (Now() - t0 > wall) {
            kill(-pid, SIGKILL);
            kill(pid, SIGKILL);
            killed = true;
            waitpid(pid, &status, 0);
            break;
        }
        usleep(nap);
        if (nap < 5000)
            nap += nap / 4;
    }
    bool failed = !(WIFEXITED(status) && WEXITSTATUS(status) == 0);
    if (failed) {
        if (killed)
            snprintf(msg, msgn, "hang: the case did not finish within its wall-clock limit");
        else
            Diagnose(status, errfile, sh, msg, msgn);
    }
    kill(-pid, SIGKILL);
    unlink(errfile);
    return failed;
}

struct Seq {
    uint64_t* c;
    size_t n;
};

static size_t
Shrink(size_t target, Seq& best, Shared* sh, char* msg, size_t msgn) {
    double t0 = Now();
    const double budget = 45.0;
    bool hang = !strncmp(msg, "hang", 4);
    double cpu = hang ? 4.0 : 10.0, wall = hang ? 8.0 : 30.0;
    size_t runs = 0;
    uint64_t* cand = (uint64_t*)malloc(kMaxChoices * sizeof(uint64_t));
    char* m2 = (char*)malloc(msgn);
    auto attempt = [&](size_t n) -> bool {
        if (Now() - t0 > budget || runs > 4000)
            return false;
        runs++;
        if (!RunChoices(target, cand, n, sh, false, cpu, wall, m2, msgn))
            return false;
        // Keep what was really consumed, if that is no longer than the candidate.
        size_t used = sh->nchoices;
        if (used > n)
            used = n;
        memcpy(best.c, cand, used * sizeof(uint64_t));
        best.n = used;
        snprintf(msg, msgn, "%s", m2);
        return true;
    };
    bool improved = true;
    while (improved && Now() - t0 < budget && runs < 4000) {
        improved = false;
        // Truncate.
        for (size_t len = 0; len < best.n;) {
            memcpy(cand, best.c, len * sizeof(uint64_t));
            if (attempt(len)) {
                improved = true;
                break;
            }
            size_t next = len ? len * 2 : 1;
            if (next >= best.n)
                break;
            len = next;
        }
        // Delete spans.
        for (size_t span = best.n / 2; span >= 1; span = span > 8 ? span / 2 : span - 1) {
            for (size_t at = best.n >= span ? best.n - span : 0;;) {
                if (at + span <= best.n) {
                    memcpy(cand, best.c, at * sizeof(uint64_t));
                    memcpy(cand + at, best.c + at + span,
                           (best.n - at - span) * sizeof(uint64_t));
                    if (attempt(best.n - span))
                        improved = true;
                }
                if (at == 0 || Now() - t0 > budget)
                    break;
                at = at > span ? at - span : 0;
                if (at + span > best.n && best.n >= span)
                    at = best.n - span;
            }
            if (Now() - t0 > budget)
                break;
        }
        // Lower values.
        for (size_t i = 0; i < best.n && Now() - t0 < budget; i++) {
            if (best.c[i] == 0)
                continue;
            memcpy(cand, best.c, best.n * sizeof(uint64_t));
            cand[i] = 0;
            if (attempt(best.n)) {
                improved = true;
                continue;
            }
            uint64_t lo = 0;
            while (i < best.n && best.c[i] - lo > 1 && Now() - t0 < budget) {
                uint64_t mid = lo + (best.c[i] - lo) / 2;
                memcpy(cand, best.c, best.n * sizeof(uint64_t));
                cand[i] = mid;
                if (attempt(best.n))
                    improved = true;
                else
                    lo = mid;
            }
        }
    }
    free(cand);
    free(m2);
    return runs;
}

static void
JsonStr(FILE* f, const char* s) {
    fputc('"', f);
    for (; *s; s++) {
        unsigned char c = (unsigned char)*s;
        if (c == '"' || c == '\\')
            fprintf(f, "\\%c", c);
        else if (c < 32 || c >= 127)
            fprintf(f, "\\u%04x", c);
        else
            fputc(c, f);
    }
    fputc('"', f);
}

struct Options {
    uint64_t seed = 1;
    const char* only = nullptr;
    bool thorough = false;
    int workers = 4;
    double scale = 1.0;
    double time_cap = 300;
    const char* out = nullptr;
    const char* replay_dir = ".";
    const char* property = "X";
    const char* known = "";
    bool list_only = false;
    bool no_shrink = false;
};

static bool
InList(const char* list, const char* name) {
    size_t n = strlen(name);
    for (const char* p = list; (p = strstr(p, name)); p += n) {
        if ((p == list || p[-1] == ',') && (p[n] == ',' || !p[n]))
            return true;
    }
    return false;
}

static bool
WriteReplay(const Options& o, size_t target, const Seq& q, const char* msg, const char* log,
            uint64_t index, char* path, size_t pathn) {
    snprintf(path, pathn, "%s/%s-%s-%s.replay", o.replay_dir, o.property, g_targets[target].name,
             VP_CONFIG);
    FILE* f = fopen(path, "w");
    if (!f)
        return false;
    fprintf(f, "property=%s\nconfig=%s\ntarget=%s\nseed=%" PRIu64 "\ncase=%" PRIu64 "\n", o.property,
            VP_CONFIG, g_targets[target].name, o.seed, index);
    char m[4096];
    snprintf(m, sizeof(m), "%s", msg);
    for (char* p = m; *p; p++)
        if (*p == '\n')
            *p = ' ';
    fprintf(f, "message=%s\nchoices=", m);
    for (size_t i = 0; i < q.n; i++)
        fprintf(f, "%s%" PRIu64, i ? "," : "", q.c[i]);
    fprintf(f, "\n---\n%s\n", log);
    fclose(f);
    return true;
}

// A failure that does not repeat in isolation may need what earlier cases of the same process left
// behind.  Runs cases start, start+stride, .. up to |index| in one fresh child; true if it fails.
static bool
RunRange(const Options& o, size_t target, uint64_t start, uint64_t stride, uint64_t index, char* msg, size_t msgn) {
    Shared* sh = MapShared(1);
    char errfile[400];
    ErrPath(errfile, sizeof(errfile), "r", 0);
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        g_sh = sh;
        ChildCommon(errfile);
        for (uint64_t i = start; i <= index; i += stride) {
            ArmCpu(g_cpu_limit);
            uint64_t seed = CaseSeed(o.seed, target, i);
            RunCase(g_targets[target], [&] { g_src.start_random(seed); });
        }
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    bool failed = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    if (failed)
        Diagnose(st, errfile, sh, msg, msgn);
    unlink(errfile);
    munmap(sh, sizeof(Shared));
    return failed;
}

// Shrinks, confirms and reports a failing sequence.  Returns true if it is a confirmed violation.
static bool
ReportFailure(const Options& o, size_t target, Seq q, const char* first_msg, uint64_t index,
              char* out_msg, size_t out_n, uint64_t start = 0, uint64_t stride = 0) {
    Shared* sh = MapShared(1);
    char* msg = (char*)malloc(8192);
    snprintf(msg, 8192, "%s", first_msg);
    // Confirm before shrinking: three runs must fail.
    int fails = 0;
    for (int i = 0; i < 3; i++)
        fails += RunChoices(target, q.c, q.n, sh, false, g_cpu_limit, g_wall_limit, msg, 8192);
    if (fails < 3 && stride && RunRange(o, target, start, stride, index, msg, 8192) &&
        RunRange(o, target, start, stride, index, msg, 8192))
    {
        char path[700];
        snprintf(path, sizeof(path), "%s/%s-%s-%s.replay", o.replay_dir, o.property, g_targets[target].name,
                 VP_CONFIG);
        FILE* f = fopen(path, "w");
        if (f) {
            fprintf(f, "property=%s\nconfig=%s\ntarget=%s\nseed=%" PRIu64 "\nmessage=%s\nrange=%" PRIu64 ",%" PRIu64
                       ",%" PRIu64 "\n---\n",
                    o.property, VP_CONFIG, g_targets[target].name, o.seed, msg, start, stride, index);
            fclose(f);
        }
        printf("FAILED property=%s config=%s target=%s case=%" PRIu64 " (only after earlier cases of the same process)\n  %s\n",
               o.property, VP_CONFIG, g_targets[target].name, index, msg);
        printf("VIOLATION property=%s replay=%s\n", o.property, path);
        fflush(stdout);
        munmap(sh, sizeof(Shared));
        free(msg);
        return true;
    }
    if (fails < 3) {
        fprintf(stdout,
                "NOTE: target %s case %" PRIu64 " failed once (%s) but only %d of 3 replays failed; "
                "not reported\n",
                g_targets[target].name, index, first_msg, fails);
        munmap(sh, sizeof(Shared));
        free(msg);
        return false;
    }
    Seq orig;
    orig.n = q.n;
    orig.c = (uint64_t*)malloc((q.n + 1) * sizeof(uint64_t));
    memcpy(orig.c, q.c, q.n * sizeof(uint64_t));
    size_t runs = o.no_shrink ? 0 : Shrink(target, q, sh, msg, 8192);
    fails = 0;
    for (int i = 0; i < 3; i++)
        fails += RunChoices(target, q.c, q.n, sh, true, g_cpu_limit, g_wall_limit, msg, 8192);
    if (fails < 3) {
        // The shrunk form is not stable; fall back to the original.
        q.n = orig.n;
        memcpy(q.c, orig.c, orig.n * sizeof(uint64_t));
        RunChoices(target, q.c, q.n, sh, true, g_cpu_limit, g_wall_limit, msg, 8192);
    }
    char path[700];
    WriteReplay(o, target, q, msg, sh->log, index, path, sizeof(path));
    printf("FAILED property=%s config=%s target=%s case=%" PRIu64 " (shrunk to %zu choices in %zu runs)\n  %s\n",
           o.property, VP_CONFIG, g_targets[target].name, index, q.n, runs, msg);
    printf("VIOLATION property=%s replay=%s\n", o.property, path);
    fflush(stdout);
    snprintf(out_msg, out_n, "%s", msg);
    munmap(sh, sizeof(Shared));
    free(msg);
    free(orig.c);
    return true;
}

static int
CmpU64(const void* a, const void* b) {
    uint64_t x = *(const uint64_t*)a, y = *(const uint64_t*)b;
    return x < y ? -1 : x > y;
}

static int
RunAll(Options o) {
    double t_start = Now();
    FILE* out = o.out ? fopen(o.out, "w") : nullptr;
    if (out)
        fprintf(out, "{\"config\":\"%s\",\"targets\":[", VP_CONFIG);
    bool first = true;
    int violations = 0;
    for (size_t ti = 0; ti < g_ntargets; ti++) {
        Target& t = g_targets[ti];
        if (o.only && strcmp(o.only, t.name))
            continue;
        double tt0 = Now();
        if (t.flags & kFinding) {
            Shared* sh = MapShared(1);
            char msg[8192];
            uint64_t zero[1] = {0};
            bool failed = RunChoices(ti, zero, 0, sh, true, g_cpu_limit, g_wall_limit, msg, sizeof(msg));
            bool known = InList(o.known, t.name);
            if (failed && known) {
                printf("KNOWN-FINDING: property=%s %s: %s\n", o.property, t.name, t.text);
            } else if (failed) {
                Seq q = {zero, 0};
                char path[700];
                WriteReplay(o, ti, q, msg, sh->log, 0, path, sizeof(path));
                printf("FAILED property=%s config=%s finding=%s: %s\n", o.property, VP_CONFIG, t.name, msg);
                printf("VIOLATION property=%s replay=%s\n", o.property, path);
                violations++;
            }
            if (out) {
                fprintf(out, "%s{\"name\":\"%s\",\"kind\":\"finding\",\"still_fails\":%s,\"evaluations\":1,"
                             "\"nontrivial\":0,\"distinct\":0,\"labels\":{},\"samples\":[]}",
                        first ? "" : ",", t.name, failed ? "true" : "false");
                first = false;
            }
            munmap(sh, sizeof(Shared));
            continue;
        }
        uint64_t ncases = uint64_t(double(o.thorough ? t.thorough : t.quick) * o.scale);
        if (ncases < 1)
            ncases = 1;
        int W = o.workers;
        if (uint64_t(W) > ncases)
            W = int(ncases);
        Shared* sh[64];
        pid_t pid[64];
        size_t hcap = size_t(ncases / uint64_t(W) + 2);
        if (hcap > 4000000)
            hcap = 4000000;
        fflush(stdout);
        fflush(stderr);
        if (out)
            fflush(out);
        double deadline = t_start + o.time_cap;
        for (int w = 0; w < W; w++) {
            sh[w] = MapShared(hcap);
            char errfile[400];
            ErrPath(errfile, sizeof(errfile), "w", w);
            pid[w] = fork();
            if (pid[w] == 0) {
                setpgid(0, 0);
                g_sh = sh[w];
                ChildCommon(errfile);
                for (uint64_t i = uint64_t(w); i < ncases; i += uint64_t(W)) {
                    g_sh->case_index = i;
                    g_sh->beat = g_sh->beat + 1;
                    ArmCpu(g_cpu_limit);
                    uint64_t seed = CaseSeed(o.seed, ti, i);
                    RunCase(t, [&] { g_src.start_random(seed); });
                    g_sh->evals = g_sh->evals + 1;
                    if (g_src.is_nontrivial()) {
                        g_sh->nontrivial = g_sh->nontrivial + 1;
                        if (g_sh->nhashes < g_sh->hash_cap) {
                            g_sh->hashes[g_sh->nhashes] = g_src.hash();
                            g_sh->nhashes = g_sh->nhashes + 1;
                        }
                        if (g_sh->nsamples < 2) {
                            g_sh->samples[g_sh->nsamples] = i;
                            g_sh->nsamples = g_sh->nsamples + 1;
                        }
                    }
                    if ((g_sh->evals & 31) == 0 && Now() > deadline)
                        break;
                }
                g_sh->done = 1;
                _exit(0);
            }
        }
        // Wait; on the first failure stop the rest.
        int left = W, failw = -1;
        int fstatus = 0;
        bool wallhang = false;
        uint64_t beats[64];
        double btime[64];
        for (int w = 0; w < W; w++) {
            beats[w] = 0;
            btime[w] = Now();
        }
        bool alive[64];
        for (int w = 0; w < W; w++)
            alive[w] = true;
        while (left > 0) {
            bool any = false;
            for (int w = 0; w < W; w++) {
                if (!alive[w])
                    continue;
                int st;
                pid_t r = waitpid(pid[w], &st, WNOHANG);
                if (r == pid[w]) {
                    alive[w] = false;
                    left--;
                    any = true;
                    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh[w]->done)) {
                        if (failw < 0) {
                            failw = w;
                            fstatus = st;
                        }
                    }
                } else {
                    if (sh[w]->beat != beats[w]) {
                        beats[w] = sh[w]->beat;
                        btime[w] = Now();
                    } else if (Now() - btime[w] > g_wall_limit) {
                        kill(pid[w], SIGKILL);
                        if (failw < 0) {
                            failw = w;
                            wallhang = true;
                            waitpid(pid[w], &st, 0);
                            fstatus = st;
                            alive[w] = false;
                            left--;
                        }
                    }
                }
            }
            if (failw >= 0) {
                for (int w = 0; w < W; w++) {
                    kill(-pid[w], SIGKILL);
                    if (alive[w]) {
                        kill(pid[w], SIGKILL);
                        waitpid(pid[w], nullptr, 0);
                        alive[w] = false;
                        left--;
                    }
                }
                break;
            }
            if (!any)
                usleep(2000);
        }
        bool violated = false;
        char vmsg[4096] = "";
        if (failw >= 0) {
            char errfile[400];
            ErrPath(errfile, sizeof(errfile), "w", failw);
            char msg[8192];
            if (wallhang)
                snprintf(msg, sizeof(msg), "hang: the case did not finish within its wall-clock limit");
            else
                Diagnose(fstatus, errfile, sh[failw], msg, sizeof(msg));
            Seq q;
            q.n = sh[failw]->nchoices;
            q.c = (uint64_t*)malloc(kMaxChoices * sizeof(uint64_t));
            memcpy(q.c, sh[failw]->choices, q.n * sizeof(uint64_t));
            violated = ReportFailure(o, ti, q, msg, sh[failw]->case_index, vmsg, sizeof(vmsg),
                                     uint64_t(failw), uint64_t(W));
            free(q.c);
            if (violated)
                violations++;
        }
        uint64_t evals = 0, nt = 0;
        size_t nh = 0;
        for (int w = 0; w < W; w++) {
            evals += sh[w]->evals;
            nt += sh[w]->nontrivial;
            nh += sh[w]->nhashes;
        }
        uint64_t* all = (uint64_t*)malloc((nh + 1) * sizeof(uint64_t));
        size_t k = 0;
        for (int w = 0; w < W; w++) {
            memcpy(all + k, sh[w]->hashes, sh[w]->nhashes * sizeof(uint64_t));
            k += sh[w]->nhashes;
        }
        qsort(all, k, sizeof(uint64_t), CmpU64);
        uint64_t distinct = 0;
        for (size_t i = 0; i < k; i++)
            if (i == 0 || all[i] != all[i - 1])
                distinct++;
        free(all);
        if (out) {
            fprintf(out,
                    "%s{\"name\":\"%s\",\"kind\":\"property\",\"planned\":%" PRIu64 ",\"evaluations\":%" PRIu64
                    ",\"nontrivial\":%" PRIu64 ",\"distinct\":%" PRIu64 ",\"seconds\":%.2f,\"violated\":%s",
                    first ? "" : ",", t.name, ncases, evals, nt, distinct, Now() - tt0,
                    violated ? "true" : "false");
            first = false;
            // Merge labels.
            fprintf(out, ",\"labels\":{");
            bool fl = true;
            for (int w = 0; w < W; w++) {
                for (uint32_t i = 0; i < sh[w]->nlabels; i++) {
                    Label& l = sh[w]->labels[i];
                    if (!l.name[0])
                        continue;
                    uint64_t sum = l.count;
                    for (int v = w + 1; v < W; v++) {
                        for (uint32_t j = 0; j < sh[v]->nlabels; j++) {
                            if (!strcmp(sh[v]->labels[j].name, l.name)) {
                                sum += sh[v]->labels[j].count;
                                sh[v]->labels[j].name[0] = 0;
                            }
                        }
                    }
                    fprintf(out, "%s\"%s\":%" PRIu64, fl ? "" : ",", l.name, sum);
                    fl = false;
                }
            }
            fprintf(out, "},\"samples\":[");
            int ns = 0;
            for (int w = 0; w < W && ns < 3 && failw < 0; w++) {
                for (uint32_t i = 0; i < sh[w]->nsamples && ns < 3; i++) {
                    // Re-run the sampled case with description on.
                    Shared* d = MapShared(1);
                    uint64_t seed = CaseSeed(o.seed, ti, sh[w]->samples[i]);
                    char errfile[400];
                    ErrPath(errfile, sizeof(errfile), "d", w);
                    fflush(out);
                    fflush(stdout);
                    pid_t p = fork();
                    if (p == 0) {
                        g_sh = d;
                        g_describe = true;
                        ChildCommon(errfile);
                        ArmCpu(g_cpu_limit);
                        g_src.start_random(seed);
                        RunBody(t);
                        _exit(0);
                    }
                    waitpid(p, nullptr, 0);
                    unlink(errfile);
                    d->log[d->loglen < 1500 ? d->loglen : 1500] = 0;
                    fprintf(out, "%s", ns ? "," : "");
                    JsonStr(out, d->log);
                    ns++;
                    munmap(d, sizeof(Shared));
                }
            }
            fprintf(out, "]}");
        }
        for (int w = 0; w < W; w++) {
            char errfile[400];
            ErrPath(errfile, sizeof(errfile), "w", w);
            unlink(errfile);
            munmap(sh[w], sizeof(Shared) + sh[w]->hash_cap * sizeof(uint64_t));
        }
        if (g_verbose)
            fprintf(stderr, "%-28s %10" PRIu64 " cases %10" PRIu64 " nontrivial %10" PRIu64 " distinct  %.1fs\n",
                    t.name, evals, nt, distinct, Now() - tt0);
        if (violated)
            break;
    }
    if (out) {
        fprintf(out, "],\"violations\":%d,\"wall_s\":%.2f}\n", violations, Now() - t_start);
        fclose(out);
    }
    return violations ? 1 : 0;
}

static int
Replay(const char* file, bool bytes, const char* target_name, Options o) {
    Seq q;
    q.n = 0;
    q.c = (uint64_t*)malloc(kMaxChoices * sizeof(uint64_t));
    size_t ti = g_ntargets;
    auto find = [&](const char* n) {
        for (size_t i = 0; i < g_ntargets; i++)
            if (!strcmp(g_targets[i].name, n))
                ti = i;
    };
    Shared* sh = MapShared(1);
    if (bytes) {
        find(target_name);
        if (ti == g_ntargets)
            return 2;
        // Run the bytes once in a child to record the choices they stand for.
        static uint8_t buf[1 << 20];
        FILE* f = fopen(file, "rb");
        if (!f)
            return 2;
        size_t n = fread(buf, 1, sizeof(buf), f);
        fclose(f);
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            g_sh = sh;
            char errfile[400];
            ErrPath(errfile, sizeof(errfile), "b", 0);
            ChildCommon(errfile);
            ArmCpu(g_cpu_limit);
            RunCase(g_targets[ti], [&] { g_src.start_bytes(buf, n); });
            _exit(0);
        }
        int st;
        waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
            return 0;
        q.n = sh->nchoices;
        memcpy(q.c, sh->choices, q.n * sizeof(uint64_t));
        char m[4096];
        return ReportFailure(o, ti, q, "found by libFuzzer", 0, m, sizeof(m)) ? 1 : 0;
    }
    FILE* f = fopen(file, "r");
    if (!f) {
        perror(file);
        return 2;
    }
    static char line[1 << 22];
    while (fgets(line, sizeof(line), f)) {
        line[strcspn(line, "\n")] = 0;
        if (!strncmp(line, "target=", 7))
            find(line + 7);
        else if (!strncmp(line, "choices=", 8)) {
            char* p = line + 8;
            while (*p) {
                q.c[q.n++] = strtoull(p, &p, 10);
                if (*p == ',')
                    p++;
            }
        } else if (!strncmp(line, "seed=", 5)) {
            o.seed = strtoull(line + 5, nullptr, 10);
        } else if (!strncmp(line, "range=", 6) && ti < g_ntargets) {
            uint64_t a = 0, b = 1, c = 0;
            sscanf(line + 6, "%" SCNu64 ",%" SCNu64 ",%" SCNu64, &a, &b, &c);
            char m[8192] = "";
            bool failed = RunRange(o, ti, a, b ? b : 1, c, m, sizeof(m));
            printf("target=%s config=%s: %s %s\n", g_targets[ti].name, VP_CONFIG, failed ? "FAILS" : "passes", m);
            fclose(f);
            return failed ? 1 : 0;
        } else if (!strcmp(line, "---"))
            break;
    }
    fclose(f);
    if (ti == g_ntargets) {
        fprintf(stderr, "unknown target in %s\n", file);
        return 2;
    }
    char msg[8192] = "";
    bool failed = RunChoices(ti, q.c, q.n, sh, true, g_cpu_limit, g_wall_limit, msg, sizeof(msg));
    printf("%s\n", sh->log);
    printf("target=%s config=%s: %s %s\n", g_targets[ti].name, VP_CONFIG, failed ? "FAILS" : "passes", msg);
    return failed ? 1 : 0;
}

#endif  // !VP_LIBFUZZER

}  // namespace vp

#ifdef VP_ASAN
extern "C" __attribute__((visibility("default"), used)) const char*
__asan_default_options() {
    return "exitcode=76:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:"
           "detect_stack_use_after_return=0:handle_abort=0:handle_sigfpe=0:print_legend=0:"
           "print_full_thread_history=0:color=never:quarantine_size_mb=8:"
           "allocator_release_to_os_interval_ms=-1:detect_odr_violation=0:malloc_context_size=6:"
           "max_malloc_fill_size=4096:malloc_fill_byte=190";
}
extern "C" __attribute__((visibility("default"), used)) const char*
__ubsan_default_options() {
    return "print_stacktrace=0:halt_on_error=1:color=never:exitcode=76";
}
#endif

#ifdef VP_LIBFUZZER
extern "C" int
LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
    using namespace vp;
    static size_t ti = size_t(-1);
    if (ti == size_t(-1)) {
        g_sh = MapShared(1);
        const char* n = getenv("VP_TARGET");
        for (size_t i = 0; i < g_ntargets; i++)
            if (n && !strcmp(n, g_targets[i].name))
                ti = i;
        if (ti == size_t(-1)) {
            fprintf(stderr, "VP_TARGET not set\n");
            exit(2);
        }
        if (g_worker_setup)
            g_worker_setup();
    }
    g_src.start_bytes(data, size);
    g_targets[ti].fn(g_src);
    return 0;
}
#else
int
main(int argc, char** argv) {
    using namespace vp;
    Options o;
    const char* mode = argc > 1 ? argv[1] : "run";
    const char* file = nullptr;
    for (int i = 2; i < argc; i++) {
        const char* a = argv[i];
        const char* v = i + 1 < argc ? argv[i + 1] : "";
        if (!strcmp(a, "--seed"))
            o.seed = strtoull(v, nullptr, 10), i++;
        else if (!strcmp(a, "--target"))
            o.only = v, i++;
        else if (!strcmp(a, "--thorough"))
            o.thorough = true;
        else if (!strcmp(a, "--workers"))
            o.workers = atoi(v), i++;
        else if (!strcmp(a, "--scale"))
            o.scale = atof(v), i++;
        else if (!strcmp(a, "--time-cap"))
            o.time_cap = atof(v), i++;
        else if (!strcmp(a, "--out"))
            o.out = v, i++;
        else if (!strcmp(a, "--replay-dir"))
            o.replay_dir = v, i++;
        else if (!strcmp(a, "--property"))
            o.property = v, i++;
        else if (!strcmp(a, "--known"))
            o.known = v, i++;
        else if (!strcmp(a, "--tmp"))
            snprintf(g_tmpdir, sizeof(g_tmpdir), "%s", v), i++;
        else if (!strcmp(a, "--no-shrink"))
            o.no_shrink = true;
        else if (!strcmp(a, "-v"))
            g_verbose = true;
        else
            file = a;
    }
    if (o.workers < 1)
        o.workers = 1;
    if (o.workers > 60)
        o.workers = 60;
#ifdef VP_ASAN
    __sanitizer_install_malloc_and_free_hooks(HookMalloc, HookFree);
#endif
    if (!strcmp(mode, "list")) {
        for (size_t i = 0; i < g_ntargets; i++)
            printf("%s\n", g_targets[i].name);
        return 0;
    }
    if (!strcmp(mode, "replay"))
        return Replay(file, false, nullptr, o);
    if (!strcmp(mode, "bytes"))
        return Replay(file, true, o.only, o);
    return RunAll(o);
}
#endif
