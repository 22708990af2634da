// C29: path, file and system-error helpers report what the system says, in bounds.
// Non-trivial: the text has a backslash or does not fit; the tree has a link or the directory call
// had to refuse; the message does not fit or the code is unknown.
#include "../engine/vp.h"

#include <algorithm>
#include <dirent.h>
#include <string>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <vector>

#include <amtl/os/am-fsutil.h>
#include <amtl/os/am-path.h>
#include <amtl/os/am-system-errors.h>

#include "common/fmt.h"
#include "common/sizes.h"

struct Guarded {
    // Without guards the sanitizer sees reads past either end as well.
    size_t kGuard;
    unsigned char kFill;
    std::unique_ptr<unsigned char[]> mem;
    size_t size;
    explicit Guarded(vp::Src& s, size_t n)
     : kGuard(s.draw(3) == 2 ? 0 : 24),
       kFill(s.draw(4) == 3 ? '\\' : 0xA5),
       mem(new unsigned char[n + 2 * kGuard]),
       size(n)
    {
        memset(mem.get(), kFill, n + 2 * kGuard);
    }
    char* p() {
        return (char*)mem.get() + kGuard;
    }
    void check(const char* what) {
        for (size_t i = 0; i < kGuard; i++)
            VP_CHECK(mem[i] == kFill && mem[kGuard + size + i] == kFill, "%s wrote outside the %zu-byte buffer", what,
                     size);
    }
};

// --- paths --------------------------------------------------------------------------------------

__attribute__((noinline)) static size_t
CallVa(char* b, size_t n, const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    size_t r = ke::path::FormatVa(b, n, f, ap);
    va_end(ap);
    return r;
}

VP_TARGET(Paths, 250000, 6000000, vp::kLeakCheck) {
    fmt::Format f;
    if (s.draw(500) == 499) {
        fmt::GenerateLong(s, f);
    } else if (s.coin()) {
        fmt::Generate(s, f, 100, false);
    } else {
        // Path-like: parts of names, separators and string arguments.
        static const char* const parts[] = {"\\", "/", "a", "dir", "..", ".", "\\\\", "C:", "file.txt", " "};
        auto piece = [&](size_t n) {
            std::string r;
            for (size_t i = 0; i < n; i++)
                r += parts[s.draw(10)];
            return r;
        };
        f.text = piece(s.draw(8));
        while (f.n < fmt::kMaxArgs && s.coin()) {
            std::string v = piece(s.draw(12));
            f.strings.emplace_back(new char[v.size() + 1]);
            memcpy(f.strings.back().get(), v.c_str(), v.size() + 1);
            f.args[f.n++].i = uint64_t(uintptr_t(f.strings.back().get()));
            f.text += "%s" + piece(s.draw(4));
        }
    }
    std::string full;
    if (!fmt::Reference(f, full))
        return;
    bool back = full.find('\\') != std::string::npos;
    std::replace(full.begin(), full.end(), '\\', '/');
    size_t size;
    switch (s.draw(3)) {
        case 0:
            size = s.draw(10);
            break;
        case 1:
            size = size_t(std::max<int64_t>(0, int64_t(full.size()) + s.irange(-2, 3)));
            break;
        default:
            size = full.size() + 1 + (s.draw(100) == 99 ? LargeSize(s, 100000) : s.draw(40));
    }
    if (back || size <= full.size())
        s.nontrivial();
    std::unique_ptr<char[]> format(new char[f.text.size() + 1]);
    memcpy(format.get(), f.text.c_str(), f.text.size() + 1);
    Guarded g(s, size);
    size_t ret = 0;
    bool va = s.coin();
    if (va)
        fmt::Apply(f, [&](auto... a) { ret = CallVa(g.p(), size, format.get(), a...); });
    else
        fmt::Apply(f, [&](auto... a) { ret = ke::path::Format(g.p(), size, format.get(), a...); });
    VP_LOG("Format(%zu bytes, %s) -> %s", size, vp::Quote(f.text.data(), f.text.size()),
           vp::Quote(full.data(), full.size()));
    g.check("path::Format");
    if (size == 0) {
        VP_CHECK(ret == 0, "formatting into zero bytes returned %zu", ret);
        return;
    }
    size_t want = std::min(full.size(), size - 1);
    VP_CHECK(ret == want, "returned %zu, expected %zu", ret, want);
    VP_CHECK(memcmp(g.p(), full.data(), want) == 0, "the path is %s, expected %s", vp::Quote(g.p(), want),
             vp::Quote(full.data(), want));
    VP_CHECK(g.p()[want] == 0, "no terminator");
}

// --- files --------------------------------------------------------------------------------------
// Everything happens below a scratch directory of this process, as an unprivileged user.

static void
EmptyDir(int fd) {
    DIR* d = fdopendir(fd);
    if (!d)
        return;
    while (struct dirent* e = readdir(d)) {
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, ".."))
            continue;
        if (unlinkat(dirfd(d), e->d_name, 0) == 0)
            continue;
        fchmodat(dirfd(d), e->d_name, 0700, 0);
        int sub = openat(dirfd(d), e->d_name, O_RDONLY | O_DIRECTORY | O_NOFOLLOW);
        if (sub >= 0)
            EmptyDir(sub);
        unlinkat(dirfd(d), e->d_name, AT_REMOVEDIR);
    }
    closedir(d);
}

static bool g_have_scratch = false;

static void
Setup() {
    char dir[400];
    snprintf(dir, sizeof(dir), "%s/fs.%d.XXXXXX", vp::g_tmpdir, int(getpid()));
    if (!mkdtemp(dir) || chdir(dir) != 0)
        return;
    if (getuid() == 0) {
        if (chown(".", 65534, 65534) != 0 || setgid(65534) != 0 || setuid(65534) != 0)
            return;
    }
    g_have_scratch = true;
}
static struct Init {
    Init() {
        vp::g_worker_setup = Setup;
    }
} g_init;

// What the file system says, through an opened path rather than stat.
enum Kind { kMissing, kFile, kDir, kOther };
static Kind
Look(const char* path) {
    int fd = open(path, O_PATH | O_CLOEXEC);
    if (fd < 0)
        return kMissing;
    struct stat st;
    int r = fstat(fd, &st);
    close(fd);
    if (r != 0)
        return kMissing;
    return S_ISREG(st.st_mode) ? kFile : S_ISDIR(st.st_mode) ? kDir : kOther;
}

static const char* const kNames[] = {"a", "b", "c", "dd"};

static std::string
SomePath(vp::Src& s) {
    std::string p;
    size_t depth = 1 + s.draw(3);
    for (size_t i = 0; i < depth; i++) {
        if (i)
            p += "/";
        unsigned k = unsigned(s.draw(12));
        if (k == 11)
            p += ".";
        else if (k == 10 && i)
            p += "..";
        else
            p += kNames[k & 3];
    }
    switch (s.draw(16)) {
        case 13:
            p += "/";
            break;
        case 14:
            p = "./" + p;
            break;
        case 15:
            switch (s.draw(4)) {
                case 0:
                    p = "";
                    break;
                case 1:
                    p += std::string(300, 'n');
                    break;
                case 2: {
                    // A long way to the same place, up to and beyond what the system takes.
                    static const size_t lens[] = {60, 120, 250, 1000, 2000, 4000};
                    size_t n = lens[s.draw(6)] + s.draw(110);
                    while (p.size() + 2 <= n)
                        p = (s.coin() ? "./" : ".//") + p;
                    break;
                }
                default:
                    p = p.substr(0, p.rfind('/') + 1) + std::string(240 + s.draw(20), 'n');
            }
            break;
        default:
            break;
    }
    // Never leave the scratch directory.
    int level = 0;
    std::string part;
    for (size_t i = 0; i <= p.size(); i++) {
        if (i == p.size() || p[i] == '/') {
            if (part == "..")
                level--;
            else if (!part.empty() && part != ".")
                level++;
            if (level < 0)
                return "a";
            part.clear();
        } else {
            part += p[i];
        }
    }
    return p;
}

VP_TARGET(Files, 12000, 300000, vp::kLeakCheck) {
    VP_CHECK(g_have_scratch, "harness: no scratch directory");
    EmptyDir(open(".", O_RDONLY | O_DIRECTORY));
    umask(022);
    bool interesting = false;
    size_t steps = 0;
    auto query = [&](const std::string& p) {
        Kind k = Look(p.c_str());
        bool ex = ke::file::PathExists(p.c_str()), f = ke::file::IsFile(p.c_str()),
             d = ke::file::IsDirectory(p.c_str());
        VP_LOG("query %s: %s\n", vp::Quote(p.data(), p.size()),
               k == kMissing ? "missing" : k == kFile ? "file" : k == kDir ? "directory" : "other");
        VP_CHECK(ex == (k != kMissing), "PathExists(%s) is %d", p.c_str(), ex);
        VP_CHECK(f == (k == kFile), "IsFile(%s) is %d", p.c_str(), f);
        VP_CHECK(d == (k == kDir), "IsDirectory(%s) is %d", p.c_str(), d);
    };
    while (steps++ < 40 && s.more(14)) {
        std::string p = SomePath(s);
        const char* c = p.c_str();
        static const unsigned w[] = {8, 5, 3, 4, 4, 2, 2, 1, 1};
        switch (s.weighted(w)) {
            case 0:
                query(p);
                break;
            case 1: {
                // CreateDirectory: it must succeed exactly when nothing is there and the parent is.
                static const unsigned masks[] = {022, 0, 077, 027};
                mode_t um = masks[s.draw(4)];
                bool dflt = s.draw(3) == 2;
                unsigned mode = dflt ? 0755 : s.coin() ? 0700 | unsigned(s.draw(0100)) : unsigned(s.draw(02000));
                std::string bare = p;
                while (!bare.empty() && bare.back() == '/')
                    bare.pop_back();
                size_t slash = bare.rfind('/');
                std::string parent = slash == std::string::npos ? "." : bare.substr(0, slash);
                std::string last = slash == std::string::npos ? bare : bare.substr(slash + 1);
                struct stat before, after;
                bool existed = fstatat(AT_FDCWD, bare.c_str(), &before, AT_SYMLINK_NOFOLLOW) == 0;
                bool parent_ok = Look(parent.c_str()) == kDir && faccessat(AT_FDCWD, parent.c_str(), W_OK | X_OK, AT_EACCESS) == 0;
                bool want = !existed && parent_ok && !last.empty() && last.size() <= 255 && p.size() < 4096;
                umask(um);
                bool ok = dflt ? ke::file::CreateDirectory(c) : ke::file::CreateDirectory(c, mode);
                umask(022);
                VP_LOG("CreateDirectory(%s, %o) with umask %o -> %d\n", vp::Quote(p.data(), p.size()), mode, unsigned(um), ok);
                VP_CHECK(ok == want, "CreateDirectory(%s) returned %d; it %s and its parent is %s", c, ok,
                         existed ? "existed" : "did not exist", parent_ok ? "a usable directory" : "not usable");
                bool exists = fstatat(AT_FDCWD, bare.c_str(), &after, AT_SYMLINK_NOFOLLOW) == 0;
                if (ok) {
                    VP_CHECK(exists && S_ISDIR(after.st_mode), "CreateDirectory(%s) made no directory", c);
                    VP_CHECK((after.st_mode & 01777) == (mode & ~um & 01777),
                             "CreateDirectory(%s, %o) under umask %o made mode %o", c, mode, unsigned(um),
                             unsigned(after.st_mode & 07777));
                } else {
                    interesting = true;
                    VP_CHECK(exists == existed, "a refused CreateDirectory(%s) changed the file system", c);
                    if (exists)
                        VP_CHECK(before.st_ino == after.st_ino && before.st_mode == after.st_mode,
                                 "a refused CreateDirectory(%s) changed what was there", c);
                }
                query(p);
                break;
            }
            case 2: {
                int fd = open(c, O_CREAT | O_EXCL | O_WRONLY, s.coin() ? 0644 : mode_t(s.draw(01000)));
                if (fd >= 0 && s.draw(8) == 7 && ftruncate(fd, (off_t(1) << (20 + s.draw(15))) + off_t(s.draw(3))) != 0)
                    s.mark("no sparse file");
                VP_LOG("make file %s: %d\n", vp::Quote(p.data(), p.size()), fd >= 0);
                if (fd >= 0) {
                    close(fd);
                    VP_CHECK(ke::file::IsFile(c) && !ke::file::IsDirectory(c), "a fresh file is not seen as one");
                }
                break;
            }
            case 3: {
                int r = mkdir(c, 0755);
                VP_LOG("make directory %s: %d\n", vp::Quote(p.data(), p.size()), r == 0);
                if (r == 0)
                    VP_CHECK(ke::file::IsDirectory(c) && !ke::file::IsFile(c), "a fresh directory is not seen as one");
                break;
            }
            case 4: {
                static const char* const targets[] = {"a", "b", "c", "dd", "a/b", "b/a", "../a", ".", "missing", "dd/c"};
                const char* t = targets[s.draw(10)];
                // Link targets are resolved below the scratch directory: a relative target with one
                // ".." is only made inside a subdirectory.
                if (t[0] == '.' && t[1] == '.' && p.find('/') == std::string::npos)
                    t = "a";
                int r = symlink(t, c);
                VP_LOG("link %s -> %s: %d\n", vp::Quote(p.data(), p.size()), t, r == 0);
                if (r == 0)
                    interesting = true;
                query(p);
                break;
            }
            case 5: {
                int r = mkfifo(c, 0644);
                VP_LOG("make fifo %s: %d\n", vp::Quote(p.data(), p.size()), r == 0);
                if (r == 0)
                    VP_CHECK(ke::file::PathExists(c) && !ke::file::IsFile(c) && !ke::file::IsDirectory(c),
                             "a fifo is seen as a file or directory, or not at all");
                break;
            }
            case 6: {
                int r = unlink(c);
                if (r != 0)
                    r = rmdir(c);
                VP_LOG("remove %s: %d\n", vp::Quote(p.data(), p.size()), r == 0);
                query(p);
                break;
            }
            case 7: {
                // A directory that cannot be searched hides what is in it.
                if (Look(c) == kDir && p.find("..") == std::string::npos && p != "." && p[0] != '.') {
                    int r = chmod(c, s.coin() ? 0 : 0755);
                    VP_LOG("change mode of %s: %d\n", vp::Quote(p.data(), p.size()), r == 0);
                }
                query(p + "/a");
                break;
            }
            default: {
                struct sockaddr_un sa;
                memset(&sa, 0, sizeof(sa));
                sa.sun_family = AF_UNIX;
                if (p.size() < sizeof(sa.sun_path) && !p.empty()) {
                    memcpy(sa.sun_path, c, p.size());
                    int fd = socket(AF_UNIX, SOCK_STREAM, 0);
                    int r = fd >= 0 ? bind(fd, (struct sockaddr*)&sa, sizeof(sa)) : -1;
                    if (fd >= 0)
                        close(fd);
                    VP_LOG("make socket %s: %d\n", vp::Quote(p.data(), p.size()), r == 0);
                }
                query(p);
            }
        }
    }
    for (int i = 0; i < 4; i++) {
        query(kNames[i]);
        query(std::string(kNames[i]) + "/");
    }
    // Entries of every kind outside; nothing is changed there.
    static const char* const outside[] = {"/", "/dev/null", "/dev/ptmx", "/proc/self", "/proc/self/exe", "/proc/self/fd/1", "/etc/passwd",
                                          "/nonexistent", "/etc/passwd/x", "/dev/stdin", "/proc/self/status"};
    query(outside[s.draw(11)]);
    if (interesting)
        s.nontrivial();
    EmptyDir(open(".", O_RDONLY | O_DIRECTORY));
}

// --- system errors ------------------------------------------------------------------------------

VP_TARGET(SystemErrors, 400000, 8000000, vp::kLeakCheck) {
    int code;
    switch (s.draw(4)) {
        case 0:
        case 1:
            code = int(s.draw(140));
            break;
        case 2:
            code = int(s.irange(-200, 5000));
            break;
        default:
            code = int(uint32_t(s.uint(32)));
    }
    char ref[512];
    memset(ref, 0, sizeof(ref));
    const char* p = strerror_r(code, ref, sizeof(ref));
    std::string full(p);
    bool unknown = p == ref;
    size_t size;
    switch (s.draw(3)) {
        case 0:
            size = s.draw(8);
            break;
        case 1:
            size = size_t(std::max<int64_t>(0, int64_t(full.size()) + s.irange(-2, 3)));
            break;
        default:
            size = s.draw(200) == 199 ? LargeSize(s, 100000) : s.draw(100);
    }
    // For a code without a message the C library formats into the buffer it is given, and the address
    // sanitizer's wrapper of strerror_r then reads that buffer as a string however small it is.
    if (unknown && size == 0)
        size = 1;
    bool current = s.coin();
    VP_LOG("%s code %d into %zu bytes: %s", current ? "errno" : "explicit", code, size,
           vp::Quote(full.data(), full.size()));
    if (unknown || size <= full.size())
        s.nontrivial();
    if (unknown)
        s.mark("unknown code");
    Guarded g(s, size);
    if (current) {
        errno = code;
        ke::FormatSystemError(g.p(), size);
    } else {
        errno = EDOM;
        ke::FormatSystemErrorCode(code, g.p(), size);
    }
    g.check("FormatSystemError");
    if (size == 0)
        return;
    size_t want = std::min(full.size(), size - 1);
    VP_CHECK(memchr(g.p(), 0, size) != nullptr, "the message for code %d is not terminated", code);
    VP_CHECK(strlen(g.p()) == want && memcmp(g.p(), full.data(), want) == 0, "the message for code %d is %s, expected %s",
             code, vp::Quote(g.p(), strlen(g.p())), vp::Quote(full.data(), want));
}
