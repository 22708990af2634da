// C30: a shared library stays loaded exactly while referenced, and lookups are exact.
// Non-trivial: a library was opened more than once or a reference outlived the one it came from; for
// failed opens, the message did not fit.
#include "../engine/vp.h"

#include <algorithm>
#include <dlfcn.h>
#include <memory>
#include <string>
#include <vector>

#include <amtl/os/am-shared-library.h>

using ke::AlreadyRefed;
using ke::RefPtr;
using ke::SharedLib;

// Called by the constructors and destructors of the generated libraries.
static int g_loaded[4];
static int g_events[4];
static const void* g_base[4];
extern "C" __attribute__((visibility("default"), used)) void
vp_lib_event(int id, int up, const void* base) {
    g_loaded[id] += up ? 1 : -1;
    g_events[id]++;
    g_base[id] = up ? base : nullptr;
}

static const int kLibs = 3;
static std::string
LibPath(int id) {
    return std::string(VP_BUILD_DIR) + "/libc30_" + char('0' + id) + ".so";
}

struct Ref {
    RefPtr<SharedLib> p;
    int id = -1;
};

VP_TARGET(History, 20000, 500000, 0) {
    {
        std::vector<Ref> slots(5);
        bool interesting = false;
        int start[kLibs];
        for (int i = 0; i < kLibs; i++) {
            start[i] = g_loaded[i];
            VP_CHECK(start[i] == 0, "library %d is loaded before the case", i);
        }
        auto check = [&](const char* when) {
            for (int i = 0; i < kLibs; i++) {
                bool want = false;
                for (const Ref& r : slots)
                    want = want || r.id == i;
                VP_CHECK(g_loaded[i] == (want ? 1 : 0), "%s: library %d is %s although it is %s", when, i,
                         g_loaded[i] ? "loaded" : "not loaded", want ? "referenced" : "not referenced");
            }
        };
        size_t steps = 0;
        while (steps++ < 60 && s.more(16)) {
            Ref& a = slots[s.draw(5)];
            Ref& b = slots[s.draw(5)];
            static const unsigned w[] = {6, 3, 3, 5, 2, 2, 2, 2};
            switch (s.weighted(w)) {
                case 0: {
                    int id = int(s.draw(kLibs));
                    bool buf = s.coin();
                    char err[64] = "untouched";
                    for (const Ref& r : slots)
                        if (r.id == id)
                            interesting = true;
                    AlreadyRefed<SharedLib> got = buf ? SharedLib::Open(LibPath(id).c_str(), err, sizeof(err))
                                                     : SharedLib::Open(LibPath(id).c_str());
                    VP_LOG("open library %d into %d\n", id, int(&a - &slots[0]));
                    VP_CHECK(!!got.operator->() && got->valid() && bool(*got.operator->()),
                             "opening library %d failed: %s", id, err);
                    a.p = got;
                    a.id = id;
                    break;
                }
                case 1:
                    VP_LOG("copy %d to %d\n", int(&b - &slots[0]), int(&a - &slots[0]));
                    a.p = b.p;
                    a.id = b.id;
                    if (b.id >= 0)
                        interesting = true;
                    break;
                case 2:
                    VP_LOG("drop %d\n", int(&a - &slots[0]));
                    a.p = RefPtr<SharedLib>();
                    a.id = -1;
                    break;
                case 3: {
                    if (a.id < 0)
                        break;
                    // Lookups: own symbols, a name every library has, and names it lacks.
                    std::string own = std::string("vp_fn_") + char('0' + a.id);
                    std::string other = std::string("vp_fn_") + char('0' + (a.id + 1) % kLibs);
                    unsigned k = unsigned(s.draw(10));
                    unsigned m = unsigned(s.draw(12));
                    std::string name;
                    switch (k) {
                        case 0:
                            name = own;
                            break;
                        case 1:
                            name = "vp_common";
                            break;
                        case 2:
                            name = "vp_data";
                            break;
                        case 3:
                            name = other;
                            break;
                        case 4:
                            name = "vp_missing";
                            break;
                        case 5:
                            break;
                        case 6:
                            // The program has it, not the library.
                            name = "vp_lib_event";
                            break;
                        case 7:
                            name = "vp_many_" + std::to_string(m);
                            break;
                        case 8:
                            name = "vp_" + std::string(699, '0') + "1";
                            break;
                        default:
                            // Almost one that exists.
                            name = own;
                            switch (m) {
                                case 0:
                                    name.pop_back();
                                    break;
                                case 1:
                                    name += "0";
                                    break;
                                case 2:
                                    name[0] = 'V';
                                    break;
                                case 3:
                                    name = " " + name;
                                    break;
                                case 4:
                                    name = "vp_" + std::string(699, '0') + "2";
                                    break;
                                case 5:
                                    name = "vp_" + std::string(698, '0') + "1";
                                    break;
                                default:
                                    name = "vp_many_1" + std::to_string(m);
                                    break;
                            }
                    }
                    bool has = k < 3 || k == 7 || k == 8;
                    // Names are often put together in the same place, one after the other.
                    static char place[800];
                    bool same = s.coin();
                    const char* symbol = name.c_str();
                    if (same) {
                        memcpy(place, name.c_str(), name.size() + 1);
                        symbol = place;
                    }
                    void* p = a.p->lookup(symbol);
                    VP_LOG("lookup %s in %d: %p\n", symbol, a.id, p != nullptr ? (void*)1 : nullptr);
                    if (has) {
                        VP_CHECK(p, "lookup of %s in library %d gives null", symbol, a.id);
                        Dl_info info;
                        VP_CHECK(dladdr(p, &info) && info.dli_fname && LibPath(a.id) == info.dli_fname,
                                 "lookup of %s gives an address outside library %d", symbol, a.id);
                        if (k != 2) {
                            int r = ((int (*)(int))p)(7);
                            int want = k == 0   ? 107 + a.id * 10
                                       : k == 1 ? 207 + a.id * 10
                                       : k == 7 ? 1007 + a.id * 1000 + int(m) * 10
                                                : 407 + a.id * 10;
                            VP_CHECK(r == want, "%s of library %d computes %d", symbol, a.id, r);
                            int (*typed)(int) = a.p->get<int (*)(int)>(symbol);
                            VP_CHECK((void*)typed == p, "get and lookup differ");
                        } else {
                            VP_CHECK(*(int*)p == 300 + a.id, "data of library %d is %d", a.id, *(int*)p);
                            VP_CHECK(a.p->get<int*>("vp_data") == (int*)p, "get and lookup differ");
                        }
                    } else {
                        VP_CHECK(!p, "lookup of %s in library %d gives %p", symbol, a.id, p);
                    }
                    break;
                }
                case 4:
                    if (&a != &b) {
                        VP_LOG("move %d to %d\n", int(&b - &slots[0]), int(&a - &slots[0]));
                        a.p = std::move(b.p);
                        a.id = b.id;
                        b.id = -1;
                    }
                    break;
                case 5: {
                    // The plain constructor, and one around a handle of our own.
                    int id = int(s.draw(kLibs));
                    if (s.coin()) {
                        VP_LOG("construct library %d into %d\n", id, int(&a - &slots[0]));
                        a.p = new SharedLib(LibPath(id).c_str());
                    } else {
                        VP_LOG("wrap a handle of library %d into %d\n", id, int(&a - &slots[0]));
                        void* h = dlopen(LibPath(id).c_str(), RTLD_NOW);
                        VP_CHECK(h, "harness: dlopen failed");
                        a.p = new SharedLib(h);
                    }
                    a.id = id;
                    VP_CHECK(a.p->valid() && bool(*a.p.get()), "a constructed library is not valid");
                    break;
                }
                case 6: {
                    // A failed open in between changes nothing.
                    char err[200];
                    RefPtr<SharedLib> p = SharedLib::Open(VP_BUILD_DIR "/libc30_none.so", err, sizeof(err));
                    VP_CHECK(!p, "opening a missing library gave a reference");
                    // A library object without a library.
                    RefPtr<SharedLib> e = new SharedLib();
                    VP_CHECK(!e->valid() && !bool(*e.get()), "an empty library object is valid");
                    RefPtr<SharedLib> f = new SharedLib(VP_BUILD_DIR "/libc30_none.so");
                    VP_CHECK(!f->valid() && !bool(*f.get()), "a failed library object is valid");
                    break;
                }
                default: {
                    // A temporary reference only.
                    int id = int(s.draw(kLibs));
                    bool held = false;
                    for (const Ref& r : slots)
                        held = held || r.id == id;
                    int events = g_events[id];
                    {
                        RefPtr<SharedLib> t = SharedLib::Open(LibPath(id).c_str());
                        VP_CHECK(t && g_loaded[id] == 1, "library %d is not loaded while open", id);
                        VP_LOG("open and drop library %d\n", id);
                    }
                    VP_CHECK(g_events[id] - events == (held ? 0 : 2), "library %d saw %d load events", id,
                             g_events[id] - events);
                }
            }
            check("after a step");
        }
        if (interesting)
            s.nontrivial();
    }
    for (int i = 0; i < kLibs; i++)
        VP_CHECK(g_loaded[i] == 0, "library %d is still loaded after its last reference went", i);
}

VP_TARGET(FailedOpens, 40000, 1000000, 0) {
    static const char* const paths[] = {VP_BUILD_DIR "/libc30_none.so", VP_BUILD_DIR "/libc30_bad.so",
                                        VP_BUILD_DIR "/libc30_empty.so", VP_BUILD_DIR, VP_BUILD_DIR "/libc30_undef.so",
                                        "libc30-not-on-any-path.so", VP_BUILD_DIR "/libc30_trunc.so"};
    const char* path = paths[s.draw(7)];
    std::string made;
    if (s.draw(40) == 39) {
        // A long name, and so a long message.
        static const size_t lens[] = {100, 200, 255, 300, 500, 900, 1000, 2000, 4000, 4200, 9000};
        size_t n = lens[s.draw(11)] + s.draw(60);
        made = VP_BUILD_DIR "/missing";
        while (made.size() < n)
            made += s.draw(30) == 29 ? '/' : char('a' + s.draw(26));
        made += ".so";
        path = made.c_str();
        s.mark("long name");
    }
    dlerror();
    void* h = dlopen(path, RTLD_NOW);
    const char* e = dlerror();
    VP_CHECK(!h && e, "harness: %s was expected not to load", path);
    std::string full(e);
    size_t size;
    switch (s.draw(3)) {
        case 0:
            size = s.draw(6);
            break;
        case 1:
            size = size_t(std::max<int64_t>(0, int64_t(full.size()) + s.irange(-2, 3)));
            break;
        default:
            size = s.draw(full.size() + 100);
    }
    static const unsigned char kFill = 0xA5;
    const size_t G = 32;
    std::unique_ptr<unsigned char[]> mem(new unsigned char[size + 2 * G]);
    memset(mem.get(), kFill, size + 2 * G);
    char* buf = (char*)mem.get() + G;
    unsigned form = unsigned(s.draw(4));
    VP_LOG("open %s with a %zu-byte buffer, form %u: %s", path, size, form, full.c_str());
    if (size <= full.size())
        s.nontrivial();
    RefPtr<SharedLib> p = form == 0   ? SharedLib::Open(path)
                          : form == 1 ? SharedLib::Open(path, nullptr, size)
                                      : SharedLib::Open(path, buf, size);
    VP_CHECK(!p, "opening %s gave a reference", path);
    for (size_t i = 0; i < G; i++)
        VP_CHECK(mem[i] == kFill && mem[G + size + i] == kFill, "the message was written outside the %zu-byte buffer",
                 size);
    if (form >= 2 && size > 0) {
        size_t want = std::min(full.size(), size - 1);
        VP_CHECK(memchr(buf, 0, size), "the message is not terminated");
        VP_CHECK(strlen(buf) == want && memcmp(buf, full.data(), want) == 0, "the message is %s, the loader's is %s",
                 vp::Quote(buf, strlen(buf)), full.c_str());
    }
}
