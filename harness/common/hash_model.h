// Model-based driver for ke::HashTable, ke::HashMap and ke::HashSet, used by C01, C02 and C03.
//
// A case owns up to four containers of one kind.  Each step applies one random operation to the
// container and to a std::map, then compares.
#pragma once

#include <assert.h>
#include <string.h>

#include <map>
#include <memory>
#include <set>
#include <string>
#include <type_traits>
#include <vector>

#include <amtl/am-hashmap.h>
#include <amtl/am-hashset.h>
#include <amtl/am-hashtable.h>

#include "track.h"

namespace hm {

using tk::Val;

// --- the user's hash function, chosen per case --------------------------------------------------

static unsigned g_hash_mode = 0;
static uint32_t g_hash_param = 1;

// x such that x * 0x9E3779B9 == y (mod 2^32)
static uint32_t
GoldenInverse(uint32_t y) {
    static uint32_t inv = 0;
    if (!inv) {
        uint32_t a = 0x9E3779B9u, x = a;
        for (int i = 0; i < 6; i++)
            x *= 2 - a * x;
        inv = x;
    }
    return inv * y;
}

static uint32_t
HashOf(long k) {
    uint32_t u = uint32_t(k);
    switch (g_hash_mode) {
        case 0:
            return u;
        case 1:
            return g_hash_param;  // everything collides
        case 2:
            return u % g_hash_param;  // groups with equal hashes
        case 3:
            return u << 28;
        case 4:
            return GoldenInverse(u % g_hash_param);  // small table hashes, includes the reserved ones
        case 5:
            return GoldenInverse(u << 20);  // same bucket at every capacity, different hashes
        case 6:
            return GoldenInverse(0u - 1u - u % 5);  // wraps around the end of the table
        case 7:
            return ke::HashInt32(int32_t(u));
        case 8:
            return GoldenInverse(u);  // linear runs, one bucket each
        default:
            return GoldenInverse((u % 3) | ((u / 3) << g_hash_param % 24));
    }
}

struct Probe {
    long id;
};

struct KeyPolicy {
    static uint32_t hash(const Val& k) {
        return HashOf(k.v());
    }
    static uint32_t hash(const Probe& k) {
        return HashOf(k.id);
    }
    static bool matches(const Val& a, const Val& b) {
        return a.v() == b.v();
    }
    static bool matches(const Probe& a, const Val& b) {
        return a.id == b.v();
    }
};

struct KV {
    Val key;
    Val value;
    KV() {}
    template <typename K, typename V>
    KV(K&& k, V&& v)
     : key(std::forward<K>(k)),
       value(std::forward<V>(v))
    {}
    KV(const KV& o)
     : key(o.key),
       value(o.value)
    {}
    KV(KV&& o)
     : key(std::move(o.key)),
       value(std::move(o.value))
    {}
};

struct KVPolicy {
    typedef KV Payload;
    template <typename L>
    static uint32_t hash(const L& k) {
        return KeyPolicy::hash(k);
    }
    template <typename L>
    static bool matches(const L& k, const KV& kv) {
        return KeyPolicy::matches(k, kv.key);
    }
};

// --- adapters -----------------------------------------------------------------------------------

template <typename Pol>
struct TableA {
    typedef ke::HashTable<KVPolicy, Pol> C;
    static const bool kHasValue = true;
    static const long kObjects = 2;
    static const char* name() {
        return "HashTable";
    }
    static typename C::iterator iter(C& c) {
        return typename C::iterator(&c);
    }
    template <typename P>
    static Val& key(P& p) {
        return p.key;
    }
    template <typename P>
    static Val& val(P& p) {
        return p.value;
    }
    // Returns the value the entry should have; fills |ok|.
    template <typename I>
    static long add(C& c, I& i, long k, long v, unsigned variant, bool* ok) {
        switch (variant % 3) {
            case 0: {
                KV kv{Val(k), Val(v)};
                *ok = c.add(i, std::move(kv));
                return v;
            }
            case 1: {
                KV kv{Val(k), Val(v)};
                *ok = c.add(i, kv);
                if (kv.key.v() != k || kv.value.v() != v)
                    vp::Fail("adding from an lvalue changed the lvalue");
                return v;
            }
            default:
                *ok = c.add(i);
                if (*ok) {
                    if (i->key.v() != tk::kDefault || i->value.v() != tk::kDefault)
                        vp::Fail("add without a payload did not default-construct the entry");
                    i->key.set(k);
                    i->value.set(v);
                }
                return v;
        }
    }
    static long max_copies(unsigned variant) {
        return variant % 3 == 1 ? 2 : 0;
    }
};

template <typename Pol>
struct MapA {
    typedef ke::HashMap<Val, Val, KeyPolicy, Pol> C;
    static const bool kHasValue = true;
    static const long kObjects = 2;
    static const char* name() {
        return "HashMap";
    }
    static typename C::iterator iter(C& c) {
        return c.iter();
    }
    template <typename P>
    static Val& key(P& p) {
        return p.key;
    }
    template <typename P>
    static Val& val(P& p) {
        return p.value;
    }
    template <typename I>
    static long add(C& c, I& i, long k, long v, unsigned variant, bool* ok) {
        switch (variant % 5) {
            case 0:
                *ok = c.add(i, Val(k), Val(v));
                return v;
            case 1: {
                Val kk(k), vv(v);
                *ok = c.add(i, kk, vv);
                if (kk.v() != k || vv.v() != v)
                    vp::Fail("adding from lvalues changed them");
                return v;
            }
            case 2: {
                Val kk(k);
                *ok = c.add(i, kk, Val(v));
                if (kk.v() != k)
                    vp::Fail("adding from an lvalue key changed it");
                return v;
            }
            case 3:
                *ok = c.add(i, Val(k));
                return tk::kDefault;
            default:
                *ok = c.add(i);
                if (*ok) {
                    if (i->key.v() != tk::kDefault || i->value.v() != tk::kDefault)
                        vp::Fail("add without arguments did not default-construct the entry");
                    i->key.set(k);
                    i->value.set(v);
                }
                return v;
        }
    }
    static long max_copies(unsigned variant) {
        return variant % 5 == 1 ? 2 : variant % 5 == 2 ? 1 : 0;
    }
};

template <typename Pol>
struct SetA {
    typedef ke::HashSet<Val, KeyPolicy, Pol> C;
    static const bool kHasValue = false;
    static const long kObjects = 1;
    static const char* name() {
        return "HashSet";
    }
    static typename C::iterator iter(C& c) {
        return c.iter();
    }
    template <typename P>
    static Val& key(P& p) {
        return p;
    }
    template <typename P>
    static Val& val(P& p) {
        return p;
    }
    template <typename I>
    static long add(C& c, I& i, long k, long v, unsigned variant, bool* ok) {
        switch (variant % 3) {
            case 0:
                *ok = c.add(i, Val(k));
                break;
            case 1: {
                Val kk(k);
                *ok = c.add(i, kk);
                if (kk.v() != k)
                    vp::Fail("adding from an lvalue key changed it");
                break;
            }
            default:
                *ok = c.add(i);
                if (*ok) {
                    if ((*i).v() != tk::kDefault)
                        vp::Fail("add without arguments did not default-construct the entry");
                    (*i).set(k);
                }
        }
        return k;
    }
    static long max_copies(unsigned variant) {
        return variant % 3 == 1 ? 1 : 0;
    }
};

struct Opt {
    bool lifetimes = false;  // C02
    bool memory = false;     // C02
    bool failures = false;   // C03
    bool big = false;        // larger histories
    bool churn = false;      // a long run of new keys replacing old ones
};

template <typename A, typename Pol>
class Run
{
    typedef typename A::C C;
    static const bool kLogged = std::is_same<Pol, tk::Policy>::value;

    struct Slot {
        C* c = nullptr;
        std::map<long, long> m;
        int who = 0;
        bool ready = false;  // init succeeded
        size_t init_cap = 16;
        size_t peak = 0;
    };

    vp::Src& s_;
    Opt opt_;
    tk::Arena arena_;
    Slot slots_[4];
    long universe_;
    long next_value_ = 1;
    int next_who_ = 1;
    tk::Stats base_;
    unsigned removals_ = 0, adds_ = 0, resizes_ = 0, moves_ = 0, reuse_ = 0, refused_adds_ = 0,
             refused_inits_ = 0, erased_iter_ = 0;
    std::set<long> ever_removed_;

  public:
    Run(vp::Src& s, Opt o)
     : s_(s),
       opt_(o)
    {}

    void go() {
        base_ = tk::g;
        tk::g_default_arena = &arena_;
        static const unsigned hw[] = {4, 2, 4, 2, 4, 3, 2, 2, 3, 3};
        g_hash_mode = unsigned(s_.weighted(hw));
        g_hash_param = uint32_t(g_hash_mode == 1 ? s_.uint(32) : s_.range(1, 9));
        if (g_hash_mode == 1 && s_.coin())
            g_hash_param = GoldenInverse(uint32_t(s_.draw(4)));
        static const long us[] = {4, 12, 40, 150, 600, 3000};
        size_t ui = opt_.big ? 3 + s_.draw(3) : s_.draw(4);
        universe_ = us[ui];
        bool slow = g_hash_mode == 1 || g_hash_mode == 3 || g_hash_mode == 2 || g_hash_mode == 5 ||
                    g_hash_mode == 6;
        if (slow && universe_ > 150)
            universe_ = 150;
        uint64_t avg = opt_.big ? (slow ? 300 : 1500) : 10 + universe_;
        VP_LOG("%s, hash mode %u param %u, keys 0..%ld\n", A::name(), g_hash_mode, g_hash_param,
               universe_ - 1);
        // Phase bias: growing, steady or draining.
        unsigned phase = 0;
        create(0);
        if (opt_.churn)
            churn(slow);
        while (s_.more(avg)) {
            if (s_.chance(1, 24))
                phase = unsigned(s_.draw(3));
            step(phase);
        }
        for (Slot& sl : slots_)
            full_check(sl);
        // Destroy in order.
        for (Slot& sl : slots_)
            destroy(sl);
        if (opt_.lifetimes || opt_.failures) {
            VP_CHECK(tk::g.live == base_.live, "lifetime: %ld value(s) still alive after every container "
                                               "is destroyed",
                     tk::g.live - base_.live);
        }
        VP_CHECK(arena_.n == 0, "memory: %zu block(s) never given back to the allocator", arena_.n);
        label();
    }

  private:
    void label() {
        if (removals_ && reuse_)
            s_.mark("key removed and added again");
        if (resizes_)
            s_.mark("table reallocated");
        if (moves_)
            s_.mark("container moved");
        if (erased_iter_)
            s_.mark("erased while iterating");
        if (refused_adds_)
            s_.mark("add refused memory");
        if (refused_inits_)
            s_.mark("init refused memory");
        if (opt_.failures) {
            if (refused_adds_ || refused_inits_)
                s_.nontrivial();
        } else if (opt_.memory) {
            if (removals_ && adds_ >= 8)
                s_.nontrivial();
        } else if (removals_ && adds_ >= 4) {
            s_.nontrivial();
        }
    }

    Pol make_policy(int who) {
        if constexpr (kLogged)
            return tk::Policy(&arena_, who);
        else
            return Pol();
    }

    unsigned long policy_overflows(Slot& sl) {
        if constexpr (kLogged)
            return sl.c->allocPolicy().my_overflows;
        return 0;
    }

    // The policy object the container exposes carries what its allocations did.
    void check_policy(Slot& sl) {
        if constexpr (kLogged) {
            const C& cc = *sl.c;
            const tk::Policy& p = cc.allocPolicy();
            VP_CHECK(&sl.c->allocPolicy() == &p, "policy: const and non-const allocPolicy() differ");
            VP_CHECK(p.who == sl.who, "policy: the container exposes policy %d, it was given policy %d",
                     p.who, sl.who);
            size_t blocks = arena_.blocks_of(sl.who);
            VP_CHECK(p.my_mallocs - p.my_frees == blocks,
                     "policy: the exposed policy saw %lu allocations and %lu frees but %zu block(s) "
                     "of the container are live",
                     p.my_mallocs, p.my_frees, blocks);
        }
    }

    void check_global() {
        long expect = 0;
        for (Slot& sl : slots_)
            expect += long(sl.m.size()) * A::kObjects;
        if (opt_.lifetimes || opt_.failures) {
            VP_CHECK(tk::g.live - base_.live == expect,
                     "lifetime: %ld values are alive, the containers should hold %ld",
                     tk::g.live - base_.live, expect);
        }
    }

    void check_after(Slot& sl) {
        VP_CHECK(sl.c->elements() == sl.m.size(), "elements() is %zu, expected %zu",
                 sl.c->elements(), sl.m.size());
        if (sl.m.size() > sl.peak)
            sl.peak = sl.m.size();
        if constexpr (kLogged) {
            if (opt_.memory) {
                size_t bytes = arena_.bytes_of(sl.who);
                size_t unit = sizeof(long) * 4 + 16;
                size_t bound = unit * (2 * sl.init_cap + 16 * sl.peak + 64);
                VP_CHECK(bytes <= bound,
                         "memory: %zu bytes held for a table of at most %zu elements (bound %zu)",
                         bytes, sl.peak, bound);
                size_t est = sl.c->estimateMemoryUse();
                VP_CHECK(est <= bound, "memory: estimateMemoryUse() is %zu for at most %zu elements",
                         est, sl.peak);
            }
            if (opt_.failures)
                check_policy(sl);
        }
        check_global();
    }

    template <typename P>
    void check_entry(P& p, long k, long v, const char* how) {
        VP_CHECK(A::key(p).v() == k, "%s for key %ld gives an entry with key %ld", how, k,
                 A::key(p).v());
        if (A::kHasValue) {
            VP_CHECK(A::val(p).v() == v, "%s for key %ld gives value %ld, expected %ld", how, k,
                     A::val(p).v(), v);
        }
    }

    // Few elements live at once, many pass through.
    void churn(bool slow) {
        Slot& sl = slots_[0];
        if (!sl.ready)
            return;
        // 0: each new key pushes an old one out; 1: fill, take all out one by one, and so on;
        // 2: fill, clear, and so on; 3: fill, erase all while iterating, and so on.
        unsigned kind = unsigned(s_.draw(4));
        long window = long(s_.range(kind ? 1 : 0, 40));
        long n = long(s_.draw(slow ? 400 : 4000));
        long base = 1000000;
        VP_LOG("slot 0: churn (%u) of %ld keys, %ld at a time\n", kind, n, window);
        long first = 0;
        for (long i = 0; i < n; i++) {
            add(sl, 0, base + i);
            if (!kind) {
                if (i >= window)
                    remove(sl, 0, base + first++, false);
                continue;
            }
            if (i - first + 1 < window)
                continue;
            if (kind == 2) {
                sl.c->clear();
                sl.m.clear();
                check_after(sl);
            } else if (kind == 3) {
                for (typename C::iterator it = A::iter(*sl.c); !it.empty(); it.next()) {
                    removed(A::key(*it).v());
                    it.erase();
                }
                sl.m.clear();
                check_after(sl);
            }
            for (; first <= i; first++)
                if (sl.m.count(base + first))
                    remove(sl, 0, base + first, false);
        }
        for (; first < n; first++)
            remove(sl, 0, base + first, true);
    }

    void full_check(Slot& sl) {
        if (!sl.c || !sl.ready)
            return;
        VP_CHECK(sl.c->elements() == sl.m.size(), "elements() is %zu, expected %zu",
                 sl.c->elements(), sl.m.size());
        std::set<long> seen;
        size_t n = 0;
        for (typename C::iterator it = A::iter(*sl.c); !it.empty(); it.next()) {
            long k = A::key(*it).v();
            auto f = sl.m.find(k);
            VP_CHECK(f != sl.m.end(), "iteration yields key %ld, which is not in the container", k);
            VP_CHECK(seen.insert(k).second, "iteration yields key %ld twice", k);
            check_entry(*it, k, f->second, "iteration");
            n++;
        }
        VP_CHECK(n == sl.m.size(), "iteration yields %zu elements, expected %zu", n, sl.m.size());
        // Look up everything in a window of the universe plus keys never used.
        for (long k = -2; k < universe_ + 2; k++) {
            auto f = sl.m.find(k);
            auto r = sl.c->find(Probe{k});
            VP_CHECK(r.found() == (f != sl.m.end()), "find(%ld) says %s, expected %s", k,
                     r.found() ? "found" : "absent", f != sl.m.end() ? "found" : "absent");
            if (r.found())
                check_entry(*r, k, f->second, "find");
        }
    }

    void create(size_t at) {
        Slot& sl = slots_[at];
        destroy(sl);
        sl.who = next_who_++;
        sl.c = new C(make_policy(sl.who));
        sl.m.clear();
        sl.peak = 0;
        sl.ready = false;
        VP_CHECK(sl.c->elements() == 0, "a new container is not empty");
        try_init(sl, at);
    }

    void try_init(Slot& sl, size_t at) {
        static const size_t caps[] = {0, 16, 1, 8, 32, 64, 256, 2048};
        for (int tries = 0; tries < 3 && !sl.ready; tries++) {
            size_t cap = caps[s_.draw(8)];
            bool over = false;
            if (kLogged && opt_.failures && s_.chance(1, 6)) {
                cap = size_t(1) << s_.range(27, 50);
                over = true;
            }
            bool armed = arm();
            if constexpr (kLogged)
                arena_.refuse_above = size_t(256) << 20;
            unsigned long ov = policy_overflows(sl), rf = arena_.refused;
            bool ok;
            if (cap == 0 && !over)
                ok = sl.c->init();
            else
                ok = sl.c->init(cap);
            disarm(armed);
            VP_LOG("slot %zu: init(%zu) -> %d\n", at, cap, ok);
            if (over) {
                VP_CHECK(!ok, "init with capacity 2^%d succeeded", int(63 - __builtin_clzll(cap)));
                VP_CHECK(policy_overflows(sl) == ov + 1,
                         "init with capacity 2^%d was not reported to the policy as an overflow",
                         int(63 - __builtin_clzll(cap)));
                s_.mark("overflowing init");
            } else if (!ok) {
                VP_CHECK(arena_.refused > rf, "init failed although no memory was refused");
                refused_inits_++;
            }
            sl.ready = ok;
            sl.init_cap = ok && cap > 16 ? cap : 16;
            if (opt_.failures && ok)
                check_policy(sl);
            if (!ok && s_.coin())
                break;
        }
        if (sl.ready)
            full_check(sl);
        else
            VP_CHECK(sl.c->elements() == 0, "a container whose init failed is not empty");
        check_global();
    }

    void destroy(Slot& sl) {
        if (!sl.c)
            return;
        delete sl.c;
        sl.c = nullptr;
        sl.m.clear();
        sl.ready = false;
        VP_CHECK(arena_.blocks_of(sl.who) == 0, "memory: the container's destructor left %zu block(s)",
                 arena_.blocks_of(sl.who));
        check_global();
    }

    bool arm() {
        if (!kLogged || !opt_.failures)
            return false;
        if (s_.chance(1, 3)) {
            if (s_.coin())
                arena_.fail_all = true;
            else
                arena_.fail_in = long(s_.draw(2));
            return true;
        }
        return false;
    }
    void disarm(bool armed) {
        if (armed) {
            arena_.fail_all = false;
            arena_.fail_in = -1;
        }
    }

    void step(unsigned phase) {
        size_t at = s_.draw(12) ? 0 : s_.draw(4);
        Slot& sl = slots_[at];
        if (!sl.c || !sl.ready) {
            if (sl.c && s_.coin())
                try_init(sl, at);
            else
                create(at);
            return;
        }
        long k = long(s_.draw(uint64_t(universe_)));
        static const unsigned w[3][12] = {
            // find add fadd rm rmif hit clear iter iterase move recreate full
            {4, 20, 6, 4, 2, 3, 0, 2, 1, 1, 1, 1},
            {4, 10, 4, 8, 6, 3, 1, 2, 2, 1, 1, 1},
            {4, 4, 2, 14, 8, 3, 1, 2, 3, 1, 1, 1},
        };
        switch (s_.weighted(w[phase])) {
            case 0:
                find(sl, at, k);
                break;
            case 1:
                add(sl, at, k);
                break;
            case 2:
                add_burst(sl, at, k);
                break;
            case 3:
                remove(sl, at, k, false);
                break;
            case 4:
                remove(sl, at, k, true);
                break;
            case 5:
                // Hit a present key.
                if (!sl.m.empty()) {
                    auto it = sl.m.lower_bound(k);
                    if (it == sl.m.end())
                        it = sl.m.begin();
                    if (s_.coin())
                        find(sl, at, it->first);
                    else
                        remove(sl, at, it->first, s_.coin());
                }
                break;
            case 6:
                if (s_.chance(1, 3)) {
                    sl.c->clear();
                    VP_LOG("slot %zu: clear\n", at);
                    for (auto& e : sl.m)
                        ever_removed_.insert(e.first);
                    sl.m.clear();
                    check_after(sl);
                    s_.mark("cleared");
                }
                break;
            case 7:
                iterate(sl, at, false);
                break;
            case 8:
                iterate(sl, at, true);
                break;
            case 9:
                if (s_.chance(1, 3))
                    move(sl, at);
                break;
            case 10:
                if (s_.chance(1, 12))
                    create(at);
                break;
            default:
                if (s_.chance(1, 4))
                    full_check(sl);
        }
    }

    void find(Slot& sl, size_t at, long k) {
        auto f = sl.m.find(k);
        VP_LOG("slot %zu: find %ld\n", at, k);
        if (s_.coin()) {
            Val kk(k);
            auto r = sl.c->find(kk);
            VP_CHECK(r.found() == (f != sl.m.end()), "find(%ld) says %s", k,
                     r.found() ? "found although it is absent" : "absent although it is present");
            if (r.found())
                check_entry(*r, k, f->second, "find");
        } else {
            auto r = sl.c->findForAdd(Probe{k});
            VP_CHECK(r.found() == (f != sl.m.end()), "findForAdd(%ld) says %s", k,
                     r.found() ? "found although it is absent" : "absent although it is present");
            if (r.found())
                check_entry(*r, k, f->second, "findForAdd");
        }
        check_after(sl);
    }

    void add(Slot& sl, size_t at, long k) {
        auto f = sl.m.find(k);
        long v = next_value_++;
        unsigned variant = unsigned(s_.draw(15));
        if constexpr (!A::kHasValue) {
            if (!opt_.failures && s_.chance(1, 4)) {
                // Convenience form.
                if (s_.coin()) {
                    sl.c->add(Val(k));
                } else {
                    Val kk(k);
                    sl.c->add(kk);
                    VP_CHECK(kk.v() == k, "add(key) changed its argument");
                }
                VP_CHECK(sl.c->has(Probe{k}), "has(%ld) is false right after add", k);
                VP_LOG("slot %zu: add(%ld)\n", at, k);
                if (f == sl.m.end())
                    added(sl, k, k);
                check_after(sl);
                return;
            }
        }
        auto i = s_.coin() ? sl.c->findForAdd(Probe{k}) : sl.c->findForAdd(Val(k));
        VP_CHECK(i.found() == (f != sl.m.end()), "findForAdd(%ld) says %s", k,
                 i.found() ? "found although it is absent" : "absent although it is present");
        if (i.found()) {
            check_entry(*i, k, f->second, "findForAdd");
            if (A::kHasValue) {
                A::val(*i).set(v);
                f->second = v;
                VP_LOG("slot %zu: set %ld = %ld\n", at, k, v);
            }
            check_after(sl);
            return;
        }
        bool armed = arm();
        unsigned long rf = arena_.refused, ms = arena_.mallocs;
        unsigned long ov = policy_overflows(sl);
        long copies = tk::g.copies;
        bool ok = false;
        long want = A::add(*sl.c, i, k, v, variant, &ok);
        copies = tk::g.copies - copies;
        disarm(armed);
        VP_LOG("slot %zu: add %ld = %ld (form %u) -> %d\n", at, k, want, variant, ok);
        if (arena_.mallocs > ms)
            resizes_++;
        if (opt_.lifetimes) {
            VP_CHECK(copies <= A::max_copies(variant),
                     "lifetime: adding key %ld made %ld copies, at most %ld are needed (elements must "
                     "be moved, not copied)",
                     k, copies, A::max_copies(variant));
        }
        if (ok) {
            added(sl, k, want);
            VP_CHECK(i.found(), "the insertion handle does not refer to the element after add");
            check_entry(*i, k, want, "the insertion handle after add");
            auto r = sl.c->find(Probe{k});
            VP_CHECK(r.found(), "key %ld is absent right after add", k);
            check_entry(*r, k, want, "find after add");
            VP_CHECK(&*r == &*i, "the insertion handle refers to another entry than find");
            check_after(sl);
        } else {
            VP_CHECK(arena_.refused > rf || policy_overflows(sl) > ov,
                     "add returned false although no memory was refused");
            refused_adds_++;
            check_after(sl);
            full_check(sl);
        }
    }

    void added(Slot& sl, long k, long v) {
        sl.m[k] = v;
        adds_++;
        if (ever_removed_.count(k))
            reuse_++;
    }

    void add_burst(Slot& sl, size_t at, long k) {
        size_t n = s_.draw(opt_.big ? 40 : 12);
        for (size_t i = 0; i < n; i++)
            add(sl, at, (k + long(i)) % universe_);
    }

    void remove(Slot& sl, size_t at, long k, bool if_exists) {
        auto f = sl.m.find(k);
        VP_LOG("slot %zu: remove %ld%s\n", at, k, f == sl.m.end() ? " (absent)" : "");
        if (if_exists) {
            if (s_.coin())
                sl.c->removeIfExists(Probe{k});
            else
                sl.c->removeIfExists(Val(k));
            if (f != sl.m.end()) {
                sl.m.erase(f);
                removed(k);
            }
        } else {
            auto r = sl.c->find(Probe{k});
            VP_CHECK(r.found() == (f != sl.m.end()), "find(%ld) before remove says %s", k,
                     r.found() ? "found" : "absent");
            if (r.found()) {
                sl.c->remove(r);
                sl.m.erase(f);
                removed(k);
            }
        }
        auto r = sl.c->find(Probe{k});
        VP_CHECK(!r.found(), "key %ld is still found after it was removed", k);
        check_after(sl);
    }
    void removed(long k) {
        removals_++;
        ever_removed_.insert(k);
    }

    void iterate(Slot& sl, size_t at, bool erase) {
        std::map<long, long> rest = sl.m;
        size_t num = erase ? s_.draw(4) : 0;
        VP_LOG("slot %zu: iterate%s\n", at, erase ? " erasing some" : "");
        for (typename C::iterator it = A::iter(*sl.c); !it.empty(); it.next()) {
            long k = A::key(*it).v();
            auto f = rest.find(k);
            VP_CHECK(f != rest.end(), "iteration yields key %ld, which is %s", k,
                     sl.m.count(k) ? "a repeat" : "not in the container");
            check_entry(*it, k, f->second, "iteration");
            rest.erase(f);
            if (erase && s_.draw(4) < num) {
                it.erase();
                sl.m.erase(k);
                removed(k);
                erased_iter_++;
                VP_CHECK(sl.c->elements() == sl.m.size(), "elements() wrong after erase");
            }
        }
        VP_CHECK(rest.empty(), "iteration missed %zu element(s), for example key %ld", rest.size(),
                 rest.begin()->first);
        check_after(sl);
    }

    void move(Slot& sl, size_t at) {
        size_t to = s_.draw(4);
        if (to == at)
            return;
        Slot& d = slots_[to];
        destroy(d);
        VP_LOG("move slot %zu to slot %zu\n", at, to);
        long ctors = tk::g.ctors;
        C* nc = new C(std::move(*sl.c));
        (void)ctors;
        d.c = nc;
        d.m.swap(sl.m);
        sl.m.clear();
        d.ready = true;
        d.init_cap = sl.init_cap;
        d.peak = sl.peak;
        d.who = sl.who;
        sl.who = next_who_++;  // the source holds nothing any more
        moves_++;
        VP_CHECK(sl.c->elements() == 0, "the moved-from container reports %zu elements",
                 sl.c->elements());
        typename C::iterator it = A::iter(*sl.c);
        VP_CHECK(it.empty(), "the moved-from container still iterates over elements");
        if (opt_.failures)
            check_policy(d);
        full_check(d);
        check_after(d);
        // The source can be destroyed, at once or after a pause.
        delete sl.c;
        sl.c = nullptr;
        sl.ready = false;
        sl.peak = 0;
        full_check(d);
        check_after(d);
    }
};

}  // namespace hm

namespace hm {

// --- many elements ------------------------------------------------------------------------------

static long g_counted = 0;
struct Counted {
    uint32_t k;
    Counted()
     : k(0)
    {
        g_counted++;
    }
    explicit Counted(uint32_t k)
     : k(k)
    {
        g_counted++;
    }
    Counted(const Counted& o)
     : k(o.k)
    {
        g_counted++;
    }
    ~Counted() {
        g_counted--;
    }
    Counted& operator=(const Counted&) = default;
};
struct CountedPolicy {
    typedef Counted Payload;
    static uint32_t hash(uint32_t k) {
        return k;
    }
    static uint32_t hash(const Counted& k) {
        return k.k;
    }
    static bool matches(uint32_t a, const Counted& b) {
        return a == b.k;
    }
    static bool matches(const Counted& a, const Counted& b) {
        return a.k == b.k;
    }
};
struct HugeTable {
    typedef ke::HashTable<CountedPolicy, tk::Policy> C;
    static const long kObjects = 1;
    static const char* name() {
        return "HashTable";
    }
    template <typename I>
    static bool add(C& c, I& i, uint32_t k) {
        return c.add(i, Counted(k));
    }
    static C::iterator iter(C& c) {
        return C::iterator(&c);
    }
    template <typename P>
    static uint32_t key(P& p) {
        return p.k;
    }
};
struct HugeSet {
    typedef ke::HashSet<Counted, CountedPolicy, tk::Policy> C;
    static const long kObjects = 1;
    static const char* name() {
        return "HashSet";
    }
    template <typename I>
    static bool add(C& c, I& i, uint32_t k) {
        return c.add(i, Counted(k));
    }
    static C::iterator iter(C& c) {
        return c.iter();
    }
    template <typename P>
    static uint32_t key(P& p) {
        return p.k;
    }
};
struct HugeMap {
    typedef ke::HashMap<Counted, Counted, CountedPolicy, tk::Policy> C;
    static const long kObjects = 2;
    static const char* name() {
        return "HashMap";
    }
    template <typename I>
    static bool add(C& c, I& i, uint32_t k) {
        return c.add(i, Counted(k), Counted(~k));
    }
    static C::iterator iter(C& c) {
        return c.iter();
    }
    template <typename P>
    static uint32_t key(P& p) {
        VP_CHECK(p.value.k == uint32_t(~p.key.k), "key %u has the value %u of another", p.key.k, p.value.k);
        return p.key.k;
    }
};

// Sizes at which a narrow counter would overflow. Keys are the multiples of an odd number, so that an
// array tells which of them are in.
template <typename A>
static void
Huge(vp::Src& s) {
    static const size_t around[] = {1000, 4096, 16384, 32768, 65536, 100000, 131072, 200000};
    size_t n = around[s.draw(8)] + s.draw(200);
    uint32_t odd = s.coin() ? 1 : uint32_t(s.uint(32)) | 1, inverse = odd;
    for (int i = 0; i < 5; i++)
        inverse *= 2 - odd * inverse;
    std::vector<char> in(n);
    size_t count = 0, peak = 0;
    tk::Arena arena;
    long base = g_counted;
    size_t cap = s.coin() ? 0 : size_t(1) << s.draw(19);
    VP_LOG("%s of up to %zu elements, keys are multiples of %u, capacity %zu at first", A::name(), n, odd, cap);
    s.nontrivial();
    {
        typename A::C first(tk::Policy(&arena, 1));
        VP_CHECK(cap ? first.init(cap) : first.init(), "init failed");
        typename A::C* c = &first;
        std::unique_ptr<typename A::C> moved;
        size_t rounds = 1 + s.draw(4);
        for (size_t r = 0; r < rounds; r++) {
            size_t stride = 1 + s.draw(3), from = s.draw(n), many = s.coin() ? n : s.draw(n);
            unsigned what = r ? unsigned(s.draw(6)) : 0;
            VP_LOG("%s %zu, every %zu from %zu on", what <= 1 ? "add" : what == 2 ? "remove" : what == 3 ? "erase by iterator" : what == 4 ? "move" : "clear",
                   many, stride, from);
            if (what == 3) {
                uint32_t m = uint32_t(2 + s.draw(5));
                for (auto it = A::iter(*c); !it.empty(); it.next()) {
                    uint32_t i = A::key(*it) * inverse;
                    VP_CHECK(i < n && in[i], "iteration yields a key that is not in the container or was erased");
                    if (i % m != 0) {
                        it.erase();
                        in[i] = 0;
                        count--;
                    }
                }
            } else if (what == 4) {
                moved.reset(new typename A::C(std::move(*c)));
                VP_CHECK(c->elements() == 0, "the source of a move has %zu elements", c->elements());
                c = moved.get();
                rounds = r + 1;
            } else if (what == 5) {
                c->clear();
                std::fill(in.begin(), in.end(), 0);
                count = 0;
            } else {
                for (size_t k = 0; k < many; k += stride) {
                    size_t i = (from + k) % n;
                    uint32_t key = uint32_t(i) * odd;
                    if (what <= 1) {
                        auto p = c->findForAdd(key);
                        VP_CHECK(p.found() == !!in[i], "the insertion point of key %u is %s", key, in[i] ? "free although it is in" : "taken");
                        if (!p.found()) {
                            VP_CHECK(A::add(*c, p, key), "add failed");
                            VP_CHECK(A::key(*p) == key, "the insertion point is not of the added key");
                            in[i] = 1;
                            count++;
                        }
                    } else {
                        c->removeIfExists(key);
                        count -= in[i];
                        in[i] = 0;
                    }
                }
            }
            peak = std::max(peak, count);
            VP_CHECK(c->elements() == count, "elements() is %zu, expected %zu", c->elements(), count);
            VP_CHECK(g_counted - base == long(count) * A::kObjects, "%ld objects are alive, expected %zu", g_counted - base,
                     count * A::kObjects);
            std::vector<char> seen(n);
            size_t visits = 0;
            for (auto it = A::iter(*c); !it.empty(); it.next()) {
                uint32_t i = A::key(*it) * inverse;
                VP_CHECK(i < n && in[i] && !seen[i], "iteration yields a key that is not in the container, or twice");
                seen[i] = 1;
                visits++;
            }
            VP_CHECK(visits == count, "iteration visits %zu elements of %zu", visits, count);
            for (size_t i = 0; i < n; i++) {
                auto f = c->find(uint32_t(i) * odd);
                VP_CHECK(f.found() == !!in[i], "find says %d of key %zu * %u", f.found(), i, odd);
                if (f.found())
                    VP_CHECK(A::key(*f) == uint32_t(i) * odd, "find gives another key");
            }
            size_t bound = 48 * (2 * std::max<size_t>(cap, 16) + 16 * peak + 64);
            VP_CHECK(arena.bytes_of(1) <= bound, "%zu bytes held for at most %zu elements", arena.bytes_of(1), peak);
        }
    }
    VP_CHECK(g_counted == base, "%ld objects are alive after the container is gone", g_counted - base);
    VP_CHECK(arena.n == 0, "%zu blocks were not given back", arena.n);
}

} // namespace hm
