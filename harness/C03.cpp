// C03: hash containers survive allocation failure and size overflow intact.
// Non-trivial: at least one allocation was refused (or one size overflow requested) during the case.
#include "../engine/vp.h"

#include "common/hash_model.h"

template <template <typename> class A>
static void
Go(vp::Src& s, bool big) {
    hm::Opt o;
    o.big = big;
    o.failures = true;
    hm::Run<A<tk::Policy>, tk::Policy> r(s, o);
    r.go();
}

VP_TARGET(Table, 60000, 2000000, vp::kLeakCheck) { Go<hm::TableA>(s, false); }
VP_TARGET(Map, 60000, 2000000, vp::kLeakCheck) { Go<hm::MapA>(s, false); }
VP_TARGET(Set, 60000, 2000000, vp::kLeakCheck) { Go<hm::SetA>(s, false); }
VP_TARGET(TableLong, 1200, 40000, vp::kLeakCheck) { Go<hm::TableA>(s, true); }
VP_TARGET(MapLong, 1200, 40000, vp::kLeakCheck) { Go<hm::MapA>(s, true); }
VP_TARGET(SetLong, 1200, 40000, vp::kLeakCheck) { Go<hm::SetA>(s, true); }

// --- the policy the container exposes can be switched to refuse memory --------------------------

template <typename A>
static void
PolicySwitch(vp::Src& s) {
    typedef typename A::C C;
    tk::Arena arena;
    tk::g_default_arena = &arena;
    hm::g_hash_mode = 0;
    hm::g_hash_param = 1;
    {
        C* c = new C(tk::Policy(&arena, 5));
        VP_LOG("%s: ", A::name());
        VP_CHECK(c->allocPolicy().who == 5, "policy: the container does not expose the policy it was given");
        c->allocPolicy().my_fail = true;
        if (s.coin()) {
            VP_LOG("init refused; ");
            VP_CHECK(!c->init(), "init succeeded although the exposed policy refuses memory");
            VP_CHECK(c->allocPolicy().my_refused == 1, "policy: the exposed policy was not asked for memory");
            s.nontrivial();
        }
        c->allocPolicy().my_fail = false;
        VP_CHECK(c->init(), "init failed with memory available");
        long n = 0;
        std::map<long, long> m;
        bool refusing = false;
        unsigned fails = 0;
        while (s.more(40)) {
            if (s.chance(1, 6)) {
                refusing = !refusing;
                c->allocPolicy().my_fail = refusing;
                VP_LOG("refuse=%d ", refusing);
            }
            if (s.chance(1, 20)) {
                C* d = new C(std::move(*c));
                VP_LOG("move ");
                delete c;
                c = d;
                VP_CHECK(c->allocPolicy().who == 5 && c->allocPolicy().my_fail == refusing,
                         "policy: the policy's state did not travel with the moved container");
            }
            long k = n++;
            auto i = c->findForAdd(hm::Probe{k});
            bool ok = false;
            unsigned long before = c->allocPolicy().my_refused, mb = c->allocPolicy().my_mallocs;
            long v = A::add(*c, i, k, k * 3, unsigned(s.draw(15)), &ok);
            if (ok) {
                m[k] = v;
                VP_CHECK(!refusing || c->allocPolicy().my_mallocs == mb,
                         "policy: memory was obtained past the refusing policy");
            } else {
                VP_CHECK(refusing && c->allocPolicy().my_refused > before,
                         "add failed although the exposed policy refused nothing");
                fails++;
            }
            VP_CHECK(c->elements() == m.size(), "elements() is %zu, expected %zu", c->elements(), m.size());
        }
        if (fails)
            s.nontrivial();
        for (long k = 0; k < n; k++) {
            auto r = c->find(hm::Probe{k});
            VP_CHECK(r.found() == (m.count(k) != 0), "key %ld lost or invented around a refused add", k);
        }
        size_t blocks = c->allocPolicy().my_mallocs - c->allocPolicy().my_frees;
        VP_CHECK(blocks == arena.n, "policy: the exposed policy's balance is %zu, %zu blocks are live",
                 blocks, arena.n);
        delete c;
    }
    VP_CHECK(arena.n == 0, "memory: %zu blocks leaked", arena.n);
}
VP_TARGET(TablePolicy, 40000, 400000, vp::kLeakCheck) { PolicySwitch<hm::TableA<tk::Policy>>(s); }
VP_TARGET(MapPolicy, 40000, 400000, vp::kLeakCheck) { PolicySwitch<hm::MapA<tk::Policy>>(s); }
VP_TARGET(SetPolicy, 40000, 400000, vp::kLeakCheck) { PolicySwitch<hm::SetA<tk::Policy>>(s); }

// --- growth past the largest supported capacity -------------------------------------------------

// A huge payload brings the capacity limit within reach; its memory is reserved, never touched.
static const size_t kHuge = size_t(20) << 20;

struct Huge {
    long id;
    char pad[kHuge];
    Huge() {
        id = -1;
    }
    explicit Huge(long i) {
        id = i;
    }
    Huge(Huge&& o) {
        id = o.id;
        o.id = -2;
    }
    Huge(const Huge& o) {
        id = o.id;
    }
};

struct HugePolicy {
    typedef Huge Payload;
    static uint32_t hash(long k) {
        return uint32_t(k * 7);
    }
    static bool matches(long k, const Huge& h) {
        return h.id == k;
    }
};

VP_TARGET(GrowthOverflow, 160, 2000, vp::kLeakCheck) {
    tk::Arena* arena = new tk::Arena();
    arena->use_mmap = true;
    {
        typedef ke::HashTable<HugePolicy, tk::Policy> T;
        T t(tk::Policy(arena, 3));
        size_t start = size_t(16) << s.draw(3);
        VP_CHECK(t.init(start), "init(%zu) with %zu MB elements failed", start, kHuge >> 20);
        s.nontrivial();
        std::set<long> in;
        long k = 0;
        unsigned fails = 0;
        size_t steps = 120 + s.draw(40);
        for (size_t i = 0; i < steps && fails < 4; i++) {
            if (!in.empty() && s.chance(1, 8)) {
                long gone = *in.begin();
                t.removeIfExists(gone);
                in.erase(gone);
            }
            auto p = t.findForAdd(k);
            VP_CHECK(!p.found(), "key %ld found before it was added", k);
            unsigned long ov = t.allocPolicy().my_overflows, rf = arena->refused;
            // (Constructed in place: a Huge would not fit on the stack.)
            bool ok = t.add(p);
            if (ok) {
                p->id = k;
                in.insert(k);
            } else {
                VP_CHECK(t.allocPolicy().my_overflows == ov + 1 || arena->refused > rf,
                         "add returned false without reporting an overflow");
                if (t.allocPolicy().my_overflows > ov)
                    fails++;
            }
            k++;
            VP_CHECK(t.elements() == in.size(), "elements() is %zu, expected %zu", t.elements(), in.size());
        }
        VP_LOG("start %zu: %zu elements of %zu MB, %u overflow(s) reported", start, in.size(),
               kHuge >> 20, fails);
        VP_CHECK(fails > 0, "growing past %zu elements of %zu MB never reported an overflow", in.size(),
                 kHuge >> 20);
        for (long i = 0; i < k; i++) {
            auto r = t.find(i);
            VP_CHECK(r.found() == (in.count(i) != 0), "key %ld lost or invented around the overflow", i);
        }
    }
    VP_CHECK(arena->n == 0, "memory leaked");
    delete arena;
}
