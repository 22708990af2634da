// C01: hash table, map and set behave as a dictionary under any history.
// Non-trivial: the history has a removal and at least 4 additions.
#include "../engine/vp.h"

#include <map>
#include <memory>
#include <string>
#include <vector>

#include "common/hash_model.h"

using ke::SystemAllocatorPolicy;

template <template <typename> class A, typename P>
static void
Go(vp::Src& s, bool big) {
    hm::Opt o;
    o.big = big;
    hm::Run<A<P>, P> r(s, o);
    r.go();
}

VP_TARGET(Table, 60000, 2000000, vp::kLeakCheck) { Go<hm::TableA, SystemAllocatorPolicy>(s, false); }
VP_TARGET(Map, 60000, 2000000, vp::kLeakCheck) { Go<hm::MapA, SystemAllocatorPolicy>(s, false); }
VP_TARGET(Set, 60000, 2000000, vp::kLeakCheck) { Go<hm::SetA, SystemAllocatorPolicy>(s, false); }
VP_TARGET(TableLong, 1500, 40000, vp::kLeakCheck) { Go<hm::TableA, SystemAllocatorPolicy>(s, true); }
VP_TARGET(MapLong, 1500, 40000, vp::kLeakCheck) { Go<hm::MapA, SystemAllocatorPolicy>(s, true); }
VP_TARGET(SetLong, 1500, 40000, vp::kLeakCheck) { Go<hm::SetA, SystemAllocatorPolicy>(s, true); }
VP_TARGET(TableHuge, 60, 2000, vp::kLeakCheck) { hm::Huge<hm::HugeTable>(s); }
VP_TARGET(MapHuge, 60, 2000, vp::kLeakCheck) { hm::Huge<hm::HugeMap>(s); }
VP_TARGET(SetHuge, 60, 2000, vp::kLeakCheck) { hm::Huge<hm::HugeSet>(s); }

// --- the key and value types of users -----------------------------------------------------------

struct TextPolicy {
    static uint32_t hash(const std::string& k) {
        return ke::HashCharSequence(k.data(), k.size());
    }
    static uint32_t hash(const char* k) {
        return ke::HashCharSequence(k, strlen(k));
    }
    static bool matches(const std::string& a, const std::string& b) {
        return a == b;
    }
    static bool matches(const char* a, const std::string& b) {
        return b == a;
    }
};
struct IntPolicy {
    static uint32_t hash(int k) {
        return ke::HashInt32(k);
    }
    static bool matches(int a, int b) {
        return a == b;
    }
};
struct LongPolicy {
    static uint32_t hash(int64_t k) {
        return ke::HashInt64(k);
    }
    static bool matches(int64_t a, int64_t b) {
        return a == b;
    }
};
struct OwnerPolicy {
    static uint32_t hash(const std::unique_ptr<long>& k) {
        return ke::HashInt64(*k);
    }
    static uint32_t hash(long k) {
        return ke::HashInt64(k);
    }
    static bool matches(const std::unique_ptr<long>& a, const std::unique_ptr<long>& b) {
        return *a == *b;
    }
    static bool matches(long a, const std::unique_ptr<long>& b) {
        return a == *b;
    }
};
struct Wide {
    long x;
    char pad[200];
    bool flag;
};

static std::string
KeyText(size_t i) {
    std::string r = std::to_string(i);
    if (i % 3 == 0)
        r.insert(0, 30, 'k');
    return i % 7 ? r : std::string(i / 7 + 1, 'x');
}

struct TextToText {
    typedef ke::HashMap<std::string, std::string, TextPolicy> C;
    static std::string lookup(size_t i) { return KeyText(i); }
    template <typename I> static bool add(C& c, I& p, size_t i, long v, bool how) {
        if (how)
            return c.add(p, KeyText(i), std::to_string(v));
        std::string k = KeyText(i), t = std::to_string(v);
        bool ok = c.add(p, k, t);
        VP_CHECK(k == KeyText(i) && t == std::to_string(v), "add changed what it was given");
        return ok;
    }
    template <typename E> static bool is(E& e, size_t i) { return e.key == KeyText(i); }
    template <typename E> static long val(E& e) { return atol(e.value.c_str()); }
    template <typename E> static void set(E& e, long v) { e.value = std::to_string(v); }
};
// Keys that are equal without being identical: the policy alone decides.
struct FoldPolicy {
    static std::string fold(std::string k) {
        for (char& c : k)
            c = c >= 'A' && c <= 'Z' ? char(c + 32) : c;
        return k;
    }
    static uint32_t hash(const std::string& k) {
        std::string f = fold(k);
        return ke::HashCharSequence(f.data(), f.size() > 2 ? 2 : f.size());
    }
    static bool matches(const std::string& a, const std::string& b) {
        return fold(a) == fold(b);
    }
};
struct FoldedToInt {
    typedef ke::HashMap<std::string, int, FoldPolicy> C;
    static unsigned spelling;
    static std::string lookup(size_t i) {
        std::string k = "key" + std::to_string(i) + "end";
        for (char& c : k) {
            spelling = spelling * 1103515245u + 12345u;
            if (c >= 'a' && (spelling >> 16 & 1))
                c = char(c - 32);
        }
        return k;
    }
    template <typename I> static bool add(C& c, I& p, size_t i, long v, bool) {
        std::string k = lookup(i);
        bool ok = c.add(p, k, int(v));
        VP_CHECK(!ok || p->key == k, "the key was not stored as it was given");
        return ok;
    }
    template <typename E> static bool is(E& e, size_t i) { return FoldPolicy::matches(e.key, lookup(i)); }
    template <typename E> static long val(E& e) { return e.value; }
    template <typename E> static void set(E& e, long v) { e.value = int(v); }
};
unsigned FoldedToInt::spelling;
struct IntToInt {
    typedef ke::HashMap<int, int, IntPolicy> C;
    static int lookup(size_t i) { return int(i * 77777777u); }
    template <typename I> static bool add(C& c, I& p, size_t i, long v, bool) { return c.add(p, lookup(i), int(v)); }
    template <typename E> static bool is(E& e, size_t i) { return e.key == lookup(i); }
    template <typename E> static long val(E& e) { return e.value; }
    template <typename E> static void set(E& e, long v) { e.value = int(v); }
};
struct PointerToWide {
    typedef ke::HashMap<char*, Wide, ke::PointerPolicy<char>> C;
    static char* lookup(size_t i) { return (char*)(uintptr_t(i) * 0x100000010ull); }
    template <typename I> static bool add(C& c, I& p, size_t i, long v, bool) {
        Wide w = {};
        w.x = v;
        w.flag = true;
        w.pad[199] = char(v);
        return c.add(p, lookup(i), w);
    }
    template <typename E> static bool is(E& e, size_t i) { return e.key == lookup(i); }
    template <typename E> static long val(E& e) { return e.value.flag && e.value.pad[199] == char(e.value.x) ? e.value.x : -1; }
    template <typename E> static void set(E& e, long v) { e.value.x = v, e.value.pad[199] = char(v); }
};
struct OwnerToOwner {
    typedef ke::HashMap<std::unique_ptr<long>, std::unique_ptr<long>, OwnerPolicy> C;
    static long lookup(size_t i) { return long(i) * 0x123456789l; }
    template <typename I> static bool add(C& c, I& p, size_t i, long v, bool) {
        return c.add(p, std::unique_ptr<long>(new long(lookup(i))), std::unique_ptr<long>(new long(v)));
    }
    template <typename E> static bool is(E& e, size_t i) { return e.key && *e.key == lookup(i); }
    template <typename E> static long val(E& e) { return e.value ? *e.value : -1; }
    template <typename E> static void set(E& e, long v) { *e.value = v; }
};
struct LongToList {
    typedef ke::HashMap<int64_t, std::vector<long>, LongPolicy> C;
    static int64_t lookup(size_t i) { return int64_t(i) << 33; }
    template <typename I> static bool add(C& c, I& p, size_t i, long v, bool how) {
        if (how) {
            if (!c.add(p, lookup(i)))
                return false;
            VP_CHECK(p->value.empty(), "the value of an add without one is not a default value");
        } else if (!c.add(p)) {
            return false;
        } else {
            p->key = lookup(i);
        }
        p->value.push_back(v);
        return true;
    }
    template <typename E> static bool is(E& e, size_t i) { return e.key == lookup(i); }
    template <typename E> static long val(E& e) { return e.value.size() == 1 ? e.value[0] : -1; }
    template <typename E> static void set(E& e, long v) { e.value.assign(1, v); }
};
template <typename K>
struct SetKind {
    template <typename E> static bool is(E& e, size_t i) { return e == K::lookup(i); }
    template <typename E> static long val(E&) { return 0; }
    template <typename E> static void set(E&, long) {}
};
struct TextSet : SetKind<TextSet> {
    typedef ke::HashSet<std::string, TextPolicy> C;
    static std::string lookup(size_t i) { return KeyText(i); }
    template <typename I> static bool add(C& c, I& p, size_t i, long, bool how) {
        if (how) {
            c.add(lookup(i));
            p = c.findForAdd(lookup(i));
            return true;
        }
        return c.add(p, lookup(i));
    }
};
struct PointerSet : SetKind<PointerSet> {
    typedef ke::HashSet<char*, ke::PointerPolicy<char>> C;
    static char* lookup(size_t i) { return (char*)(uintptr_t(i + 1) << 12); }
    template <typename I> static bool add(C& c, I& p, size_t i, long, bool) { return c.add(p, lookup(i)); }
};

template <typename A>
static void
Kind(vp::Src& s) {
    typedef typename A::C C;
    const bool kSet = std::is_same<A, TextSet>::value || std::is_same<A, PointerSet>::value;
    std::unique_ptr<C> c(new C());
    size_t cap = size_t(1) << s.draw(7);
    VP_CHECK(c->init(cap), "init failed");
    std::map<size_t, long> m;
    long next = 1;
    size_t removed = 0, added = 0;
    size_t keys = 1 + s.draw(s.draw(20) == 19 ? 400 : 40);
    VP_LOG("capacity %zu, %zu keys", cap, keys);
    auto check = [&](auto& e, size_t i) {
        VP_CHECK(A::is(e, i), "an entry found for key %zu has another key", i);
        VP_CHECK(kSet || A::val(e) == m[i], "key %zu has the value %ld, expected %ld", i, long(A::val(e)), m[i]);
    };
    size_t steps = 0;
    while (steps++ < 400 && s.more(60)) {
        size_t i = s.draw(keys);
        bool in = m.count(i);
        static const unsigned w[] = {14, 5, 5, 6, 2, 1, 1, 2, 1};
        switch (s.weighted(w)) {
            case 0: {
                long v = next++;
                auto p = c->findForAdd(A::lookup(i));
                VP_LOG("add %zu (%s)", i, in ? "there" : "new");
                VP_CHECK(p.found() == in, "the insertion point of key %zu is %s", i, in ? "free" : "taken");
                if (in) {
                    check(*p, i);
                    A::set(*p, v);
                } else {
                    VP_CHECK(A::add(*c, p, i, v, s.coin()), "add failed");
                    added++;
                }
                m[i] = kSet ? 0 : v;
                check(*p, i);
                break;
            }
            case 1: {
                auto f = c->find(A::lookup(i));
                VP_LOG("remove %zu (%s)", i, in ? "there" : "not there");
                VP_CHECK(f.found() == in, "find says %d of key %zu", f.found(), i);
                if (in) {
                    check(*f, i);
                    c->remove(f);
                    m.erase(i);
                    removed++;
                }
                break;
            }
            case 2:
                VP_LOG("remove %zu if it exists", i);
                c->removeIfExists(A::lookup(i));
                removed += m.erase(i);
                break;
            case 3: {
                auto f = c->find(A::lookup(i));
                VP_CHECK(f.found() == in, "find says %d of key %zu", f.found(), i);
                if (in)
                    check(*f, i);
                break;
            }
            case 4: {
                VP_LOG("move");
                std::unique_ptr<C> d(new C(std::move(*c)));
                VP_CHECK(c->elements() == 0, "the source of a move has %zu elements", c->elements());
                if (s.draw(3) == 2) {
                    // The source may be set up anew; the two have nothing to do with each other.
                    VP_CHECK(c->init(size_t(1) << s.draw(7)), "init after a move failed");
                    std::map<size_t, long> own;
                    size_t n = 1 + s.draw(12);
                    VP_LOG("set up the source again");
                    for (size_t j = 0; j < n; j++) {
                        size_t k = s.draw(2) ? i : s.draw(keys);
                        if (s.coin()) {
                            auto q = d->find(A::lookup(k));
                            VP_CHECK(q.found() == !!m.count(k), "find in the moved container says %d of key %zu", q.found(), k);
                        }
                        auto f = c->find(A::lookup(k));
                        VP_CHECK(f.found() == !!own.count(k), "find in the source set up again says %d of key %zu", f.found(), k);
                        auto q = c->findForAdd(A::lookup(k));
                        VP_CHECK(q.found() == !!own.count(k), "key %zu is%s in the source set up again", k, q.found() ? "" : " not");
                        if (!q.found() && s.coin()) {
                            VP_CHECK(A::add(*c, q, k, next, s.coin()), "add failed");
                            own[k] = kSet ? 0 : next;
                            next++;
                        }
                        VP_CHECK(c->elements() == own.size(), "elements() is %zu, expected %zu", c->elements(), own.size());
                    }
                    if (s.coin()) {
                        d.reset();
                        m.swap(own);
                        break;
                    }
                }
                c = std::move(d);
                break;
            }
            case 8: {
                // Another container in the place of this one.
                VP_LOG("make another container at the same address");
                auto f = c->find(A::lookup(i));
                VP_CHECK(f.found() == in, "find says %d of key %zu", f.found(), i);
                C* at = c.release();
                at->~C();
                new (at) C();
                c.reset(at);
                m.clear();
                VP_CHECK(c->init(size_t(1) << s.draw(7)), "init failed");
                auto g = c->find(A::lookup(i));
                VP_CHECK(!g.found(), "a new container has key %zu", i);
                break;
            }
            case 5:
                VP_LOG("clear");
                c->clear();
                m.clear();
                break;
            case 6: {
                unsigned mod = 2 + unsigned(s.draw(4)), n = 0;
                VP_LOG("erase all but every %u-th while iterating", mod);
                for (auto it = c->iter(); !it.empty(); it.next()) {
                    if (n++ % mod == 0)
                        continue;
                    size_t k = keys;
                    for (auto& e : m)
                        if (A::is(*it, e.first))
                            k = e.first;
                    VP_CHECK(k < keys, "iteration yields a key that is not there");
                    it.erase();
                    m.erase(k);
                    removed++;
                }
                break;
            }
            default:
                break;
        }
        VP_CHECK(c->elements() == m.size(), "elements() is %zu, expected %zu", c->elements(), m.size());
        if (steps % 16 == 0) {
            for (auto& e : m) {
                auto f = c->find(A::lookup(e.first));
                VP_CHECK(f.found(), "key %zu is lost", e.first);
                check(*f, e.first);
            }
        }
    }
    std::map<size_t, int> seen;
    for (auto it = c->iter(); !it.empty(); it.next()) {
        for (auto& e : m)
            if (A::is(*it, e.first))
                seen[e.first]++;
    }
    for (auto& e : m) {
        VP_CHECK(seen[e.first] == 1, "iteration yields key %zu %d times", e.first, seen[e.first]);
        auto f = c->find(A::lookup(e.first));
        VP_CHECK(f.found(), "key %zu is lost", e.first);
        check(*f, e.first);
    }
    if (removed && added >= 4)
        s.nontrivial();
}

VP_TARGET(Kinds, 40000, 1500000, vp::kLeakCheck) {
    FoldedToInt::spelling = 0;
    switch (s.draw(8)) {
        case 7:
            return Kind<FoldedToInt>(s);
        case 0:
            return Kind<TextToText>(s);
        case 1:
            return Kind<IntToInt>(s);
        case 2:
            return Kind<PointerToWide>(s);
        case 3:
            return Kind<OwnerToOwner>(s);
        case 4:
            return Kind<LongToList>(s);
        case 5:
            return Kind<TextSet>(s);
        default:
            return Kind<PointerSet>(s);
    }
}
