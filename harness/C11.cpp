// C11: reference-counting smart pointers keep objects alive exactly as long as held.
// Non-trivial: an object was destroyed by dropping its last reference while another assignment,
// adoption or hand-over had happened before.
#include "../engine/vp.h"

#include <assert.h>

#include <memory>
#include <vector>

#include <amtl/am-refcounting.h>

#include "common/sizes.h"
#include "common/track.h"

using ke::AdoptRef;
using ke::AlreadyRefed;
using ke::IRefcounted;
using ke::RefPtr;
using ke::Refcounted;
using ke::VirtualRefcounted;

// World: which objects are alive according to the real code.
struct World {
    std::vector<int> alive;  // 0 not yet, 1 alive, 2 destroyed
    World() {}
};
static World* g_w;

static void
Died(int id) {
    VP_CHECK(g_w->alive[id] == 1, "object %d is destroyed twice", id);
    g_w->alive[id] = 2;
}

// Three ways of counting.  Each node may hold one reference to another node.
struct PBase : public Refcounted<PBase> {
    tk::Val mark;
    int id;
    RefPtr<PBase> link;
    explicit PBase(int i)
     : mark(i),
       id(i)
    {
        g_w->alive[i] = 1;
    }
    virtual ~PBase() {
        mark.check("destroyed");
        Died(id);
    }
};
struct PDerived : public PBase {
    long extra;
    explicit PDerived(int i)
     : PBase(i),
       extra(i * 7)
    {}
};

struct Other {
    virtual ~Other() {}
    long pad = 3;
};
struct VBase : public VirtualRefcounted {
    tk::Val mark;
    int id;
    RefPtr<VBase> link;
    explicit VBase(int i)
     : mark(i),
       id(i)
    {
        g_w->alive[i] = 1;
    }
    virtual ~VBase() {
        mark.check("destroyed");
        Died(id);
    }
};
struct VDerived : public Other, public VBase {
    long extra;
    explicit VDerived(int i)
     : VBase(i),
       extra(i * 7)
    {}
};

// Implements the interface by forwarding to the plain base.
struct IBase : public IRefcounted, public Refcounted<IBase> {
    KE_IMPL_REFCOUNTING(IBase)
    tk::Val mark;
    int id;
    RefPtr<IBase> link;
    explicit IBase(int i)
     : mark(i),
       id(i)
    {
        g_w->alive[i] = 1;
    }
    virtual ~IBase() {
        mark.check("destroyed");
        Died(id);
    }
};
struct IDerived : public IBase {
    long extra;
    explicit IDerived(int i)
     : IBase(i),
       extra(i * 7)
    {}
};

template <typename B, typename D>
class Run
{
    vp::Src& s;
    World w;
    // Model.
    struct Obj {
        bool alive = false, derived = false;
        long refs = 0;
        int link = -1;
        B* p = nullptr;
    };
    std::vector<Obj> objs;
    static const int kN = 5;
    RefPtr<B> hb[kN];
    int mb[kN];
    RefPtr<D> hd[3];
    int md[3];
    std::unique_ptr<AlreadyRefed<B>> ar[2];
    int mar[2];
    std::vector<int> raw;  // manual references
    unsigned handovers = 0, deaths = 0, deaths_after = 0;

  public:
    explicit Run(vp::Src& src)
     : s(src)
    {
        for (int& x : mb)
            x = -1;
        for (int& x : md)
            x = -1;
        for (int& x : mar)
            x = -1;
    }

    void go() {
        g_w = &w;
        long live0 = tk::g.live;
        while (s.more(35)) {
            step();
            check();
        }
        // Let go of everything.
        for (int i = 0; i < kN; i++) {
            hb[i] = RefPtr<B>();
            drop(mb[i]);
            mb[i] = -1;
            check();
        }
        for (int i = 0; i < 3; i++) {
            hd[i] = RefPtr<D>();
            drop(md[i]);
            md[i] = -1;
        }
        for (int i = 0; i < 2; i++) {
            ar[i].reset();
            drop(mar[i]);
            mar[i] = -1;
        }
        while (!raw.empty()) {
            int id = raw.back();
            raw.pop_back();
            objs[id].p->Release();
            drop(id);
        }
        check();
        for (size_t i = 0; i < objs.size(); i++)
            VP_CHECK(w.alive[i] == 2, "object %zu survives its last reference", i);
        VP_CHECK(tk::g.live == live0, "lifetime: object members survive");
        if (deaths_after)
            s.nontrivial();
    }

  private:
    void add(int id) {
        if (id >= 0)
            objs[id].refs++;
    }
    void drop(int id) {
        while (id >= 0) {
            Obj& o = objs[id];
            if (--o.refs > 0)
                return;
            o.alive = false;
            deaths++;
            if (handovers)
                deaths_after++;
            id = o.link;
            o.link = -1;
        }
    }

    void check() {
        for (size_t i = 0; i < objs.size(); i++) {
            VP_CHECK((w.alive[i] == 1) == objs[i].alive,
                     objs[i].alive ? "object %zu was destroyed while %ld reference(s) to it exist"
                                   : "object %zu is still alive without any reference (%ld)",
                     i, objs[i].refs);
            if (objs[i].alive) {
                VP_CHECK(objs[i].p->id == int(i), "object %zu is damaged", i);
                B* l = objs[i].p->link.get();
                VP_CHECK((l ? l->id : -1) == objs[i].link, "object %zu links to %d, expected %d", i,
                         l ? l->id : -1, objs[i].link);
            }
        }
        for (int i = 0; i < kN; i++)
            same(hb[i], mb[i], "handle");
        for (int i = 0; i < 3; i++)
            same(hd[i], md[i], "derived handle");
        for (int i = 0; i < 2; i++) {
            if (!ar[i])
                continue;
            AlreadyRefed<B>& a = *ar[i];
            B* want = mar[i] >= 0 ? objs[mar[i]].p : nullptr;
            VP_CHECK(a == want && !(a != want) && !a == !want && a.operator ->() == want,
                     "an adopted reference refers to another object than expected");
            B* no = want ? nullptr : reinterpret_cast<B*>(&w);
            VP_CHECK(!(a == no) && a != no, "an adopted reference equals another address");
        }
    }
    template <typename T>
    void same(RefPtr<T>& h, int id, const char* what) {
        B* want = id >= 0 ? objs[id].p : nullptr;
        const RefPtr<T>& c = h;
        VP_CHECK(static_cast<B*>(c.get()) == want, "a %s refers to object %d, expected %d", what,
                 c.get() ? c->id : -1, id);
        VP_CHECK(*c == c.get() && c.operator ->() == c.get() && static_cast<T*>(h) == c.get() &&
                     static_cast<T*>(c) == c.get() && bool(c) == !!want && !c == !want &&
                     *h.byref() == c.get() && *c.byref_const() == c.get(),
                 "the accessors of a %s disagree", what);
        if (want)
            VP_CHECK(&static_cast<T&>(h) == c.get(), "conversion to a reference gives another object");
    }

    B* newborn(bool* derived, D** d) {
        int id = int(objs.size());
        w.alive.push_back(0);
        objs.emplace_back();
        *derived = s.coin();
        B* p;
        if (*derived) {
            *d = new D(id);
            p = *d;
        } else {
            p = new B(id);
            *d = nullptr;
        }
        objs[id].alive = true;
        objs[id].derived = *derived;
        objs[id].p = p;
        return p;
    }

    void step() {
        static const unsigned ws[] = {8, 6, 5, 4, 3, 4, 4, 4, 4, 3, 3, 4, 4, 3, 3, 2, 2};
        size_t op = s.weighted(ws);
        int i = int(s.draw(kN)), j = int(s.draw(kN));
        switch (op) {
            case 0: {
                // A newborn object is assigned to a handle.
                if (objs.size() > 60)
                    break;
                bool der;
                D* d;
                B* p = newborn(&der, &d);
                VP_LOG("h%d = new %d%s\n", i, p->id, der ? " (derived)" : "");
                int old = mb[i];
                unsigned how = unsigned(s.draw(3));
                if (how == 0) {
                    hb[i] = p;
                } else if (how == 1 && d) {
                    hb[i] = d;  // raw pointer to derived
                } else {
                    RefPtr<B> tmp(p);
                    hb[i] = tmp;
                }
                mb[i] = p->id;
                add(p->id);
                drop(old);
                break;
            }
            case 1: {
                VP_LOG("h%d = h%d\n", i, j);
                RefPtr<B>& src = hb[j];
                RefPtr<B>& r = (hb[i] = src);
                VP_CHECK(&r == &hb[i], "assignment does not return the pointer");
                int old = mb[i];
                mb[i] = mb[j];
                add(mb[i]);
                drop(old);
                if (i == j)
                    s.mark("self copy-assignment");
                break;
            }
            case 2: {
                VP_LOG("h%d = move(h%d)\n", i, j);
                RefPtr<B>& src = hb[j];
                hb[i] = std::move(src);
                if (i != j) {
                    int old = mb[i];
                    mb[i] = mb[j];
                    mb[j] = -1;
                    drop(old);
                } else {
                    // Keeping the object or dropping it are both acceptable for a self-move.
                    s.mark("self move-assignment");
                    if (!hb[i] && mb[i] >= 0) {
                        int old = mb[i];
                        mb[i] = -1;
                        drop(old);
                    }
                }
                handovers++;
                break;
            }
            case 3: {
                // From the raw pointer it, or another handle, already holds.
                VP_LOG("h%d = h%d.get()\n", i, j);
                B* p = hb[j].get();
                if (!p)
                    break;
                hb[i] = p;
                int old = mb[i];
                mb[i] = mb[j];
                add(mb[i]);
                drop(old);
                if (i == j)
                    s.mark("assigned its own raw pointer");
                break;
            }
            case 4:
                VP_LOG("h%d = null\n", i);
                if (s.coin())
                    hb[i] = RefPtr<B>();
                else
                    hb[i] = (B*)nullptr;
                {
                    int old = mb[i];
                    mb[i] = -1;
                    drop(old);
                }
                break;
            case 5:
                // Link a node to a younger one (no cycles).
                if (mb[i] >= 0 && mb[j] > mb[i]) {
                    VP_LOG("object %d links to %d\n", mb[i], mb[j]);
                    hb[i]->link = hb[j];
                    int old = objs[mb[i]].link;
                    objs[mb[i]].link = mb[j];
                    add(mb[j]);
                    drop(old);
                    handovers++;
                }
                break;
            case 6:
                // head = head->link: the source lives in the object being released.
                if (mb[i] >= 0) {
                    VP_LOG("h%d = h%d->link\n", i, i);
                    int old = mb[i], l = objs[old].link;
                    if (objs[old].refs == 1 && l >= 0)
                        s.mark("assigned from inside the released object");
                    unsigned how = unsigned(s.draw(3));
                    if (how == 0) {
                        hb[i] = hb[i]->link;
                        mb[i] = l;
                        add(l);
                        drop(old);
                    } else if (how == 1) {
                        hb[i] = std::move(hb[i]->link);
                        mb[i] = l;
                        objs[old].link = -1;
                        drop(old);
                    } else if (B* p = hb[i]->link.get()) {
                        hb[i] = p;
                        mb[i] = l;
                        add(l);
                        drop(old);
                    }
                    handovers++;
                }
                break;
            case 7: {
                // take()/forget() into an AlreadyRefed.
                int k = int(s.draw(2));
                VP_LOG("a%d = h%d.%s\n", k, i, op ? "take/forget" : "");
                ar[k].reset();
                drop(mar[k]);
                mar[k] = -1;
                ar[k].reset(new AlreadyRefed<B>(s.coin() ? hb[i].take() : hb[i].forget()));
                mar[k] = mb[i];
                mb[i] = -1;
                handovers++;
                break;
            }
            case 8: {
                // Adopt: the reference moves, none is added.
                int k = int(s.draw(2));
                if (!ar[k])
                    break;
                VP_LOG("h%d adopts a%d\n", i, k);
                unsigned how = unsigned(s.draw(3));
                int old = mb[i];
                if (how == 0) {
                    hb[i] = *ar[k];
                } else if (how == 1) {
                    RefPtr<B> tmp(*ar[k]);
                    hb[i] = tmp;
                } else {
                    B* p = ar[k]->take();
                    hb[i] = AdoptRef(p);
                }
                mb[i] = mar[k];
                mar[k] = -1;
                drop(old);
                handovers++;
                s.mark("adopted");
                break;
            }
            case 9: {
                // Copy or move an AlreadyRefed.
                int k = int(s.draw(2));
                if (!ar[k])
                    break;
                ar[1 - k].reset();
                drop(mar[1 - k]);
                mar[1 - k] = -1;
                if (s.coin()) {
                    VP_LOG("a%d: copy of a%d\n", 1 - k, k);
                    const AlreadyRefed<B>& src = *ar[k];
                    ar[1 - k].reset(new AlreadyRefed<B>(src));
                    mar[1 - k] = mar[k];
                    add(mar[k]);
                } else {
                    VP_LOG("a%d: moved from a%d\n", 1 - k, k);
                    ar[1 - k].reset(new AlreadyRefed<B>(std::move(*ar[k])));
                    mar[1 - k] = mar[k];
                    mar[k] = -1;
                }
                break;
            }
            case 10:
                // A manual reference.
                if (mb[i] >= 0 && raw.size() < 6) {
                    VP_LOG("AddRef(%d)\n", mb[i]);
                    hb[i]->AddRef();
                    raw.push_back(mb[i]);
                    add(mb[i]);
                }
                break;
            case 11:
                // Give a manual reference back: released, or adopted by a handle.
                if (!raw.empty()) {
                    size_t k = s.draw(raw.size());
                    int id = raw[k];
                    raw.erase(raw.begin() + k);
                    B* p = objs[id].p;
                    if (s.coin()) {
                        VP_LOG("Release(%d)\n", id);
                        p->Release();
                        drop(id);
                    } else {
                        VP_LOG("h%d = AdoptRef(%d)\n", i, id);
                        int old = mb[i];
                        hb[i] = AdoptRef(p);
                        mb[i] = id;
                        drop(old);
                        handovers++;
                    }
                }
                break;
            case 12: {
                // Derived handles.
                int k = int(s.draw(3));
                unsigned how = unsigned(s.draw(4));
                if (how == 0 && objs.size() <= 60) {
                    int id = int(objs.size());
                    w.alive.push_back(0);
                    objs.emplace_back();
                    D* d = new D(id);
                    objs[id].alive = objs[id].derived = true;
                    objs[id].p = d;
                    VP_LOG("d%d = new %d\n", k, id);
                    int old = md[k];
                    hd[k] = d;
                    md[k] = id;
                    add(id);
                    drop(old);
                } else if (how == 1) {
                    VP_LOG("h%d = d%d\n", i, k);
                    int old = mb[i];
                    const RefPtr<D>& src = hd[k];
                    hb[i] = src;
                    mb[i] = md[k];
                    add(md[k]);
                    drop(old);
                    s.mark("derived to base");
                } else if (how == 2) {
                    VP_LOG("h%d = move(d%d)\n", i, k);
                    int old = mb[i];
                    RefPtr<B> tmp(std::move(hd[k]));
                    VP_CHECK(!hd[k], "the source of a converting move is not empty");
                    hb[i] = std::move(tmp);
                    mb[i] = md[k];
                    md[k] = -1;
                    drop(old);
                    handovers++;
                    s.mark("derived to base");
                } else if (mb[i] >= 0 && objs[mb[i]].derived) {
                    VP_LOG("d%d = downcast h%d\n", k, i);
                    int old = md[k];
                    hd[k] = static_cast<D*>(hb[i].get());
                    md[k] = mb[i];
                    add(md[k]);
                    drop(old);
                }
                break;
            }
            case 13: {
                // Derived adoption: AlreadyRefed<D> into RefPtr<B>.
                int k = int(s.draw(3));
                VP_LOG("h%d = d%d.forget()\n", i, k);
                int old = mb[i];
                if (s.coin()) {
                    hb[i] = hd[k].forget();
                } else {
                    RefPtr<B> tmp(hd[k].take());
                    hb[i] = std::move(tmp);
                }
                VP_CHECK(!hd[k], "forget() or take() left the source non-empty");
                mb[i] = md[k];
                md[k] = -1;
                drop(old);
                handovers++;
                break;
            }
            case 14: {
                // An out-parameter through byref()/address().
                int src = mb[j];
                if (src < 0)
                    break;
                int old = mb[i];
                B* p = hb[j].get();
                hb[i] = (B*)nullptr;
                mb[i] = -1;
                if (i == j) {
                    drop(old);
                    break;
                }
                drop(old);
                if (!objs[src].alive)
                    break;
                VP_LOG("h%d receives %d through an out-parameter\n", i, src);
                p->AddRef();
                if (s.coin())
                    *hb[i].byref() = p;
                else
                    *reinterpret_cast<B**>(hb[i].address()) = p;
                mb[i] = src;
                add(src);
                break;
            }
            case 15: {
                // Copy and move construction, then swap by moves.
                VP_LOG("swap h%d h%d\n", i, j);
                if (i == j)
                    break;
                RefPtr<B> t(std::move(hb[i]));
                VP_CHECK(!hb[i], "the source of a move is not empty");
                hb[i] = std::move(hb[j]);
                VP_CHECK(!hb[j], "the source of a move is not empty");
                hb[j] = std::move(t);
                std::swap(mb[i], mb[j]);
                RefPtr<B> c(hb[i]);
                VP_CHECK(c.get() == hb[i].get(), "a copy refers to another object");
                break;
            }
            default:
                // Unlink.
                if (mb[i] >= 0) {
                    VP_LOG("object %d unlinks\n", mb[i]);
                    int l = objs[mb[i]].link;
                    objs[mb[i]].link = -1;
                    hb[i]->link = (B*)nullptr;
                    drop(l);
                }
        }
    }
};

VP_TARGET(Plain, 100000, 4000000, vp::kLeakCheck) {
    Run<PBase, PDerived> r(s);
    r.go();
}
VP_TARGET(Virtual, 100000, 4000000, vp::kLeakCheck) {
    Run<VBase, VDerived> r(s);
    r.go();
}
VP_TARGET(Forwarded, 60000, 2000000, vp::kLeakCheck) {
    Run<IBase, IDerived> r(s);
    r.go();
}

// Through the interface alone.
VP_TARGET(Interface, 60000, 1000000, vp::kLeakCheck) {
    World w;
    g_w = &w;
    std::vector<RefPtr<IRefcounted>> h(4);
    std::vector<int> m(4, -1);
    std::vector<long> refs;
    bool nt = false;
    while (s.more(20)) {
        size_t i = s.draw(4), j = s.draw(4);
        int old = m[i];
        if (s.coin() && refs.size() < 30) {
            int id = int(refs.size());
            w.alive.push_back(0);
            refs.push_back(1);
            if (s.coin())
                h[i] = new VDerived(id);
            else
                h[i] = new IDerived(id);
            m[i] = id;
            VP_LOG("h%zu = new %d\n", i, id);
        } else {
            h[i] = h[j];
            m[i] = m[j];
            if (m[i] >= 0)
                refs[m[i]]++;
            VP_LOG("h%zu = h%zu\n", i, j);
        }
        if (old >= 0 && --refs[old] == 0)
            nt = true;
        for (size_t k = 0; k < refs.size(); k++)
            VP_CHECK((w.alive[k] == 1) == (refs[k] > 0), "object %zu: alive is %d with %ld reference(s)", k,
                     w.alive[k], refs[k]);
    }
    h.clear();
    for (size_t k = 0; k < refs.size(); k++)
        VP_CHECK(w.alive[k] == 2, "object %zu survives its last reference", k);
    if (nt)
        s.nontrivial();
}

// So many references that a narrow count would wrap.
template <typename B, typename D>
static void
ManyRefs(vp::Src& s) {
    World w;
    g_w = &w;
    w.alive.push_back(0);
    size_t n = LargeSize(s, 300000);
    B* raw;
    if (s.coin())
        raw = new D(0);
    else
        raw = new B(0);
    size_t direct = s.coin() ? s.draw(n) : 0; // references taken without a smart pointer
    bool back = s.coin();
    VP_LOG("%zu references, %zu of them taken by hand, smart ones dropped %s", n, direct, back ? "last to first" : "first to last");
    {
        std::vector<RefPtr<B>> refs;
        refs.reserve(n);
        refs.emplace_back(raw);
        for (size_t i = 0; i < direct; i++)
            raw->AddRef();
        while (refs.size() + direct < n) {
            if (refs.size() & 1)
                refs.emplace_back(refs[refs.size() / 2]);
            else
                refs.emplace_back(raw);
        }
        size_t cut = s.draw(refs.size());
        if (back) {
            while (refs.size() > cut + 1)
                refs.pop_back();
        } else {
            for (size_t i = 0; i < refs.size() - 1 && i < cut; i++)
                refs[i] = nullptr;
        }
        VP_CHECK(w.alive[0] == 1 && refs[back ? 0 : refs.size() - 1].get() == raw,
                 "an object with %zu references was destroyed while some were left", n);
        VP_CHECK(raw->id == 0, "the object is damaged");
        for (size_t i = 0; i < direct; i++) {
            raw->Release();
            VP_CHECK(w.alive[0] == 1, "destroyed after %zu releases while references are left", i + 1);
        }
        for (size_t i = 0; i < refs.size(); i++) {
            VP_CHECK(w.alive[0] == (refs[i] ? 1 : w.alive[0]), "destroyed while reference %zu is left", i);
            bool had = bool(refs[i]);
            refs[i] = nullptr;
            if (had && i + 1 < refs.size())
                VP_CHECK(w.alive[0] == 1, "destroyed with %zu references left", refs.size() - i - 1);
        }
    }
    VP_CHECK(w.alive[0] == 2, "an object that had %zu references survives the last one", n);
    if (n > 256)
        s.nontrivial();
}
VP_TARGET(ManyReferences, 2400, 60000, vp::kLeakCheck) {
    switch (s.draw(3)) {
        case 0:
            ManyRefs<PBase, PDerived>(s);
            break;
        case 1:
            ManyRefs<VBase, VDerived>(s);
            break;
        default:
            ManyRefs<IBase, IDerived>(s);
    }
}
