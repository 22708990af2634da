// C24: scope helpers undo exactly once and in nesting order.
// Non-trivial: at least two helpers are live at once, or a guard was moved.
#include "../engine/vp.h"

#include <assert.h>
#include <string.h>

#include <functional>
#include <limits>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include <amtl/am-raii.h>

#include "common/track.h"

using ke::MakeScopeGuard;
using ke::ReturnAndVoid;
using ke::SaveAndSet;
using ke::ScopeGuard;
using ke::StackLinked;
using tk::Val;

struct Link : public StackLinked<Link> {
    int id;
    Link(Link** top, int i)
     : StackLinked<Link>(top),
       id(i)
    {}
    Link* below() {
        return prev_;
    }
    Link** where() {
        return prevp_;
    }
};

struct World {
    vp::Src& s;
    int ints[3] = {10, 20, 30};
    std::string str = "base";
    Val val;
    Link* tops[2] = {nullptr, nullptr};
    // Models.
    int m_ints[3] = {10, 20, 30};
    std::string m_str = "base";
    long m_val = 7;
    std::vector<std::pair<Link*, int>> m_links[2];
    std::vector<int> fired;   // callback counts
    std::vector<int> expect;
    std::vector<std::vector<int>> order;
    int next_id = 1;
    int live = 0, max_live = 0, budget = 60;
    bool moved = false;

    explicit World(vp::Src& src)
     : s(src),
       val(7)
    {}

    void check(const char* when) {
        for (int i = 0; i < 3; i++)
            VP_CHECK(ints[i] == m_ints[i], "%s: variable %d is %d, expected %d", when, i, ints[i], m_ints[i]);
        VP_CHECK(str == m_str, "%s: the string is %s, expected %s", when, str.c_str(), m_str.c_str());
        VP_CHECK(val.v() == m_val, "%s: the value is %ld, expected %ld", when, val.v(), m_val);
        for (int c = 0; c < 2; c++) {
            Link* p = tops[c];
            for (size_t i = m_links[c].size(); i-- > 0;) {
                VP_CHECK(p == m_links[c][i].first, "%s: chain %d does not list its live scopes innermost first", when, c);
                VP_CHECK(p->id == m_links[c][i].second, "%s: chain %d has a damaged link", when, c);
                p = p->below();
            }
            VP_CHECK(p == nullptr, "%s: chain %d lists more than its live scopes", when, c);
        }
        for (size_t i = 0; i < fired.size(); i++)
            VP_CHECK(fired[i] == expect[i], "%s: callback %zu ran %d time(s), expected %d", when, i, fired[i],
                     expect[i]);
    }
    void enter() {
        live++;
        if (live > max_live)
            max_live = live;
    }

    // Guards of several callable types.
    struct Fire {
        std::vector<int>* fired;
        size_t id;
        Val owned;
        std::unique_ptr<size_t> only;   // callables need not be copyable
        void operator ()() {
            VP_CHECK(owned.v() == long(id) && only && *only == id, "a moved guard's callback lost its captured value");
            (*fired)[id]++;
        }
    };

    void body(int depth) {
        while (budget > 0 && s.more(4)) {
            budget--;
            static const unsigned w[] = {3, 4, 3, 4, 4, 4, 3, 2, 2};
            switch (s.weighted(w)) {
                case 0: {
                    int i = int(s.draw(3));
                    int v = int(s.draw(1000));
                    VP_LOG("%*sint %d := %d\n", depth * 2, "", i, v);
                    ints[i] = m_ints[i] = v;
                    break;
                }
                case 1: {
                    int i = int(s.draw(3));
                    int v = int(s.draw(1000));
                    int old = m_ints[i];
                    VP_LOG("%*ssave int %d, set %d\n", depth * 2, "", i, v);
                    if (s.draw(6) == 5) {
                        // set from the variable itself
                        SaveAndSet<int> sas(&ints[i], ints[i]);
                        enter();
                        check("inside a save-and-set");
                        body(depth + 1);
                    } else {
                        SaveAndSet<int> sas(&ints[i], v);
                        m_ints[i] = v;
                        enter();
                        check("inside a save-and-set");
                        body(depth + 1);
                    }
                    live--;
                    m_ints[i] = old;
                    VP_LOG("%*sleave\n", depth * 2, "");
                    check("after a save-and-set");
                    break;
                }
                case 2: {
                    int v = int(s.draw(1000));
                    std::string olds = m_str;
                    long oldv = m_val;
                    bool both = s.coin();
                    VP_LOG("%*ssave string%s\n", depth * 2, "", both ? " and value" : "");
                    if (s.chance(1, 5)) {
                        // Both set from the variables themselves.
                        SaveAndSet<std::string> a(&str, str);
                        SaveAndSet<Val> b(&val, val);
                        enter();
                        check("inside save-and-sets of variables to themselves");
                        body(depth + 1);
                        live--;
                        m_val = oldv;
                    } else {
                        std::string ns = "set to a string longer than any inline buffer " + std::to_string(v);
                        SaveAndSet<std::string> a(&str, ns);
                        m_str = ns;
                        if (both) {
                            SaveAndSet<Val> b(&val, Val(v));
                            m_val = v;
                            enter();
                            check("inside two save-and-sets");
                            body(depth + 1);
                            if (s.coin()) {
                                val.set(99);
                                m_val = 99;
                            }
                            live--;
                        } else {
                            body(depth + 1);
                        }
                        if (both) {
                            m_val = oldv;
                            check("after the inner save-and-set");
                        }
                    }
                    m_str = olds;
                    check("after a save-and-set");
                    break;
                }
                case 3: {
                    int c = int(s.draw(2));
                    VP_LOG("%*slink on chain %d\n", depth * 2, "", c);
                    {
                        Link l(&tops[c], next_id);
                        m_links[c].push_back(std::make_pair(&l, next_id++));
                        enter();
                        check("inside a link");
                        body(depth + 1);
                        live--;
                    }
                    m_links[c].pop_back();
                    check("after a link");
                    break;
                }
                case 4: {
                    // A guard made in place, maybe cancelled, maybe more than once.
                    size_t id = fired.size();
                    fired.push_back(0);
                    expect.push_back(0);
                    bool cancel = s.draw(3) == 2, early = s.coin();
                    VP_LOG("%*sguard %zu%s\n", depth * 2, "", id, cancel ? " cancelled" : "");
                    {
                        auto g = MakeScopeGuard(Fire{&fired, id, Val(long(id)), std::make_unique<size_t>(id)});
                        enter();
                        if (cancel && early)
                            g.cancel();
                        body(depth + 1);
                        if (cancel && (!early || s.coin()))
                            g.cancel();
                        check("before a guard's scope ends");
                        live--;
                    }
                    if (!cancel)
                        expect[id]++;
                    check("after a guard's scope");
                    break;
                }
                case 5: {
                    // A chain of moves: the duty follows the last guard.
                    size_t id = fired.size();
                    fired.push_back(0);
                    expect.push_back(0);
                    typedef ScopeGuard<Fire> G;
                    unsigned hops = 1 + unsigned(s.draw(3));
                    int cancel_at = s.coin() ? -1 : int(s.draw(hops + 1));
                    bool cancel_source = s.coin();
                    bool late = s.coin();
                    VP_LOG("%*sguard %zu moved %u times, cancel at %d%s\n", depth * 2, "", id, hops, cancel_at,
                           cancel_source ? " (moved-from ones cancelled too)" : "");
                    moved = true;
                    std::vector<std::unique_ptr<G>> gs;
                    gs.emplace_back(new G(MakeScopeGuard(Fire{&fired, id, Val(long(id)), std::make_unique<size_t>(id)})));
                    if (cancel_at == 0)
                        gs[0]->cancel();
                    for (unsigned h = 1; h <= hops; h++) {
                        gs.emplace_back(new G(std::move(*gs[h - 1])));
                        if (cancel_source)
                            gs[h - 1]->cancel();
                        if (cancel_at == int(h))
                            gs[h]->cancel();
                        if (!late) {
                            gs[h - 1].reset();
                            check("after a moved-from guard is destroyed");
                        }
                    }
                    enter();
                    body(depth + 1);
                    live--;
                    check("before the last guard is destroyed");
                    if (late) {
                        for (unsigned h = 0; h < hops; h++)
                            gs[h].reset();
                        check("after the moved-from guards are destroyed");
                    }
                    gs.clear();
                    if (cancel_at < 0)
                        expect[id]++;
                    check("after the last guard is destroyed");
                    break;
                }
                case 6: {
                    // An lvalue callable is called in place, a std::function may be moved out of.
                    size_t id = fired.size();
                    fired.push_back(0);
                    expect.push_back(0);
                    bool cancel = s.draw(3) == 2;
                    if (s.coin()) {
                        VP_LOG("%*sguard %zu over an lvalue%s\n", depth * 2, "", id, cancel ? " cancelled" : "");
                        auto fn = [this, id] { fired[id]++; };
                        {
                            auto g = MakeScopeGuard(fn);
                            body(depth + 1);
                            if (cancel)
                                g.cancel();
                        }
                    } else {
                        VP_LOG("%*sguard %zu over a std::function%s\n", depth * 2, "", id,
                               cancel ? " cancelled" : "");
                        std::function<void()> fn = [this, id] { fired[id]++; };
                        {
                            ScopeGuard<std::function<void()>> g(std::move(fn));
                            ScopeGuard<std::function<void()>> h(std::move(g));
                            moved = true;
                            body(depth + 1);
                            if (cancel)
                                h.cancel();
                        }
                    }
                    if (!cancel)
                        expect[id]++;
                    check("after a guard's scope");
                    break;
                }
                case 7: {
                    // Order: later guards run first.
                    std::vector<int> seq;
                    unsigned mask = unsigned(s.draw(8));
                    VP_LOG("%*sthree guards, cancelled mask %u\n", depth * 2, "", mask);
                    {
                        auto a = MakeScopeGuard([&seq] { seq.push_back(0); });
                        auto b = MakeScopeGuard([&seq] { seq.push_back(1); });
                        auto c = MakeScopeGuard([&seq] { seq.push_back(2); });
                        enter();
                        enter();
                        body(depth + 1);
                        if (mask & 1)
                            a.cancel();
                        if (mask & 2)
                            b.cancel();
                        if (mask & 4)
                            c.cancel();
                        live -= 2;
                    }
                    std::vector<int> want;
                    for (int i = 2; i >= 0; i--)
                        if (!(mask >> i & 1))
                            want.push_back(i);
                    VP_CHECK(seq == want, "guards did not run in reverse order of construction");
                    check("after three guards");
                    break;
                }
                default: {
                    int i = int(s.draw(3));
                    VP_LOG("%*sreturn-and-void int %d and the rest\n", depth * 2, "", i);
                    int r = ReturnAndVoid(ints[i]);
                    VP_CHECK(r == m_ints[i], "ReturnAndVoid returned %d, the variable was %d", r, m_ints[i]);
                    m_ints[i] = 0;
                    std::string rs = ReturnAndVoid(str);
                    VP_CHECK(rs == m_str, "ReturnAndVoid returned the wrong string");
                    m_str = "";
                    Val rv = ReturnAndVoid(val);
                    VP_CHECK(rv.v() == m_val, "ReturnAndVoid returned the wrong value");
                    m_val = Val().v();
                    int* p = &ints[0];
                    int* q = ReturnAndVoid(p);
                    VP_CHECK(q == &ints[0] && p == nullptr, "ReturnAndVoid of a pointer is wrong");
                    check("after return-and-void");
                }
            }
        }
    }
};

VP_TARGET(Nesting, 150000, 4000000, vp::kLeakCheck) {
    long live0 = tk::g.live;
    {
        World w(s);
        w.body(0);
        w.check("at the end");
        if (w.max_live >= 2 || w.moved)
            s.nontrivial();
        if (w.moved)
            s.mark("a guard was moved");
    }
    VP_CHECK(tk::g.live == live0, "lifetime: a helper leaked a value");
}

#if defined(__cpp_exceptions)
struct Leave {
    int depth;
};
static void
Descend(vp::Src& s, int depth, int stop, std::vector<int>& order, int* var, Link** top) {
    // Leaving by exception ends the scopes too.
    int before = *var;
    Link* link_before = *top;
    struct Check {
        int* var;
        int want;
        Link** top;
        Link* link;
        ~Check() {
            VP_CHECK(*var == want, "a variable is %d after its scope was left by an exception, expected %d", *var,
                     want);
            VP_CHECK(*top == link, "a link is still chained after its scope was left by an exception");
        }
    } check = {var, before, top, link_before};
    SaveAndSet<int> sas(var, int(s.draw(100)));
    Link l(top, depth);
    auto g = MakeScopeGuard([&order, depth] { order.push_back(depth); });
    if (s.draw(4) == 3)
        g.cancel(), order.push_back(-depth);
    auto h(std::move(g));
    if (depth == stop)
        throw Leave{depth};
    Descend(s, depth + 1, stop, order, var, top);
}

VP_TARGET(Unwinding, 60000, 1000000, vp::kLeakCheck) {
    int stop = 1 + int(s.draw(400) == 399 ? s.draw(1000) : s.draw(6));
    std::vector<int> order;
    int var = 42;
    Link* top = nullptr;
    bool caught = false;
    VP_LOG("throw from depth %d", stop);
    s.nontrivial();
    try {
        Descend(s, 1, stop, order, &var, &top);
    } catch (const Leave&) {
        caught = true;
    }
    VP_CHECK(caught, "the exception was lost");
    VP_CHECK(var == 42 && !top, "state was not restored by unwinding");
    std::vector<bool> cancelled(size_t(stop) + 1, false);
    size_t i = 0;
    for (; i < order.size() && order[i] < 0; i++)
        cancelled[size_t(-order[i])] = true;
    for (int d = stop; d >= 1; d--) {
        if (cancelled[size_t(d)])
            continue;
        VP_CHECK(i < order.size() && order[i] == d, "the guard at depth %d did not run in order", d);
        i++;
    }
    VP_CHECK(i == order.size(), "a guard ran twice or although it was cancelled");
}
#endif

// The value is restored, not one that merely compares equal to it; nor does a helper need to compare.
struct Label {
    std::string text;
    bool operator ==(const Label& o) const {
        if (text.size() != o.text.size())
            return false;
        for (size_t i = 0; i < text.size(); i++) {
            if ((text[i] | 0x20) != (o.text[i] | 0x20))
                return false;
        }
        return true;
    }
    bool operator !=(const Label& o) const {
        return !(*this == o);
    }
};

template <typename T, typename Gen, typename Same>
static void
SaveExactly(vp::Src& s, Gen&& gen, Same&& same) {
    T var = gen();
    std::vector<T> model;
    const T first = var;
    unsigned depth = 1 + unsigned(s.draw(4));
    std::vector<std::unique_ptr<SaveAndSet<T>>> live;
    bool coarse = false;
    for (unsigned i = 0; i < depth; i++) {
        T next = gen();
        model.push_back(var);
        live.emplace_back(new SaveAndSet<T>(&var, next));
        VP_CHECK(same(var, next), "a save-and-set did not set the value it was given");
        if (s.coin())
            var = gen();
    }
    while (!live.empty()) {
        if ((var == model.back()) != same(var, model.back()))
            coarse = true;
        live.pop_back();
        VP_CHECK(same(var, model.back()), "a save-and-set did not restore the very value it saw");
        model.pop_back();
    }
    VP_CHECK(same(var, first), "the first value is not back");
    T got = ReturnAndVoid(var);
    VP_CHECK(same(got, first), "ReturnAndVoid returned another value");
    VP_CHECK(same(var, T()), "ReturnAndVoid left another value than the default");
    if (coarse) {
        s.nontrivial();
        s.mark("restored over an equal value that differs");
    }
}

VP_TARGET(Exactly, 60000, 1000000, 0) {
    switch (s.draw(3)) {
        case 0: {
            static const double v[] = {0.0, -0.0, 1.5, std::numeric_limits<double>::quiet_NaN(), -1e300};
            SaveExactly<double>(s, [&] { return v[s.draw(5)]; },
                                [](const double& a, const double& b) { return memcmp(&a, &b, sizeof(a)) == 0; });
            break;
        }
        case 1:
            SaveExactly<Label>(s,
                               [&] {
                                   static const char* const v[] = {"", "name", "Name", "NAME", "other"};
                                   Label l;
                                   l.text = v[s.draw(5)];
                                   return l;
                               },
                               [](const Label& a, const Label& b) { return a.text == b.text; });
            break;
        default:
            // A handle is equal to none but itself; the same object may be seen through two owners.
            SaveExactly<std::shared_ptr<int>>(
                s,
                [&] {
                    static const std::shared_ptr<int> one = std::make_shared<int>(1);
                    static int other;
                    switch (s.draw(3)) {
                        case 0:
                            return one;
                        case 1:
                            return std::shared_ptr<int>(one.get(), [](int*) {});
                        default:
                            return std::shared_ptr<int>(one, &other);
                    }
                },
                [](const std::shared_ptr<int>& a, const std::shared_ptr<int>& b) {
                    return a.get() == b.get() && !a.owner_before(b) && !b.owner_before(a);
                });
    }
}
