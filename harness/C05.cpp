// C05: inline list keeps exact order and membership under any history.
// Non-trivial: the history has a removal of some kind and a later append.
#include "../engine/vp.h"

#include "common/sizes.h"

#include <assert.h>

#include <memory>
#include <vector>

#include <amtl/am-inlinelist.h>

using ke::InlineList;
using ke::InlineListNode;

#ifdef NDEBUG
static const bool kDebugLists = false;
#else
static const bool kDebugLists = true;
#endif

static const uint64_t kCanary1 = 0x1122334455667788ULL, kCanary2 = 0x99aabbccddeeff00ULL;

// An element type may be in one list per node base; the node is not the first base.
struct Pad {
    uint64_t before = kCanary1;
};
struct A : public Pad, public InlineListNode<A> {
    explicit A(int i)
     : id(i)
    {}
    uint64_t after = kCanary2;
    int id;
};
struct B : public A, public InlineListNode<B> {
    explicit B(int i)
     : A(i)
    {}
    uint64_t tail = kCanary1 ^ kCanary2;
};

// A family of lists over one node type, with its model.
template <typename T, typename Derived>
class Family
{
    typedef InlineList<T> L;

    struct LS {
        // The list sits between guards.
        struct Box {
            uint64_t g1 = kCanary1;
            L list;
            uint64_t g2 = kCanary2;
        };
        std::unique_ptr<Box> box;
        std::vector<int> m;
        size_t self_removed = 0;
    };

  public:
    vp::Src& s;
    const char* tag;
    std::vector<std::unique_ptr<Derived>>& nodes;
    std::vector<int> where;  // list index or -1
    std::vector<bool> fresh;
    LS lists[4];
    size_t nlists;
    unsigned removals = 0, appends_after = 0;

    Family(vp::Src& src, const char* t, std::vector<std::unique_ptr<Derived>>& n, size_t nl)
     : s(src),
       tag(t),
       nodes(n),
       where(n.size(), -1),
       nlists(nl)
    {
        for (size_t i = 0; i < nlists; i++)
            lists[i].box.reset(new typename LS::Box());
    }

    InlineListNode<T>* node(int id) {
        return nodes[id].get();
    }

    void check_list(size_t li) {
        LS& ls = lists[li];
        L& l = ls.box->list;
        VP_CHECK(ls.box->g1 == kCanary1 && ls.box->g2 == kCanary2, "memory next to the list was overwritten");
        VP_CHECK(l.empty() == ls.m.empty(), "%s list %zu: empty() is %d, it has %zu member(s)", tag, li,
                 l.empty(), ls.m.size());
        size_t len = l.length();
        // Known finding LengthAfterSelfRemoval: a node that removed itself is still counted.
        VP_CHECK(len == ls.m.size() || len == ls.m.size() + ls.self_removed,
                 "%s list %zu: length() is %zu, it has %zu member(s) (%zu self-removal(s))", tag, li, len,
                 ls.m.size(), ls.self_removed);
        size_t i = 0;
        bool post = false;
        for (typename L::iterator it = l.begin(); it != l.end();) {
            VP_CHECK(i < ls.m.size(), "%s list %zu: forward iteration goes on past the %zu member(s)", tag,
                     li, ls.m.size());
            VP_CHECK((*it)->id == ls.m[i] && it->id == ls.m[i],
                     "%s list %zu: forward iteration gives node %d at position %zu, expected %d", tag, li,
                     (*it)->id, i, ls.m[i]);
            typename L::iterator old = it;
            VP_CHECK(old == it && !(old != it), "iterator equality");
            if (post) {
                typename L::iterator r = it++;
                VP_CHECK(r == old, "post-increment does not return the old position");
            } else {
                typename L::iterator& r = ++it;
                VP_CHECK(&r == &it, "pre-increment does not return the iterator");
            }
            post = !post;
            i++;
        }
        VP_CHECK(i == ls.m.size(), "%s list %zu: forward iteration gives %zu of %zu members", tag, li, i,
                 ls.m.size());
        for (typename L::reverse_iterator it = l.rbegin(); it != l.rend();) {
            VP_CHECK(i > 0, "%s list %zu: reverse iteration goes on too long", tag, li);
            i--;
            VP_CHECK((*it)->id == ls.m[i] && it->id == ls.m[i],
                     "%s list %zu: reverse iteration gives node %d, expected %d", tag, li, (*it)->id, ls.m[i]);
            typename L::reverse_iterator old = it;
            if (post) {
                typename L::reverse_iterator r = it++;
                VP_CHECK(r == old, "post-increment does not return the old position");
            } else {
                ++it;
            }
            post = !post;
        }
        VP_CHECK(i == 0, "%s list %zu: reverse iteration misses %zu member(s)", tag, li, i);
    }

    void check_nodes() {
        for (size_t i = 0; i < nodes.size(); i++) {
            bool retired = false;
            for (int d : dead)
                retired |= d == int(i);
            if (retired)
                continue;
            VP_CHECK(nodes[i]->id == int(i) && nodes[i]->before == kCanary1 && nodes[i]->after == kCanary2,
                     "the list changed something of node %zu besides its links", i);
            const InlineListNode<T>* n = node(int(i));
            VP_CHECK(n->isInList() == (where[i] >= 0), "%s node %zu: isInList() is %d, expected %d", tag, i,
                     n->isInList(), where[i] >= 0);
        }
    }

    void unlink(size_t li, size_t pos) {
        LS& ls = lists[li];
        where[ls.m[pos]] = -1;
        ls.m.erase(ls.m.begin() + pos);
        removals++;
    }

    void append(size_t li, int id) {
        VP_LOG("%s append %d to %zu\n", tag, id, li);
        lists[li].box->list.append(node(id));
        lists[li].m.push_back(id);
        where[id] = int(li);
        if (removals)
            appends_after++;
    }

    void step() {
        static const unsigned w[] = {10, 5, 4, 4, 5, 3, 1, 2};
        size_t op = s.weighted(w);
        size_t li = s.draw(nlists);
        LS& ls = lists[li];
        L& l = ls.box->list;
        switch (op) {
            case 0: {
                // Append any free node.
                size_t start = s.draw(nodes.size());
                for (size_t k = 0; k < nodes.size(); k++) {
                    size_t id = (start + k) % nodes.size();
                    if (nodes[id] && where[id] < 0) {
                        append(li, int(id));
                        break;
                    }
                }
                break;
            }
            case 1:
                if (!ls.m.empty()) {
                    size_t pos = s.draw(ls.m.size());
                    int id = ls.m[pos];
                    VP_LOG("%s remove %d from %zu\n", tag, id, li);
                    l.remove(node(id));
                    unlink(li, pos);
                    VP_CHECK(!node(id)->isInList(), "%s node %d says it is in a list after remove()", tag, id);
                    s.mark("remove");
                }
                break;
            case 2:
            case 3:
                if (!ls.m.empty()) {
                    size_t pos = s.draw(ls.m.size());
                    int id = ls.m[pos];
                    VP_LOG("%s erase %d from %zu through a %s iterator\n", tag, id, li,
                           op == 2 ? "forward" : "reverse");
                    if (op == 2) {
                        typename L::iterator it = l.begin();
                        for (size_t i = 0; i < pos; i++)
                            ++it;
                        typename L::iterator next = l.erase(it);
                        unlink(li, pos);
                        if (pos < ls.m.size())
                            VP_CHECK(next != l.end() && (*next)->id == ls.m[pos],
                                     "%s erase returned node %d, the following one is %d", tag,
                                     next != l.end() ? (*next)->id : -1, ls.m[pos]);
                        else
                            VP_CHECK(next == l.end(), "%s erase of the last node did not return end()", tag);
                    } else {
                        typename L::reverse_iterator it = l.rbegin();
                        for (size_t i = ls.m.size() - 1; i > pos; i--)
                            ++it;
                        typename L::reverse_iterator next = l.erase(it);
                        unlink(li, pos);
                        if (pos > 0)
                            VP_CHECK(next != l.rend() && (*next)->id == ls.m[pos - 1],
                                     "%s reverse erase returned node %d, the following one is %d", tag,
                                     next != l.rend() ? (*next)->id : -1, ls.m[pos - 1]);
                        else
                            VP_CHECK(next == l.rend(), "%s reverse erase of the first node did not return rend()",
                                     tag);
                    }
                    VP_CHECK(!node(id)->isInList(), "%s node %d says it is in a list after erase", tag, id);
                    s.mark("erase");
                }
                break;
            case 4:
                if (!ls.m.empty()) {
                    size_t pos = s.draw(ls.m.size());
                    int id = ls.m[pos];
                    VP_LOG("%s node %d leaves list %zu by itself\n", tag, id, li);
                    node(id)->removeFromParentList();
                    unlink(li, pos);
                    ls.self_removed++;
                    s.mark("self-removal");
                }
                break;
            case 5: {
                // Walk and erase some.
                uint64_t odds = s.draw(4);
                bool rev = s.coin();
                VP_LOG("%s erase-while-iterating %zu (%s)\n", tag, li, rev ? "reverse" : "forward");
                std::vector<int> order = ls.m, visited;
                if (!rev) {
                    for (typename L::iterator it = l.begin(); it != l.end();) {
                        int id = (*it)->id;
                        VP_CHECK(visited.size() < order.size(), "iteration while erasing does not end");
                        visited.push_back(id);
                        if (s.draw(4) < odds) {
                            it = l.erase(it);
                            drop(li, id);
                        } else {
                            it++;
                        }
                    }
                } else {
                    for (typename L::reverse_iterator it = l.rbegin(); it != l.rend();) {
                        int id = (*it)->id;
                        VP_CHECK(visited.size() < order.size(), "iteration while erasing does not end");
                        visited.insert(visited.begin(), id);
                        if (s.draw(4) < odds) {
                            it = l.erase(it);
                            drop(li, id);
                        } else {
                            ++it;
                        }
                    }
                }
                VP_CHECK(visited == order, "iteration while erasing visited other nodes than the members");
                break;
            }
            case 6: {
                VP_LOG("%s destroy and recreate list %zu\n", tag, li);
                std::vector<int> members = ls.m;
                ls.box.reset();
                ls.m.clear();
                ls.self_removed = 0;
                for (int id : members) {
                    where[id] = -1;
                    if (kDebugLists)
                        VP_CHECK(!node(id)->isInList(),
                                 "%s node %d is still linked after its list was destroyed", tag, id);
                    else
                        dead.push_back(id);
                }
                ls.box.reset(new typename LS::Box());
                s.mark("list destroyed with members");
                break;
            }
            default:
                // Drain and refill into another list.
                if (!ls.m.empty()) {
                    size_t to = s.draw(nlists);
                    VP_LOG("%s move everything from %zu to %zu\n", tag, li, to);
                    size_t n = ls.m.size();
                    for (size_t i = 0; i < n; i++) {
                        int id = ls.m[0];
                        l.remove(*l.begin());
                        unlink(li, 0);
                        append(to, id);
                    }
                }
                break;
        }
        check_list(li);
        check_nodes();
    }

    // Release builds leave the members of a destroyed list linked; the harness retires them.
    std::vector<int> dead;

  private:
    void drop(size_t li, int id) {
        LS& ls = lists[li];
        for (size_t i = 0; i < ls.m.size(); i++) {
            if (ls.m[i] == id) {
                unlink(li, i);
                return;
            }
        }
        vp::Fail("iteration yielded node %d, which is not a member", id);
    }
};

VP_TARGET(OneType, 60000, 3000000, vp::kLeakCheck) {
    size_t nn = 1 + s.draw(s.coin() ? 4 : 20);
    std::vector<std::unique_ptr<A>> nodes;
    for (size_t i = 0; i < nn; i++)
        nodes.emplace_back(new A(int(i)));
    Family<A, A> f(s, "A", nodes, 1 + s.draw(4));
    while (s.more(30)) {
        f.step();
        for (int id : f.dead)
            nodes[id].reset(new A(id));
        f.dead.clear();
    }
    for (size_t i = 0; i < f.nlists; i++)
        f.check_list(i);
    if (f.appends_after)
        s.nontrivial();
}

// The same objects are members of lists of two kinds at once.
VP_TARGET(TwoTypes, 60000, 3000000, vp::kLeakCheck) {
    size_t nn = 1 + s.draw(10);
    std::vector<std::unique_ptr<B>> nodes;
    for (size_t i = 0; i < nn; i++)
        nodes.emplace_back(new B(int(i)));
    Family<A, B> fa(s, "A", nodes, 1 + s.draw(3));
    Family<B, B> fb(s, "B", nodes, 1 + s.draw(3));
    while (s.more(40)) {
        if (s.coin())
            fa.step();
        else
            fb.step();
        // In release builds nodes of a destroyed list may not be used again, so take them out of the
        // other family as well.
        auto retire = [&](auto& from, auto& other) {
            for (int id : from.dead) {
                int li = other.where[id];
                if (li >= 0) {
                    other.lists[li].box->list.remove(other.node(id));
                    auto& m = other.lists[li].m;
                    for (size_t i = 0; i < m.size(); i++) {
                        if (m[i] == id) {
                            other.unlink(size_t(li), i);
                            break;
                        }
                    }
                }
                nodes[id].reset(new B(id));
            }
            from.dead.clear();
        };
        retire(fa, fb);
        retire(fb, fa);
        fa.check_nodes();
        fb.check_nodes();
    }
    for (size_t i = 0; i < fa.nlists; i++)
        fa.check_list(i);
    for (size_t i = 0; i < fb.nlists; i++)
        fb.check_list(i);
    if (fa.appends_after && fb.appends_after)
        s.nontrivial();
}

VP_FINDING(LengthAfterSelfRemoval,
           "InlineListNode::removeFromParentList() cannot reach its list, so InlineList::length() still "
           "counts the node: append(a), a.removeFromParentList(), length() is 1")
{
    (void)s;
    A a(0);
    InlineList<A> l;
    l.append(&a);
    a.removeFromParentList();
    VP_CHECK(l.empty(), "not even empty() is right");
    VP_CHECK(l.length() == 0, "length() is %zu after the only member removed itself", l.length());
}

// Long lists.
struct Many : public InlineListNode<Many> {
    uint32_t id = 0;
};
VP_TARGET(Large, 300, 10000, vp::kLeakCheck) {
    size_t n = LargeSize(s, 131071);
    std::unique_ptr<Many[]> nodes(new Many[n]);
    std::vector<uint32_t> m;
    InlineList<Many> list;
    VP_LOG("%zu nodes", n);
    s.nontrivial();
    for (size_t i = 0; i < n; i++) {
        nodes[i].id = uint32_t(i);
        list.append(&nodes[i]);
        m.push_back(uint32_t(i));
    }
    auto check = [&]() {
        VP_CHECK(list.length() == m.size() && list.empty() == m.empty(), "length() is %zu, expected %zu", size_t(list.length()), m.size());
        size_t i = 0;
        for (auto it = list.begin(); it != list.end(); it++, i++)
            VP_CHECK(i < m.size() && (*it)->id == m[i], "forward iteration is wrong at member %zu", i);
        VP_CHECK(i == m.size(), "forward iteration ends after %zu of %zu members", i, m.size());
        for (auto it = list.rbegin(); it != list.rend(); it++, i--)
            VP_CHECK(i > 0 && (*it)->id == m[i - 1], "reverse iteration is wrong at member %zu", i);
        VP_CHECK(i == 0, "reverse iteration ends %zu members early", i);
    };
    check();
    size_t steps = 1 + s.draw(4);
    for (size_t k = 0; k < steps; k++) {
        uint32_t mod = 1 + uint32_t(s.draw(6)), r = uint32_t(s.draw(mod));
        unsigned how = unsigned(s.draw(4));
        std::vector<uint32_t> keep, gone;
        for (uint32_t id : m)
            (id % mod == r ? gone : keep).push_back(id);
        VP_LOG("%s those with %% %u == %u", how == 0 ? "remove" : how == 1 ? "erase forwards" : how == 2 ? "erase backwards" : "move to the end", mod, r);
        if (how == 1) {
            for (auto it = list.begin(); it != list.end();) {
                if ((*it)->id % mod == r)
                    it = list.erase(it);
                else
                    it++;
            }
        } else if (how == 2) {
            for (auto it = list.rbegin(); it != list.rend();) {
                if ((*it)->id % mod == r)
                    it = list.erase(it);
                else
                    it++;
            }
        } else {
            for (uint32_t id : gone)
                list.remove(&nodes[id]);
        }
        m.swap(keep);
        if (how == 3) {
            for (uint32_t id : gone) {
                list.append(&nodes[id]);
                m.push_back(id);
            }
        }
        check();
        for (uint32_t id : gone)
            VP_CHECK(nodes[id].isInList() == (how == 3), "isInList() is wrong for a removed node");
    }
    while (!m.empty()) {
        list.remove(&nodes[m.back()]);
        m.pop_back();
    }
    check();
}
