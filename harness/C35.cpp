// C35: a build with assertions stops at misuse, and only at misuse.
// A case is a short correct history in a child process, then one more use that is or is not
// correct; a model says which. The child must be stopped by an assertion (SIGABRT) at the last
// step exactly if that is misuse, before any memory error.
// Non-trivial: the last use is misuse, or only just not.
#include "../engine/vp.h"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <functional>
#include <memory>
#include <string>
#include <vector>

#include <amtl/am-bits.h>
#include <amtl/am-fixedarray.h>
#include <amtl/am-function.h>
#include <amtl/am-hashmap.h>
#include <amtl/am-hashset.h>
#include <amtl/am-inlinelist.h>
#include <amtl/am-maybe.h>
#include <amtl/am-priority-queue.h>
#include <amtl/am-raii.h>
#include <amtl/am-refcounting-threadsafe.h>
#include <amtl/am-refcounting.h>
#include <amtl/am-string.h>
#include <amtl/experimental/am-argparser.h>

static volatile uint64_t g_sink;
template <typename T>
static void
Use(const T& v) {
    g_sink = g_sink + sizeof(v);
}

struct Step {
    volatile int reached; // 1: the history is over, 2: the last use returned
};

// Runs history() and then last() in a child.
static void
Stops(bool misuse, const char* what, const std::function<void()>& history, const std::function<void()>& last) {
    static Step* step = (Step*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    step->reached = 0;
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0)
        return;
    if (!pid) {
        int fd = open("/dev/null", O_WRONLY);
        dup2(fd, 1);
        dup2(fd, 2);
        rlimit none = {0, 0};
        setrlimit(RLIMIT_CORE, &none);
        signal(SIGABRT, SIG_DFL);
        signal(SIGALRM, SIG_DFL);
        alarm(60);
        history();
        step->reached = 1;
        last();
        step->reached = 2;
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
        continue;
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGALRM))
        return; // no answer
    VP_LOG("%s: %s, at %s", what, WIFSIGNALED(st) ? strsignal(WTERMSIG(st)) : WEXITSTATUS(st) ? "memory error" : "done",
           step->reached == 0 ? "the history" : step->reached == 1 ? "the last use" : "the end");
    VP_CHECK(step->reached != 0, "%s: correct use before it was stopped", what);
    bool stopped = WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT;
    if (misuse) {
        VP_CHECK(step->reached == 1 && WIFSIGNALED(st), "%s: misuse was not stopped by an assertion", what);
        VP_CHECK(stopped || WTERMSIG(st) == SIGTRAP || WTERMSIG(st) == SIGILL, "%s: misuse ended in signal %d, not in an assertion", what,
                 WTERMSIG(st));
    } else {
        VP_CHECK(step->reached == 2, "%s: correct use was stopped", what);
    }
}

// ---- Fixed arrays, maybes, functions, queues ----

VP_TARGET(FixedArray, 5000, 100000, 0) {
    size_t n = s.draw(6), i = s.draw(4) ? s.draw(n + 2) : size_t(s.uint(64));
    unsigned how = unsigned(s.draw(6));
    bool misuse = how < 4 ? i >= n : n == 0;
    if (misuse || i + 1 == n)
        s.nontrivial();
    std::shared_ptr<ke::FixedArray<uint64_t>> a;
    static const char* const names[] = {"at", "[]", "const at", "const []", "back", "const back"};
    char what[100];
    snprintf(what, sizeof(what), "%s(%zu) of %zu elements", names[how], i, n);
    Stops(misuse, what, [&] { a = std::make_shared<ke::FixedArray<uint64_t>>(n); },
          [&] {
              const ke::FixedArray<uint64_t>& c = *a;
              switch (how) {
                  case 0: a->at(i) = 1; break;
                  case 1: (*a)[i] = 1; break;
                  case 2: Use(c.at(i)); g_sink = c.at(i); break;
                  case 3: g_sink = c[i]; break;
                  case 4: a->back() = 1; break;
                  case 5: g_sink = c.back(); break;
              }
          });
}

VP_TARGET(Maybe, 5000, 100000, 0) {
    std::vector<unsigned> ops;
    bool full = false;
    while (s.more(6)) {
        unsigned op = unsigned(s.draw(6));
        ops.push_back(op);
        full = op == 0 || op == 1 ? true : op == 2 || op == 3 ? false : full;
    }
    unsigned how = unsigned(s.draw(6));
    if (!full || ops.size() > 1)
        s.nontrivial();
    std::string what = "access " + std::to_string(how) + " after";
    for (unsigned op : ops)
        what += " " + std::to_string(op);
    auto m = std::make_shared<ke::Maybe<std::string>>();
    Stops(!full, what.c_str(),
          [&] {
              for (unsigned op : ops) {
                  switch (op) {
                      case 0: m->init("something"); break;
                      case 1: *m = ke::Some(std::string("x")); break;
                      case 2: *m = ke::Maybe<std::string>(); break;
                      case 3: { ke::Maybe<std::string> away(std::move(*m)); break; }
                      case 4: { ke::Maybe<std::string> copy(*m); Use(copy); break; }
                      case 5: { ke::Maybe<std::string> away(std::move(*m)); *m = std::move(away); break; }
                  }
              }
          },
          [&] {
              const auto& c = *m;
              switch (how) {
                  case 0: Use(m->get()); break;
                  case 1: Use(**m); break;
                  case 2: Use((*m)->size()); break;
                  case 3: Use(c.get()); break;
                  case 4: Use(*c); break;
                  case 5: Use(c->size()); break;
              }
          });
}

VP_TARGET(Function, 4000, 100000, 0) {
    std::vector<unsigned> ops;
    bool full = false;
    while (s.more(6)) {
        unsigned op = unsigned(s.draw(5));
        ops.push_back(op);
        full = op < 2 ? true : op < 4 ? false : full;
    }
    if (!full || ops.size() > 1)
        s.nontrivial();
    std::string what = "call after";
    for (unsigned op : ops)
        what += " " + std::to_string(op);
    typedef ke::Function<int(int)> F;
    auto f = std::make_shared<F>();
    char big[64] = {1};
    Stops(!full, what.c_str(),
          [&] {
              for (unsigned op : ops) {
                  switch (op) {
                      case 0: *f = [](int x) { return x; }; break;
                      case 1: *f = [big](int x) { return x + big[0]; }; break;
                      case 2: *f = nullptr; break;
                      case 3: { F away(std::move(*f)); break; }
                      case 4: { F copy(*f); *f = copy; break; }
                  }
              }
          },
          [&] { g_sink = (*f)(3); });
}

VP_TARGET(PriorityQueue, 4000, 100000, 0) {
    std::vector<bool> ops;
    size_t n = 0;
    while (s.more(10)) {
        bool add = n == 0 || s.coin();
        ops.push_back(add);
        n += add ? 1 : -1;
    }
    if (s.chance(2, 3)) {
        for (; n > s.draw(2); n--)
            ops.push_back(false);
    }
    bool peek = s.coin();
    if (n <= 1)
        s.nontrivial();
    auto q = std::make_shared<ke::PriorityQueue<std::string>>();
    std::string what = std::string(peek ? "peek" : "pop") + " of " + std::to_string(n);
    Stops(n == 0, what.c_str(),
          [&] {
              int i = 0;
              for (bool add : ops) {
                  if (add)
                      q->add(std::string(40, 'a') + char(i++ * 7 % 26));
                  else
                      q->pop();
              }
          },
          [&] {
              if (peek)
                  Use(q->peek().size());
              else
                  Use(q->pop().size());
          });
}

// ---- Hash containers ----

struct IntPolicy {
    typedef int Payload;
    static uint32_t hash(int k) {
        return uint32_t(k) % 3;
    }
    static bool matches(int a, int b) {
        return a == b;
    }
};

VP_TARGET(Hash, 8000, 200000, 0) {
    typedef ke::HashTable<IntPolicy> Table;
    // Even: insert half of it, odd: remove.
    std::vector<int> ops;
    std::vector<bool> in(8);
    while (s.more(12)) {
        int k = int(s.draw(8));
        bool add = s.chance(3, 5);
        ops.push_back(k * 2 + !add);
        in[k] = add;
    }
    size_t count = 0;
    for (bool b : in)
        count += b;
    int key = int(s.draw(8));
    unsigned how = unsigned(s.draw(8));
    size_t steps = s.draw(count + 2), cap = 0;
    bool misuse = false;
    static const char* const names[] = {"read of a result", "remove of a result", "add at an insertion point", "iterator read",
                                        "iterator erase",   "second iterator erase", "read after erase",
                                        "initialize"};
    switch (how) {
        case 0:
        case 1:
            misuse = !in[key];
            break;
        case 2:
            misuse = in[key];
            break;
        case 3:
        case 4:
            if (how == 3 && !count)
                return;
            steps = how == 3 ? steps % count : steps > count ? count : steps;
            misuse = steps == count;
            break;
        case 5:
        case 6:
            if (!count)
                return;
            steps = steps % count;
            misuse = s.coin();
            break;
        case 7:
            cap = s.coin() ? size_t(1) << s.draw(14) : s.draw(10000);
            if (s.chance(1, 4))
                cap = (size_t(1) << (4 + s.draw(10))) + (s.coin() ? 1 : -1);
            misuse = cap > 16 && (cap & (cap - 1));
            break;
    }
    s.nontrivial();
    char what[200];
    snprintf(what, sizeof(what), "%s (key %d %s, %zu elements, step %zu, capacity %zu)", names[how], key, in[key] ? "present" : "absent", count,
             steps, cap);
    auto t = std::make_shared<Table>();
    std::unique_ptr<Table::iterator> it;
    Stops(misuse, what,
          [&] {
              if (how == 7)
                  return;
              t->init();
              for (int op : ops) {
                  if (op & 1) {
                      t->removeIfExists(op / 2);
                  } else {
                      auto i = t->findForAdd(op / 2);
                      if (!i.found())
                          t->add(i, op / 2);
                  }
              }
              if (how >= 3 && how <= 6) {
                  it.reset(new Table::iterator(t.get()));
                  for (size_t k = 0; k < steps; k++)
                      it->next();
                  if (how >= 5 && misuse)
                      it->erase();
              }
          },
          [&] {
              switch (how) {
                  case 0: { auto r = t->find(key); g_sink = *r; break; }
                  case 1: { auto r = t->find(key); t->remove(r); break; }
                  case 2: { auto i = t->findForAdd(key); t->add(i, key); break; }
                  case 3: g_sink = **it; break;
                  case 4: it->erase(); break;
                  case 5: it->erase(); break;
                  case 6: g_sink = **it; break;
                  case 7: t->init(cap); break;
              }
          });
}

// ---- Lists, links, references ----

struct Node : public ke::InlineListNode<Node> {};

VP_TARGET(ListAppend, 4000, 100000, 0) {
    size_t n = 1 + s.draw(5);
    std::vector<int> where(n, -1), ops;
    while (s.more(12)) {
        size_t i = s.draw(n);
        int l = int(s.draw(2));
        if (where[i] < 0)
            where[i] = l;
        else
            where[i] = -1;
        ops.push_back(int(i) * 2 + l);
    }
    size_t i = s.draw(n);
    int l = int(s.draw(2));
    s.nontrivial();
    char what[100];
    snprintf(what, sizeof(what), "append to list %d of node %zu, which is in %d", l, i, where[i]);
    std::shared_ptr<Node> nodes(new Node[n], [](Node*) {}); // the child exits at once
    ke::InlineList<Node>* lists = new ke::InlineList<Node>[2];
    Stops(where[i] >= 0, what,
          [&] {
              std::vector<int> at(n, -1);
              for (int op : ops) {
                  size_t k = size_t(op / 2);
                  if (at[k] < 0) {
                      lists[at[k] = op & 1].append(&nodes.get()[k]);
                  } else {
                      lists[at[k]].remove(&nodes.get()[k]);
                      at[k] = -1;
                  }
              }
          },
          [&] { lists[l].append(&nodes.get()[i]); });
    delete[] lists;
    delete[] nodes.get();
}

struct Link : public ke::StackLinked<Link> {
    explicit Link(Link** p)
     : ke::StackLinked<Link>(p)
    {}
};

VP_TARGET(Links, 3000, 60000, 0) {
    size_t n = 1 + s.draw(5), i = s.draw(n);
    bool misuse = i + 1 != n;
    s.nontrivial();
    char what[100];
    snprintf(what, sizeof(what), "end of link %zu of %zu", i, n);
    Link* top = nullptr;
    std::vector<Link*> links;
    Stops(misuse, what,
          [&] {
              for (size_t k = 0; k < n; k++)
                  links.push_back(new Link(&top));
          },
          [&] { delete links[i]; });
}

struct Plain : public ke::Refcounted<Plain> {};
struct Virtual : public ke::VirtualRefcounted {};
template <typename Base>
struct Resurrect : public Base {
    bool again;
    explicit Resurrect(bool a)
     : again(a)
    {}
    ~Resurrect() {
        if (again)
            this->AddRef();
    }
};

VP_TARGET(References, 4000, 100000, 0) {
    unsigned how = unsigned(s.draw(4));
    size_t add = s.draw(4), drop = s.draw(add + 1);
    bool misuse;
    s.nontrivial();
    char what[100];
    if (how < 2) {
        // Taking an object that was never, or no more, referenced.
        misuse = add == 0;
        snprintf(what, sizeof(what), "release of a %s object with %zu references", how ? "virtual" : "plain", add);
        Plain* p = nullptr;
        Virtual* v = nullptr;
        Stops(misuse, what,
              [&] {
                  p = new Plain;
                  v = new Virtual;
                  for (size_t k = 0; k < add; k++) {
                      p->AddRef();
                      v->AddRef();
                  }
                  for (size_t k = 0; k + 1 < add && k < drop; k++) {
                      p->Release();
                      v->Release();
                  }
              },
              [&] {
                  if (how)
                      v->Release();
                  else
                      p->Release();
              });
    } else {
        misuse = s.coin();
        snprintf(what, sizeof(what), "destruction that takes %s new reference to the object (%s)", misuse ? "a" : "no",
                 how == 2 ? "virtual" : "virtual thread-safe");
        ke::IRefcounted* r = nullptr;
        Stops(misuse, what,
              [&] {
                  if (how == 2)
                      r = new Resurrect<ke::VirtualRefcounted>(misuse);
                  else
                      r = new Resurrect<ke::VirtualRefcountedThreadsafe>(misuse);
                  for (size_t k = 0; k <= add; k++)
                      r->AddRef();
                  for (size_t k = 0; k < add; k++)
                      r->Release();
              },
              [&] { r->Release(); });
    }
}

struct Counted {
    void AddRef() {}
    bool Release() {
        return true;
    }
};

VP_TARGET(AtomicAlignment, 2000, 40000, 0) {
    uintptr_t at = uintptr_t(s.uint(47));
    if (s.coin())
        at &= ~uintptr_t(7);
    if (s.chance(1, 4))
        at = at >> 3 << 3 | 1;
    bool misuse = at % sizeof(void*) != 0;
    if (misuse || at)
        s.nontrivial();
    char what[100];
    snprintf(what, sizeof(what), "atomic reference to %#zx", size_t(at));
    Stops(misuse, what, [&] {}, [&] { new ke::AtomicRef<Counted>(reinterpret_cast<Counted*>(at)); });
}

// ---- Bits and strings ----

VP_TARGET(Bits, 8000, 200000, 0) {
    unsigned how = unsigned(s.draw(7));
    uint64_t v = s.chance(1, 3) ? 0 : s.uint(64), a = s.chance(1, 2) ? uint64_t(1) << s.draw(64) : s.chance(1, 3) ? 0 : s.uint(64);
    if (s.chance(1, 4))
        a = s.draw(20);
    bool pow2 = a && !(a & (a - 1));
    bool misuse = how == 1 ? uint32_t(v) == 0 : how < 4 ? v == 0 : !pow2;
    s.nontrivial();
    static const char* const names[] = {"Log2", "FindLeftmostBit32", "FindLeftmostBit64", "FindRightmostBit", "Align", "IsAligned", "AlignedBase"};
    char what[120];
    snprintf(what, sizeof(what), "%s of %#" PRIx64 " (alignment %#" PRIx64 ")", names[how], v, a);
    Stops(misuse, what, [&] {},
          [&] {
              switch (how) {
                  case 0: g_sink = ke::Log2(v); break;
                  case 1: g_sink = ke::FindLeftmostBit32(uint32_t(v)); break;
                  case 2: g_sink = ke::FindLeftmostBit64(v); break;
                  case 3: g_sink = ke::FindRightmostBit(v); break;
                  case 4: g_sink = ke::Align(v, a); break;
                  case 5: g_sink = ke::IsAligned(v, a); break;
                  case 6: g_sink = uintptr_t(ke::AlignedBase(reinterpret_cast<void*>(v), a)); break;
              }
          });
}

VP_TARGET(Separators, 2000, 40000, 0) {
    size_t n = s.draw(3), len = s.draw(10);
    std::string text, sep;
    for (size_t i = 0; i < len; i++)
        text += char('a' + s.draw(3));
    for (size_t i = 0; i < n; i++)
        sep += char('a' + s.draw(3));
    bool str = s.coin();
    if (n < 2)
        s.nontrivial();
    std::string what = "Split(\"" + text + "\", \"" + sep + "\")";
    Stops(sep.empty(), what.c_str(), [&] {},
          [&] { g_sink = (str ? ke::Split(text, sep.c_str()) : ke::Split(text.c_str(), sep.c_str())).size(); });
}

// ---- Options ----

VP_TARGET(Options, 6000, 100000, 0) {
    using namespace ke::args;
    static const char* const shorts[] = {nullptr, "a", "-a", "--a", "", "-", "ab", "-ab"};
    static const char* const longs[] = {nullptr, "all", "--all", "-all", "---all", "", "--", "a"};
    const char* sh = shorts[s.draw(8)];
    const char* lo = longs[s.draw(8)];
    auto plain = [](const char* form, const char* prefix) {
        if (!strncmp(form, prefix, strlen(prefix)))
            form += strlen(prefix);
        return form[0] && form[0] != '-';
    };
    bool misuse = (!sh && !lo) || (sh && !plain(sh, "-")) || (lo && !plain(lo, "--"));
    s.nontrivial();
    unsigned kind = unsigned(s.draw(5));
    std::string what = std::string("option \"") + (sh ? sh : "(null)") + "\", \"" + (lo ? lo : "(null)") + "\" of kind " + std::to_string(kind);
    Stops(misuse, what.c_str(), [&] {},
          [&] {
              Parser p("help");
              switch (kind) {
                  case 0: { IntOption o(p, sh, lo, ke::Nothing(), "x"); break; }
                  case 1: { Option<bool> o(p, sh, lo, ke::Some(true), "x"); break; }
                  case 2: { ToggleOption o(p, sh, lo, ke::Nothing(), "x"); break; }
                  case 3: { RepeatOption<std::string> o(p, sh, lo, "x"); break; }
                  case 4: { EnableOption o(p, sh, lo, true, "x"); break; }
              }
          });
}
