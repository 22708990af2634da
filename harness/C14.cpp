// C14: thread-local values are private to each thread from the very first use.
// Non-trivial: two threads touched a variable in the phase in which its slot was allocated, or an
// allocation was refused; in single-threaded mode: a variable was written more than once.
#include "../engine/vp.h"

#include <limits.h>
#include <type_traits>

#include <amtl/am-threadlocal.h>

namespace {

enum class Small : uint8_t { kNone = 0, kOne = 1, kMany = 255 };
enum Old { kOldNone = 0, kOldA = 1, kOldB = 77 };
struct Thing {
    int number;
};
Thing g_things[6];

// The values stored in a variable of each type; the first is the default.
template <typename T>
struct Values;
#define VALUES(T, ...)                          \
    template <>                                 \
    struct Values<T> {                          \
        static T at(size_t i) {                 \
            static T v[] = {__VA_ARGS__}; \
            return v[i % (sizeof(v) / sizeof(v[0]))]; \
        }                                       \
        static const char* name() {             \
            return #T;                          \
        }                                       \
    }
VALUES(int, 0, 1, -1, INT_MAX, INT_MIN, 0x12345678);
VALUES(unsigned, 0, 1, 0xffffffffu, 0x80000000u, 0x7fffffff, 12);
VALUES(int64_t, 0, 1, -1, INT64_MAX, INT64_MIN, 0x100000000LL);
VALUES(uintptr_t, 0, 1, UINTPTR_MAX, 0x8000000000000000ULL, 0xffffffff00000000ULL, 0xdeadbeef);
VALUES(uint8_t, 0, 1, 255, 128, 127, 7);
VALUES(short, 0, 1, -1, SHRT_MAX, SHRT_MIN, 300);
VALUES(bool, false, true, true, true, true, true);
VALUES(Old, kOldNone, kOldA, kOldB, kOldA, kOldB, kOldA);
VALUES(Small, Small::kNone, Small::kOne, Small::kMany, Small::kOne, Small::kMany, Small::kOne);
VALUES(Thing*, nullptr, &g_things[0], &g_things[1], &g_things[2], &g_things[3], &g_things[4]);
VALUES(char*, nullptr, (char*)&g_things[0], (char*)&g_things[0] + 1, (char*)1, (char*)-1, (char*)-2);
const size_t kNumValues = 6;

} // namespace

// One variable, whatever its type; values are numbers into Values<T>.
struct Var {
    virtual ~Var() {}
    virtual bool allocate() = 0;
    virtual void set(size_t v, bool by_operator) = 0;
    virtual bool holds(size_t v, int how) const = 0;
    virtual const char* type() const = 0;
};

template <typename T>
static typename std::enable_if<std::is_same<T, Thing*>::value, bool>::type
SameThing(const ke::ThreadLocal<T>& var, T want) {
    return !want || (&var->number == &want->number && (*var)->number == want->number);
}
template <typename T>
static typename std::enable_if<!std::is_same<T, Thing*>::value, bool>::type
SameThing(const ke::ThreadLocal<T>&, T) {
    return true;
}
template <typename T>
static typename std::enable_if<std::is_same<T, Small>::value, bool>::type
NotAgrees(const ke::ThreadLocal<T>& var, T want) {
    return var.get() == want;
}
template <typename T>
static typename std::enable_if<!std::is_same<T, Small>::value, bool>::type
NotAgrees(const ke::ThreadLocal<T>& var, T want) {
    return !var == !want;
}

template <typename T>
struct VarOf : public Var {
    ke::ThreadLocal<T> var;
    bool allocate() override {
        return var.allocate();
    }
    void set(size_t v, bool by_operator) override {
        if (by_operator)
            var = Values<T>::at(v);
        else
            var.set(Values<T>::at(v));
    }
    bool holds(size_t v, int how) const override {
        T want = Values<T>::at(v);
        T other = Values<T>::at(v + 1);
        switch (how) {
            case 0: return var.get() == want;
            case 1: return *var == want;
            case 2: return var == want;
            case 3: return !(var != want);
            case 4: return NotAgrees<T>(var, want);
            case 5: return SameThing<T>(var, want);
            case 6: return (var == other) == (want == other);
            default: return (var != other) == (want != other);
        }
    }
    const char* type() const override {
        return Values<T>::name();
    }
};
static const int kHows = 8;

static const size_t kTypes = 11;
static Var*
MakeVar(size_t type) {
    switch (type) {
        case 0: return new VarOf<int>();
        case 1: return new VarOf<Thing*>();
        case 2: return new VarOf<unsigned>();
        case 3: return new VarOf<int64_t>();
        case 4: return new VarOf<uintptr_t>();
        case 5: return new VarOf<uint8_t>();
        case 6: return new VarOf<short>();
        case 7: return new VarOf<bool>();
        case 8: return new VarOf<Old>();
        case 9: return new VarOf<Small>();
        default: return new VarOf<char*>();
    }
}

static const size_t kVars = 4;

#if defined(KE_SINGLE_THREADED)

VP_TARGET(PlainVariable, 60000, 3000000, 0) {
    Var* vars[kVars] = {};
    size_t value[kVars] = {};
    size_t writes[kVars] = {};
    bool busy = false;
    while (s.more(24)) {
        size_t v = s.draw(kVars);
        if (!vars[v]) {
            size_t type = s.draw(kTypes);
            vars[v] = MakeVar(type);
            value[v] = writes[v] = 0;
            VP_LOG("make variable %zu of type %s", v, vars[v]->type());
        } else if (s.chance(1, 8)) {
            VP_LOG("destroy variable %zu", v);
            delete vars[v];
            vars[v] = nullptr;
        } else if (s.chance(1, 6)) {
            VP_LOG("allocate variable %zu", v);
            VP_CHECK(vars[v]->allocate(), "allocate() failed in single-threaded mode");
        } else if (s.coin()) {
            size_t x = s.draw(kNumValues);
            bool op = s.coin();
            VP_LOG("set variable %zu to value %zu", v, x);
            vars[v]->set(x, op);
            value[v] = x;
            busy |= ++writes[v] > 1;
        }
        for (size_t i = 0; i < kVars; i++) {
            for (int how = 0; vars[i] && how < kHows; how++)
                VP_CHECK(vars[i]->holds(value[i], how), "variable %zu of type %s does not hold value %zu (test %d)", i,
                         vars[i]->type(), value[i], how);
        }
    }
    for (size_t i = 0; i < kVars; i++)
        delete vars[i];
    if (busy)
        s.nontrivial();
}

#else

#    include <condition_variable>
#    include <mutex>

#    include "common/conc.h"

static const size_t kWorkers = 3;
static const size_t kPhases = 3;

enum OpKind { kGet, kSet, kAllocate, kNumOps };
struct Op {
    uint8_t kind, var, value, how;
};

struct Case14 {
    Var* vars[kVars];
    // What each thread last set, 0 (the default) if nothing; only that thread looks at its row.
    uint8_t value[kWorkers + 1][kVars];
    uint8_t type[kVars];
    bool known[kVars];                  // its slot is allocated for sure
    bool sure[kWorkers + 1][kVars];     // this thread knows so
    size_t limit;
    uint64_t refusals;
    bool refused_any;
    std::vector<Op> ops[kWorkers + 1][kPhases];
};
static Case14* g_case;

// The system has |limit| slots.
static bool
Refuse(void* data) {
    sched::Ignore ig;
    Case14* c = static_cast<Case14*>(data);
    if (sched::LiveKeys() < c->limit)
        return false;
    c->refusals++;
    c->refused_any = true;
    return true;
}

struct Barrier {
    std::mutex m;
    std::condition_variable cv;
    size_t waiting = 0, round = 0, n;
    explicit Barrier(size_t k)
     : n(k)
    {}
    void arrive() {
        std::unique_lock<std::mutex> l(m);
        size_t mine = round;
        if (++waiting == n) {
            waiting = 0;
            round++;
            cv.notify_all();
            return;
        }
        while (round == mine)
            cv.wait(l);
    }
};

static void
RunOps(Case14* c, size_t who, size_t phase) {
    for (const Op& op : c->ops[who][phase]) {
        Var* v = c->vars[op.var];
        if (!v)
            continue;
        int kind = op.kind;
        {
            // With few slots, only what is certain to have one may be set: the failure ends the program.
            sched::Ignore ig;
            if (kind == kSet && c->limit != SIZE_MAX && !c->sure[who][op.var])
                kind = kAllocate;
        }
        switch (kind) {
            case kGet:
                break;
            case kSet:
                v->set(op.value, op.how & 1);
                {
                    sched::Ignore ig;
                    c->value[who][op.var] = op.value;
                    c->sure[who][op.var] = true;
                    VP_LOG("thread %zu sets variable %d to value %d", who, op.var, op.value);
                }
                break;
            case kAllocate: {
                uint64_t before;
                bool sure;
                {
                    sched::Ignore ig;
                    before = c->refusals;
                    sure = c->sure[who][op.var];
                }
                bool ok = v->allocate();
                sched::Ignore ig;
                VP_LOG("thread %zu allocates variable %d: %s", who, op.var, ok ? "yes" : "no");
                if (ok) {
                    c->sure[who][op.var] = true;
                    VP_CHECK(sched::LiveKeys() > 0, "allocate() of variable %d succeeded without a slot", op.var);
                } else {
                    VP_CHECK(!sure, "allocate() of variable %d failed after it had succeeded", op.var);
                    VP_CHECK(c->refusals > before, "allocate() of variable %d failed though the system had slots", op.var);
                }
                break;
            }
        }
        bool ok = v->holds(c->value[who][op.var], op.how % kHows);
        CONC_CHECK(ok, "thread %zu does not read value %d back from variable %d (test %d)", who, c->value[who][op.var], op.var,
                   op.how % kHows);
    }
}

// Everything this thread set, and nothing else.
static void
CheckAll(Case14* c, size_t who) {
    for (size_t i = 0; i < kVars; i++) {
        if (!c->vars[i])
            continue;
        bool ok = c->vars[i]->holds(c->value[who][i], 0);
        CONC_CHECK(ok, "thread %zu does not read value %d back from variable %zu", who, c->value[who][i], i);
    }
}

static void
CheckSlots(Case14* c) {
    sched::Ignore ig;
    size_t live = 0, sure = 0;
    for (size_t i = 0; i < kVars; i++) {
        live += c->vars[i] != nullptr;
        bool known = c->known[i];
        for (size_t w = 0; w <= kWorkers; w++)
            known |= c->sure[w][i];
        c->known[i] = known && c->vars[i];
        for (size_t w = 0; w <= kWorkers; w++)
            c->sure[w][i] = c->known[i];
        sure += c->known[i];
    }
    VP_CHECK(sched::LiveKeys() >= sure, "%zu variables have a slot but the program owns only %zu", sure, sched::LiveKeys());
    VP_CHECK(sched::LiveKeys() <= live, "%zu variables exist but the program owns %zu slots", live, sched::LiveKeys());
}

// Between phases, with everyone else waiting: variables come and go.
struct Change {
    uint8_t what[kVars]; // 0 nothing, 1 destroy, 2 make, 3 destroy and make
    uint8_t type[kVars];
    size_t limit;
};

static void
Apply(Case14* c, const Change& ch) {
    for (size_t i = 0; i < kVars; i++) {
        if ((ch.what[i] & 1) && c->vars[i]) {
            size_t before = sched::LiveKeys();
            delete c->vars[i];
            sched::Ignore ig;
            c->vars[i] = nullptr;
            VP_LOG("variable %zu is destroyed", i);
            size_t now = sched::LiveKeys();
            VP_CHECK(now == before || now + 1 == before, "destroying variable %zu released %zd slots", i, ssize_t(before - now));
            VP_CHECK(!c->known[i] || now + 1 == before, "destroying variable %zu did not release its slot", i);
            c->known[i] = false;
            for (size_t w = 0; w <= kWorkers; w++) {
                c->value[w][i] = 0;
                c->sure[w][i] = false;
            }
        }
        if ((ch.what[i] & 2) && !c->vars[i]) {
            c->vars[i] = MakeVar(ch.type[i]);
            sched::Ignore ig;
            c->type[i] = ch.type[i];
            VP_LOG("variable %zu of type %s is made", i, c->vars[i]->type());
        }
    }
    sched::Ignore ig;
    c->limit = ch.limit;
    if (c->limit != SIZE_MAX)
        VP_LOG("the system has %zu slots", c->limit);
}

static void
DrawChange(vp::Src& s, Change* ch, bool first, bool limits) {
    for (size_t i = 0; i < kVars; i++) {
        if (first)
            ch->what[i] = i == 0 || s.coin() ? 2 : 0;
        else
            ch->what[i] = uint8_t(s.chance(1, 2) ? 0 : s.draw(4));
        ch->type[i] = uint8_t(s.draw(kTypes));
    }
    ch->limit = limits && s.chance(2, 3) ? s.draw(4) : SIZE_MAX;
}

static void
Case(vp::Src& s, bool limits) {
    Case14 c;
    memset(c.vars, 0, sizeof(c.vars));
    memset(c.value, 0, sizeof(c.value));
    memset(c.known, 0, sizeof(c.known));
    memset(c.sure, 0, sizeof(c.sure));
    c.refusals = 0;
    c.refused_any = false;
    g_case = &c;
    size_t n = 1 + s.draw(kWorkers);
    size_t phases = 1 + s.draw(kPhases);
    Change changes[kPhases + 1];
    bool hot = s.coin(); // everyone at one variable
    for (size_t p = 0; p < phases; p++) {
        DrawChange(s, &changes[p], p == 0, limits);
        for (size_t w = 0; w <= n; w++) {
            size_t k = s.draw(5);
            for (size_t j = 0; j < k; j++) {
                Op op;
                op.kind = uint8_t(s.draw(kNumOps));
                op.var = uint8_t(s.draw(kVars));
                if (hot)
                    op.var = 0;
                op.value = uint8_t(s.draw(kNumValues));
                op.how = uint8_t(s.draw(16));
                c.ops[w][p].push_back(op);
            }
        }
    }
    DrawChange(s, &changes[phases], false, false);
    bool fatal = limits && s.chance(1, 4);
    size_t fatal_var = s.draw(kVars);
    // Did several threads touch a variable in its first phase?
    bool raced = false;
    for (size_t v = 0; v < kVars; v++) {
        for (size_t p = 0; p < phases; p++) {
            if (!(changes[p].what[v] & 2))
                continue;
            size_t by = 0;
            for (size_t w = 0; w <= n; w++) {
                bool touched = false, wrote = false;
                for (auto& op : c.ops[w][p]) {
                    touched |= op.var == v;
                    wrote |= op.var == v && op.kind != kGet;
                }
                by += wrote ? 2 : touched;
            }
            raced |= by >= 3;
        }
    }
    sched::SetKeyHook(Refuse, &c);
    {
        conc::Run run(s);
        Apply(&c, changes[0]);
        Barrier* bar = new Barrier(n + 1);
        {
            std::vector<std::thread> threads;
            threads.reserve(n);
            for (size_t w = 1; w <= n; w++) {
                threads.emplace_back([&c, bar, w, phases] {
                    for (size_t p = 0; p < phases; p++) {
                        RunOps(&c, w, p);
                        bar->arrive();
                        bar->arrive();
                        CheckAll(&c, w);
                    }
                });
            }
            for (size_t p = 0; p < phases; p++) {
                RunOps(&c, 0, p);
                bar->arrive();
                CheckSlots(&c);
                CheckAll(&c, 0);
                Apply(&c, changes[p + 1]);
                CheckSlots(&c);
                bar->arrive();
                CheckAll(&c, 0);
            }
            for (auto& t : threads)
                t.join();
        }
        delete bar;
        // With slots to be had again, everything can be allocated.
        for (size_t i = 0; i < kVars; i++) {
            if (!c.vars[i] || (fatal && i == fatal_var))
                continue;
            bool ok = c.vars[i]->allocate();
            CONC_CHECK(ok, "allocate() of variable %zu failed though the system has slots again", i);
            {
                sched::Ignore ig;
                c.sure[0][i] = true;
            }
            bool held = c.vars[i]->holds(c.value[0][i], 0);
            CONC_CHECK(held, "allocate() changed variable %zu", i);
        }
        CheckSlots(&c);
        if (fatal) {
            // The last act: setting a variable that cannot have a slot ends the program.
            Var* v = c.vars[fatal_var];
            if (v && !c.known[fatal_var]) {
                for (int i = 0; i < 2; i++) {
                    {
                        sched::Ignore ig;
                        c.limit = 0;
                    }
                    bool ok = v->allocate();
                    CONC_CHECK(!ok || sched::LiveKeys() > 0, "allocate() of variable %zu succeeded without a slot", fatal_var);
                    bool held = v->holds(0, 0);
                    CONC_CHECK(held, "variable %zu without a slot does not read as its default", fatal_var);
                    if (ok)
                        break;
                    CONC_CHECK(i == 0 || c.refusals >= 2, "allocate() of variable %zu failed without asking", fatal_var);
                }
            }
        }
        for (size_t i = 0; i < kVars; i++)
            delete c.vars[i];
        CONC_CHECK(sched::LiveKeys() == 0, "all variables are gone but the program still owns %zu slots", sched::LiveKeys());
    }
    sched::SetKeyHook(nullptr, nullptr);
    sched::DropKeys();
    if (raced || c.refused_any)
        s.nontrivial();
    if (c.refused_any)
        s.mark("allocation refused");
}

VP_TARGET(Histories, 40000, 2000000, 0) {
    Case(s, false);
}
VP_TARGET(FewSlots, 40000, 2000000, 0) {
    Case(s, true);
}

// Setting a variable that cannot have a slot ends the program instead of losing the value.
static bool
Never(void* data) {
    (*static_cast<size_t*>(data))++;
    return true;
}
VP_TARGET(NoSlot, 2000, 20000, 0) {
    size_t asked = 0;
    size_t type = s.draw(kTypes);
    size_t value = s.draw(kNumValues);
    size_t tries = s.draw(4);
    bool op = s.coin();
    Var* v = MakeVar(type);
    VP_LOG("set a variable of type %s to value %zu after %zu refused allocations", v->type(), value, tries);
    sched::SetKeyHook(Never, &asked);
    for (size_t i = 0; i < tries; i++) {
        VP_CHECK(!v->allocate(), "allocate() succeeded without a slot on try %zu", i + 1);
        VP_CHECK(asked >= i + 1, "allocate() failed without asking the system on try %zu", i + 1);
        VP_CHECK(v->holds(0, int(s.draw(kHows))), "a variable without a slot does not read as its default");
    }
    FILE* old = stderr;
    static FILE* null = fopen("/dev/null", "w");
    stderr = null;
    bool aborted = sched::Aborts([&] { v->set(value, op); });
    stderr = old;
    VP_CHECK(aborted, "set() returned though there is no slot for the value");
    // The program is over; nothing is claimed about the variable from here on.
    sched::SetKeyHook(nullptr, nullptr);
    sched::DropKeys();
    s.nontrivial();
}

#endif
