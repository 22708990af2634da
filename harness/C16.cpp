// C16: a new thread runs its function once, with the arguments as they were, under the given name.
// Non-trivial: the caller went on (and destroyed what it had passed) before the new thread had run.
#include "../engine/vp.h"

#include <atomic>
#include <memory>

#include "common/conc.h"

#include <pthread.h>

#include <amtl/am-thread.h>

static const size_t kJobs = 3;
static const size_t kShapes = 9;

// A value that knows how many of its kind are alive and whether it has been moved away.
static int g_live;
struct Value {
    int* heap;
    explicit Value(int n)
     : heap(new int(n))
    {
        count(1);
    }
    Value(const Value& o)
     : heap(o.heap ? new int(*o.heap) : nullptr)
    {
        count(1);
    }
    Value(Value&& o)
     : heap(o.heap)
    {
        o.heap = nullptr;
        count(1);
    }
    Value& operator =(const Value& o) = delete;
    ~Value() {
        delete heap;
        heap = nullptr;
        count(-1);
    }
    int get() const {
        return heap ? *heap : -1;
    }
    static void count(int by) {
        sched::Ignore ig;
        g_live += by;
    }
};

struct Job {
    int number;
    int shape;
    int a;            // what the thread must be given
    std::string text;
    std::string name;
    std::string rename;     // what it calls itself later, or nothing
    std::string renamed;    // what the first thread calls it, or nothing
    int stay;               // how often it looks around
    bool nests;             // it starts a thread itself
    std::string nested;     // and calls it this
    // Written by the thread, read after joining.
    int runs;
    int result;
    std::thread::id id;
    // Handshake.
    std::atomic<int> stage; // 1: running and waiting to be renamed; 2: may go on
    bool started;           // touched with the scheduler's attention off
};
static Job* g_jobs[kJobs];
static std::string g_own_name;

static std::string
Q(const std::string& t) {
    return vp::Quote(t.data(), t.size());
}
static std::string
NameOf(pthread_t t) {
    char buf[64] = "?";
    pthread_getname_np(t, buf, sizeof(buf));
    return buf;
}

// What every thread does, whatever it was started with.
static void
Run(Job* job, int a, const std::string& text) {
    sched::IgnoreBegin();
    job->started = true;
    std::string name = NameOf(pthread_self());
    VP_LOG("thread %d runs as %s", job->number, Q(name).c_str());
    VP_CHECK(name == job->name, "thread %d is called %s when its function starts, not %s", job->number,
             Q(name).c_str(), Q(job->name).c_str());
    VP_CHECK(a == job->a, "thread %d was given %d, not %d", job->number, a, job->a);
    VP_CHECK(text == job->text, "thread %d was given %s, not %s", job->number, Q(text).c_str(),
             Q(job->text).c_str());
    sched::IgnoreEnd();
    job->runs++;
    job->id = std::this_thread::get_id();
    if (!job->rename.empty()) {
        ke::SetThreadName(job->rename.c_str());
        sched::Ignore ig;
        std::string now = NameOf(pthread_self());
        VP_CHECK(now == job->rename, "thread %d called itself %s but is called %s", job->number,
                 Q(job->rename).c_str(), Q(now).c_str());
    }
    if (!job->renamed.empty()) {
        job->stage = 1;
        while (job->stage != 2)
            std::this_thread::yield();
        sched::Ignore ig;
        std::string now = NameOf(pthread_self());
        VP_CHECK(now == job->renamed, "thread %d was renamed to %s but is called %s", job->number,
                 Q(job->renamed).c_str(), Q(now).c_str());
    }
    if (job->nests) {
        int seen = 0;
        std::string text_copy = text;
        const std::string* want = &job->nested;
        auto t = ke::NewThread(
            job->nested.c_str(),
            [&seen, want](int b, const std::string& given) {
                {
                    sched::Ignore ig;
                    std::string now = NameOf(pthread_self());
                    VP_CHECK(now == *want, "a thread started by another one is called %s, not %s", Q(now).c_str(), Q(*want).c_str());
                }
                seen = b + int(given.size());
            },
            a, std::move(text_copy));
        t->join();
        CONC_CHECK(seen == a + int(text.size()), "a thread started by another one had not finished when it was joined");
    }
    for (int i = 0; i < job->stay; i++)
        sched::Yield();
    {
        // Whatever happened to other threads meanwhile, this name stays.
        sched::Ignore ig;
        const std::string& want =
            !job->renamed.empty() ? job->renamed : !job->rename.empty() ? job->rename : job->name;
        std::string now = NameOf(pthread_self());
        VP_CHECK(now == want, "thread %d was called %s and is now called %s", job->number, Q(want).c_str(),
                 Q(now).c_str());
    }
    job->result = a + 1;
}

static void
Free(Job* job, int a, const char* text) {
    Run(job, a, text);
}

struct Object {
    Job* job;
    Value v;
    void method(int a, const std::string& text) {
        Run(job, a, text);
    }
    void operator ()(const std::string& text) {
        Run(job, v.get(), text);
    }
};

static const char* const kTexts[] = {"", "x", "a text that is too long to be kept inside a string object", "two words"};

static std::unique_ptr<std::thread>
Start(Job* job, size_t text_index, Object* object) {
    // All of this is gone or changed when this function returns.
    char* name = new char[job->name.size() + 1];
    memcpy(name, job->name.c_str(), job->name.size() + 1);
    int a = job->a;
    std::string text = kTexts[text_index];
    std::unique_ptr<std::thread> t;
    switch (job->shape) {
        case 0:
            t = ke::NewThread(name, [job, a, text] { Run(job, a, text); });
            break;
        case 1: {
            auto f = [](Job* j, int x, const std::string& s) { Run(j, x, s); };
            t = ke::NewThread(name, f, job, a, text);
            break;
        }
        case 2: {
            Value v(a);
            t = ke::NewThread(
                name, [](Job* j, const Value& x, std::string& s) { Run(j, x.get(), s); }, job, v, text);
            *v.heap = -7;
            break;
        }
        case 3: {
            Value v(a);
            t = ke::NewThread(
                name, [](Job* j, Value& x, std::string s) { Run(j, x.get(), s); }, job, std::move(v), std::move(text));
            break;
        }
        case 4: {
            std::unique_ptr<int> p(new int(a));
            t = ke::NewThread(
                name, [text](Job* j, std::unique_ptr<int>& x) { Run(j, *x, text); }, job, std::move(p));
            bool gone = !p;
            CONC_CHECK(gone, "a moved-in argument is still with the caller");
            break;
        }
        case 5:
            t = ke::NewThread(name, &Object::method, object, a, text);
            break;
        case 6:
            t = ke::NewThread(name, Free, job, a, kTexts[text_index]);
            break;
        case 7: {
            Object o{job, Value(a)};
            t = ke::NewThread(name, o, text);
            *o.v.heap = -9;
            o.job = nullptr;
            break;
        }
        default: {
            std::unique_ptr<Value> p(new Value(a));
            t = ke::NewThread(name, [job, p = std::move(p)](const char* s) { Run(job, p->get(), s); }, kTexts[text_index]);
            break;
        }
    }
    a = -5;
    for (auto& ch : text)
        ch = '#';
    memset(name, '!', job->name.size());
    delete[] name;
    return t;
}

static std::string
DrawName(vp::Src& s) {
    static const unsigned kLengths[] = {1, 4, 2};
    size_t n = s.weighted(kLengths);
    n = n == 0 ? s.draw(2) : n == 1 ? s.draw(16) : 13 + s.draw(3);
    std::string r;
    for (size_t i = 0; i < n; i++) {
        uint64_t k = s.draw(10);
        r += k < 8 ? char('a' + s.draw(26)) : k == 8 ? char(32 + s.draw(95)) : char(1 + s.draw(255));
    }
    return r;
}

// A name that differs little from one that is in use.
static std::string
Near(vp::Src& s, std::string base) {
    size_t at = base.empty() ? 0 : s.draw(base.size());
    switch (s.draw(6)) {
        case 0:
            return base;
        case 1:
            return base.substr(0, at);
        case 2:
            return base.substr(at);
        case 3:
            base += DrawName(s);
            return base.substr(0, 15);
        case 4:
            if (!base.empty())
                base[at] = char(base[at] ^ 0x20) ? char(base[at] ^ 0x20) : 'z';
            return base;
        default:
            if (!base.empty())
                base.back() = base.back() == 'q' ? 'p' : 'q';
            return base;
    }
}

static void
Expect(const std::string& want) {
    sched::Ignore ig;
    std::string now = NameOf(pthread_self());
    VP_CHECK(now == want, "the first thread was called %s and is now called %s", Q(want).c_str(),
             Q(now).c_str());
}

VP_TARGET(Threads, 30000, 1500000, 0) {
    size_t n = 1 + s.draw(kJobs);
    Job jobs[kJobs];
    size_t texts[kJobs];
    bool early = false;
    static const std::string original = NameOf(pthread_self());
    std::string mine = s.coin() ? DrawName(s) : original;
    std::vector<std::string> used(1, mine);
    auto name = [&] {
        std::string r = s.coin() ? Near(s, used[s.draw(used.size())]) : DrawName(s);
        used.push_back(r);
        return r;
    };
    for (size_t i = 0; i < n; i++) {
        Job& j = jobs[i];
        g_jobs[i] = &j;
        j.number = int(i) + 1;
        j.shape = int(s.draw(kShapes));
        j.a = int(s.draw(1000));
        texts[i] = s.draw(4);
        j.text = kTexts[texts[i]];
        j.name = name();
        if (s.chance(1, 3))
            j.rename = s.coin() ? Near(s, j.name) : name();
        if (s.chance(1, 3))
            j.renamed = s.coin() ? Near(s, j.rename) : name();
        j.nests = s.chance(1, 4);
        if (j.nests)
            j.nested = name();
        j.stay = int(s.draw(4));
        j.runs = 0;
        j.result = -1;
        j.stage = 0;
        j.started = false;
        VP_LOG("the first thread is %s; thread %d: shape %d, name %s, calls itself %s, is renamed to %s, starts %s", Q(mine).c_str(), j.number, j.shape, Q(j.name).c_str(),
               Q(j.rename).c_str(), Q(j.renamed).c_str(), j.nests ? Q(j.nested).c_str() : "none");
    }
    bool own = s.chance(1, 3); // the first thread renames itself meanwhile
    std::string own_name = name();
    pthread_setname_np(pthread_self(), mine.c_str());
    g_live = 0;
    {
        conc::Run run(s);
        {
            Object* objects[kJobs];
            std::vector<std::unique_ptr<std::thread>> threads;
            threads.reserve(n);
            for (size_t i = 0; i < n; i++) {
                objects[i] = new Object{&jobs[i], Value(jobs[i].a)};
                threads.push_back(Start(&jobs[i], texts[i], objects[i]));
                bool some = threads.back() && threads.back()->joinable();
                CONC_CHECK(some, "no thread to join was returned");
                {
                    sched::Ignore ig;
                    early |= !jobs[i].started;
                }
                Expect(mine);
            }
            if (own) {
                ke::SetThreadName(own_name.c_str());
                sched::Ignore ig;
                mine = own_name;
            }
            Expect(mine);
            for (size_t i = 0; i < n; i++) {
                if (jobs[i].renamed.empty())
                    continue;
                while (jobs[i].stage != 1)
                    std::this_thread::yield();
                ke::SetThreadName(threads[i].get(), jobs[i].renamed.c_str());
                Expect(mine);
                jobs[i].stage = 2;
            }
            for (size_t i = 0; i < n; i++) {
                std::thread::id id = threads[i]->get_id();
                threads[i]->join();
                // Plain memory: joining must order these reads after the thread's work.
                int runs = jobs[i].runs;
                int result = jobs[i].result;
                bool same = jobs[i].id == id;
                bool self = id == std::this_thread::get_id();
                CONC_CHECK(runs == 1, "thread %zu ran its function %d times", i + 1, runs);
                CONC_CHECK(result == jobs[i].a + 1, "thread %zu had not finished when it was joined", i + 1);
                CONC_CHECK(same && !self, "thread %zu did not run its function on the thread returned", i + 1);
            }
            Expect(mine);
            for (size_t i = 0; i < n; i++)
                delete objects[i];
            threads.clear();
        }
    }
    VP_CHECK(g_live == 0, "%d argument values are still alive after all threads were joined", g_live);
    pthread_setname_np(pthread_self(), original.c_str());
    if (early)
        s.nontrivial();
}
