// C27: reset erases every trace of earlier parses, all entry points agree, static options belong to
// every parser made later.
// Non-trivial: an earlier parse failed, stopped, set an option or collected extra or passthrough
// arguments; the list has at least two arguments; at least one static option is in a parser that parsed.
#include "../engine/vp.h"

#include "common/args.h"

static std::string
State(argx::Machine& m, const argx::Set& set, bool ok, const std::vector<std::string>& args) {
    std::string r = ok ? "returned true;" : "returned false;";
    for (size_t i = 0; i < set.specs.size(); i++)
        r += " " + set.specs[i].pretty() + "=" + m.at(i).show();
    r += "; extra " + argx::Show(m.parser.extra_args());
    r += "; passthrough " + argx::Show(m.parser.passthrough_args());
    r += "; says " + m.usage(args);
    return r;
}

VP_TARGET(Reset, 60000, 1500000, vp::kLeakCheck) {
    argx::Set set;
    set.set.help = s.coin();
    argx::GenSettings(s, set.set);
    size_t n = s.chance(1, 100) ? s.draw(50) : s.draw(6);
    for (size_t i = 0; i < n; i++)
        set.specs.push_back(argx::GenSpec(s, set, true));
    VP_LOG("options %s", argx::Show(set).c_str());
    auto reused = argx::Machine::Make(set, nullptr);
    size_t rounds = 1 + s.draw(5);
    bool trace = false;
    for (size_t r = 0; r < rounds; r++) {
        // Several parses may come between two resets.
        size_t dirty = s.draw(3);
        for (size_t d = 0; d < dirty; d++) {
            std::vector<std::string> args;
            argx::GenArgs(s, set, args, 8);
            size_t way = s.draw(8);
            bool ok = reused->parse(args, way);
            VP_LOG("parse %s -> %s", argx::Show(args).c_str(), ok ? "true" : "false");
            trace |= !args.empty();
            if (s.coin())
                reused->usage(args);
        }
        reused->parser.reset();
        VP_LOG("reset");
        std::vector<std::string> args;
        argx::GenArgs(s, set, args, 8);
        size_t way = s.draw(8);
        size_t way2 = s.draw(8);
        auto fresh = argx::Machine::Make(set, nullptr);
        if (trace)
            s.nontrivial();
        std::string got = State(*reused, set, reused->parse(args, way), args);
        std::string want = State(*fresh, set, fresh->parse(args, way2), args);
        VP_LOG("parse %s -> %s", argx::Show(args).c_str(), got.substr(0, 15).c_str());
        trace |= !args.empty();
        if (got.compare(0, 14, "returned false") == 0)
            s.mark("failed after reset");
        else
            s.mark("accepted after reset");
        VP_CHECK(got == want, "after reset %s\na fresh parser %s", got.c_str(), want.c_str());
    }
}

VP_TARGET(EntryPoints, 60000, 1500000, vp::kLeakCheck) {
    argx::Set set;
    set.set.help = s.coin();
    argx::GenSettings(s, set.set);
    size_t n = s.draw(6);
    for (size_t i = 0; i < n; i++)
        set.specs.push_back(argx::GenSpec(s, set, true));
    std::vector<std::string> args;
    argx::GenArgs(s, set, args, 8);
    VP_LOG("options %s arguments %s", argx::Show(set).c_str(), argx::Show(args).c_str());
    if (args.size() >= 2)
        s.nontrivial();
    std::string first;
    static const char* const ways[] = {"vector of pointers", "vector of strings", "argc and argv", "variadic"};
    for (size_t way = 0; way < 4; way++) {
        auto m = argx::Machine::Make(set, nullptr);
        bool ok = m->parse(args, way);
        std::string got = State(*m, set, ok, args);
        if (way == 0)
            first = got;
        VP_CHECK(got == first, "%s: %s\n%s: %s", ways[0], first.c_str(), ways[way], got.c_str());
    }
}

// Static options accumulate in the process, so each of these histories runs in a process of its own.
struct Event {
    int what; // 0 register, 1 new parser, 2 reset and parse
    argx::Spec spec;
    argx::Set set;
    size_t parser;
    std::vector<std::string> args;
    size_t way;
};

static void
Play(const std::vector<Event>& events) {
    auto* statics = new std::vector<std::unique_ptr<argx::Real>>();
    std::vector<std::unique_ptr<argx::Machine>> machines;
    std::vector<const argx::Set*> sets;
    for (const Event& e : events) {
        if (e.what == 0) {
            statics->emplace_back(new argx::Real(nullptr, e.spec));
            VP_LOG("static %s %s", argx::kKindNames[e.spec.kind], e.spec.pretty().c_str());
        } else if (e.what == 1) {
            machines.push_back(argx::Machine::Make(e.set, statics));
            sets.push_back(&e.set);
            VP_LOG("parser %zu: %s", machines.size() - 1, argx::Show(e.set).c_str());
        } else {
            argx::Machine& m = *machines[e.parser];
            const argx::Set& set = *sets[e.parser];
            m.parser.reset();
            bool ok = m.parse(e.args, e.way);
            argx::Result want = argx::Parse(set, e.args);
            VP_LOG("parser %zu parses %s -> %s", e.parser, argx::Show(e.args).c_str(), ok ? "true" : "false");
            VP_CHECK(ok == (want.outcome == argx::kAccepted), "parse returned %s", ok ? "true" : "false");
            if (want.outcome != argx::kAccepted && want.outcome != argx::kHelp)
                continue;
            for (size_t i = 0; i < set.specs.size(); i++) {
                std::string got = m.at(i).show();
                std::string exp = argx::Expected(set.specs[i], want.values[i]);
                VP_CHECK(got == exp, "%s option '%s' is %s, expected %s", i < set.nstatic ? "static" : "local",
                         set.specs[i].pretty().c_str(), got.c_str(), exp.c_str());
            }
            VP_CHECK(m.parser.extra_args() == want.extra, "the extra arguments are %s",
                     argx::Show(m.parser.extra_args()).c_str());
            VP_CHECK(m.parser.passthrough_args() == want.passthrough, "the passthrough arguments are %s",
                     argx::Show(m.parser.passthrough_args()).c_str());
        }
    }
}

VP_TARGET(Statics, 1600, 40000, 0) {
    std::vector<Event> events;
    argx::Set statics;
    std::vector<argx::Set> parsers;
    size_t n = 1 + s.draw(18);
    for (size_t i = 0; i < n; i++) {
        Event e;
        e.what = int(std::min<uint64_t>(s.draw(5), 2));
        if (e.what == 2 && parsers.empty())
            e.what = 1;
        e.parser = e.way = 0;
        if (e.what == 0) {
            if (statics.specs.size() == 5)
                continue;
            e.spec = argx::GenSpec(s, statics, true);
            statics.specs.push_back(e.spec);
        } else if (e.what == 1) {
            e.set = statics;
            e.set.nstatic = statics.specs.size();
            e.set.set.help = s.coin();
            argx::GenSettings(s, e.set.set);
            size_t k = s.draw(4);
            for (size_t j = 0; j < k; j++)
                e.set.specs.push_back(argx::GenSpec(s, e.set, true));
            parsers.push_back(e.set);
        } else {
            e.parser = s.draw(parsers.size());
            // Use names the parser does not know, too.
            bool own = s.chance(3, 4);
            argx::GenArgs(s, own ? parsers[e.parser] : statics, e.args, 6);
            e.way = s.draw(8);
            if (parsers[e.parser].nstatic)
                s.nontrivial();
        }
        events.push_back(e);
    }
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        Play(events);
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
        return;
    if (WIFEXITED(st))
        _exit(WEXITSTATUS(st));
    vp::Fail("the parser crashed with signal %d", WTERMSIG(st));
}
