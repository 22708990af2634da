// C26: the argument parser accepts and rejects exactly its grammar and assigns the right values.
// Non-trivial: at least three arguments, or one of inline, negated, omitted or stop rules was used.
#include "../engine/vp.h"

#include "common/args.h"

static const char* const kOutcomes[] = {"accepted",      "help requested", "unrecognized", "extra argument",
                                        "needs a value", "invalid value",  "missing",      "given twice"};

static void
Check(vp::Src& s, const argx::Set& set, const std::vector<std::string>& args, argx::Machine& m, size_t way) {
    argx::Result want = argx::Parse(set, args);
    VP_LOG("options %s", argx::Show(set).c_str());
    VP_LOG("arguments %s: by the grammar %s", argx::Show(args).c_str(), kOutcomes[want.outcome]);
    s.mark(kOutcomes[want.outcome]);
    if (args.size() >= 3 || want.used_inline || want.used_negated || want.used_omitted || want.used_stop)
        s.nontrivial();
    if (want.used_inline)
        s.mark("inline value");
    if (want.used_negated)
        s.mark("negated");
    if (want.used_omitted)
        s.mark("omitted value before another argument");
    if (!want.passthrough.empty())
        s.mark("passthrough");

    bool ok = m.parse(args, way);
    VP_CHECK(ok == (want.outcome == argx::kAccepted), "parse returned %s, expected %s (%s)", ok ? "true" : "false",
             ok ? "false" : "true", kOutcomes[want.outcome]);
    if (want.outcome != argx::kAccepted && want.outcome != argx::kHelp)
        return;
    for (size_t i = 0; i < set.specs.size(); i++) {
        std::string got = m.at(i).show();
        std::string exp = argx::Expected(set.specs[i], want.values[i]);
        VP_CHECK(got == exp, "option '%s' is %s, expected %s", set.specs[i].pretty().c_str(), got.c_str(), exp.c_str());
    }
    VP_CHECK(m.parser.extra_args() == want.extra, "the extra arguments are %s, expected %s",
             argx::Show(m.parser.extra_args()).c_str(), argx::Show(want.extra).c_str());
    VP_CHECK(m.parser.passthrough_args() == want.passthrough, "the passthrough arguments are %s, expected %s",
             argx::Show(m.parser.passthrough_args()).c_str(), argx::Show(want.passthrough).c_str());
}

VP_TARGET(Grammar, 220000, 6000000, vp::kLeakCheck) {
    argx::Set set;
    set.set.help = s.coin();
    argx::GenSettings(s, set.set);
    size_t n = s.draw(7);
    for (size_t i = 0; i < n; i++)
        set.specs.push_back(argx::GenSpec(s, set, true));
    std::vector<std::string> args;
    argx::GenArgs(s, set, args, 12);
    size_t way = s.draw(8);
    auto m = argx::Machine::Make(set, nullptr);
    Check(s, set, args, *m, way);
}

// One option, one or two arguments: every way of writing them, densely.
VP_TARGET(OneOption, 300000, 8000000, vp::kLeakCheck) {
    argx::Set set;
    set.set.help = s.chance(1, 4);
    argx::GenSettings(s, set.set);
    set.specs.push_back(argx::GenSpec(s, set, true));
    std::vector<std::string> args;
    argx::GenArgs(s, set, args, 2);
    size_t way = s.draw(8);
    auto m = argx::Machine::Make(set, nullptr);
    Check(s, set, args, *m, way);
}

// Many options, many arguments.
VP_TARGET(Many, 1500, 40000, vp::kLeakCheck) {
    argx::Set set;
    set.set.help = s.coin();
    argx::GenSettings(s, set.set);
    size_t n = s.draw(70);
    for (size_t i = 0; i < n; i++)
        set.specs.push_back(argx::GenSpec(s, set, s.chance(1, 6)));
    std::vector<std::string> args;
    size_t limit = s.coin() ? s.draw(40) : s.draw(700);
    if (s.coin()) {
        // Nothing but what is accepted: values of repeatable options, and extra arguments.
        argx::Set some;
        some.set = set.set;
        for (auto& o : set.specs) {
            if (!o.positional() && o.kind >= argx::kRepeatString && !o.longf.empty())
                some.specs.push_back(o);
        }
        while (args.size() < limit) {
            size_t i = some.specs.empty() ? 0 : s.draw(some.specs.size() + 1);
            if (i == some.specs.size()) {
                args.push_back(std::to_string(s.draw(1000)));
            } else {
                bool eq = s.coin();
                std::string v = std::to_string(s.irange(0, 99999));
                args.push_back("--" + some.specs[i].longf + (eq ? "=" + v : ""));
                if (!eq)
                    args.push_back(v);
            }
        }
    } else {
        while (args.size() < limit) {
            size_t before = args.size();
            argx::GenArgs(s, set, args, limit);
            if (args.size() == before)
                args.push_back("x");
        }
    }
    size_t way = s.draw(8);
    auto m = argx::Machine::Make(set, nullptr);
    Check(s, set, args, *m, way);
}

// Arbitrary bytes as arguments.
VP_TARGET(Bytes, 220000, 6000000, vp::kLeakCheck) {
    argx::Set set;
    set.set.help = s.coin();
    argx::GenSettings(s, set.set);
    size_t n = s.draw(5);
    for (size_t i = 0; i < n; i++)
        set.specs.push_back(argx::GenSpec(s, set, true));
    std::vector<std::string> args;
    size_t nargs = s.draw(5);
    for (size_t i = 0; i < nargs; i++) {
        std::string t;
        size_t len = s.draw(10);
        for (size_t j = 0; j < len; j++) {
            switch (s.draw(3)) {
                case 0:
                    t += "-=:/"[s.draw(4)];
                    break;
                case 1:
                    t += "abOxs02no"[s.draw(9)];
                    break;
                default:
                    t += char(1 + s.draw(255));
            }
        }
        args.push_back(t);
    }
    size_t way = s.draw(8);
    auto m = argx::Machine::Make(set, nullptr);
    Check(s, set, args, *m, way);
}
