// C28: usage text names every argument with its whole help, errors name the offender.
// Non-trivial: some help text wraps or some option is too long for its column; a failing command line.
#include "../engine/vp.h"

#include "common/args.h"

static std::vector<std::string>
Words(const std::string& t) {
    std::vector<std::string> r;
    std::string w;
    for (char c : t) {
        if (c == ' ' || c == '\n') {
            if (!w.empty())
                r.push_back(w);
            w.clear();
        } else {
            w += c;
        }
    }
    if (!w.empty())
        r.push_back(w);
    return r;
}
static std::vector<std::string>
Lines(const std::string& t) {
    std::vector<std::string> r;
    std::string w;
    for (char c : t) {
        if (c == '\n') {
            r.push_back(w);
            w.clear();
        } else {
            w += c;
        }
    }
    if (!w.empty())
        r.push_back(w);
    return r;
}

// Everything that must be listed, in order.
struct Entry {
    std::vector<std::string> forms;
    std::vector<std::string> words;
};

static void
CheckUsageLine(const std::string& line, const std::string& prog, const argx::Set& set, const std::string& custom) {
    std::vector<std::string> w = Words(line);
    VP_CHECK(!w.empty() && w[0] == "Usage:", "the usage line is %s", vp::Quote(line.data(), line.size()));
    VP_CHECK(w.size() >= 2 && w[1] == prog, "the usage line %s does not name the program", vp::Quote(line.data(), line.size()));
    if (!custom.empty()) {
        size_t at = line.find(custom);
        VP_CHECK(at != std::string::npos && at + custom.size() == line.size(),
                 "the usage line %s does not end in the custom text", vp::Quote(line.data(), line.size()));
        return;
    }
    std::vector<std::string> want, got;
    for (auto& o : set.specs) {
        if (o.positional())
            want.push_back(o.name);
    }
    for (size_t i = 2; i < w.size(); i++) {
        if (w[i][0] != '[')
            got.push_back(w[i]);
    }
    VP_CHECK(got == want, "the usage line %s does not list the positionals in order", vp::Quote(line.data(), line.size()));
}

static bool
IsForm(const std::string& token, const std::string& form) {
    std::string t = token;
    if (!t.empty() && t.back() == ',')
        t.pop_back();
    return t == form || (form.compare(0, 2, "--") == 0 && t.compare(0, form.size() + 1, form + "=") == 0);
}

static void
CheckListing(const std::vector<std::string>& lines, const std::vector<Entry>& entries) {
    size_t entry = 0, form = 0;          // next form expected
    size_t hentry = 0, hword = 0;        // next help word expected
    std::vector<size_t> first(entries.size(), size_t(-1));
    auto skip = [&]() {
        while (hentry < entries.size() && hword == entries[hentry].words.size()) {
            hentry++;
            hword = 0;
        }
    };
    skip();
    for (size_t n = 0; n < lines.size(); n++) {
        size_t help_words = 0;
        for (const std::string& t : Words(lines[n])) {
            if (hentry < entries.size() && first[hentry] != size_t(-1) && t == entries[hentry].words[hword]) {
                hword++;
                help_words++;
                skip();
                continue;
            }
            if (entry < entries.size() && IsForm(t, entries[entry].forms[form])) {
                // All help of the entries before this one has been printed by now.
                VP_CHECK(hentry >= entry || form > 0,
                         "line %zu starts '%s' before the help of '%s' is complete: '%s' is missing", n, t.c_str(),
                         entries[hentry].forms[0].c_str(), entries[hentry].words[hword].c_str());
                if (form == 0)
                    first[entry] = n;
                if (++form == entries[entry].forms.size()) {
                    entry++;
                    form = 0;
                }
                continue;
            }
            if (t == "positional" || t == "optional" || t == "arguments:")
                continue;
            vp::Fail("line %zu has '%s' where %s%s%s%s was expected: %s", n, t.c_str(),
                     hentry < entries.size() ? "the help word " : "no help word",
                     hentry < entries.size() ? entries[hentry].words[hword].c_str() : "",
                     entry < entries.size() ? " or the option " : " and no option",
                     entry < entries.size() ? entries[entry].forms[form].c_str() : "",
                     vp::Quote(lines[n].data(), lines[n].size()));
        }
        VP_CHECK(lines[n].size() <= 80 || help_words <= 1, "line %zu has %zu columns of help in several words: %s", n,
                 lines[n].size(), vp::Quote(lines[n].data(), lines[n].size()));
    }
    VP_CHECK(entry == entries.size(), "'%s' is not listed", entries[entry].forms[form].c_str());
    VP_CHECK(hentry == entries.size(), "the help word '%s' of '%s' is missing", entries[hentry].words[hword].c_str(),
             entries[hentry].forms[0].c_str());
}

static unsigned g_serial;

// Words no two of which are alike.
static std::string
GenHelp(vp::Src& s) {
    static const unsigned w[] = {6, 6, 2, 1};
    std::string t;
    size_t n = s.chance(1, 60) ? s.draw(400) : s.draw(4) == 0 ? s.draw(40) : s.draw(8);
    for (size_t i = 0; i < n; i++) {
        std::string word = "w" + std::to_string(++g_serial);
        size_t len;
        switch (s.weighted(w, 4)) {
            case 0:
                len = s.draw(5);
                break;
            case 1:
                len = s.draw(14);
                break;
            case 2:
                len = s.draw(60);
                break;
            default:
                len = s.chance(1, 6) ? s.draw(1200) : 44 + s.draw(12);
        }
        word.append(len, '.');
        if (i)
            t += s.chance(1, 10) ? "  " : " ";
        t += word;
    }
    return t;
}

static std::string
GenLongName(vp::Src& s, const char* stem) {
    std::string t = stem + std::to_string(++g_serial);
    size_t n = s.chance(1, 60) ? s.draw(600) : s.coin() ? s.draw(10) : s.draw(40);
    for (size_t i = 0; i < n; i++)
        t += (s.chance(1, 6) && t.back() != '-') ? '-' : 'k';
    return t;
}

VP_TARGET(Listing, 100000, 2500000, vp::kLeakCheck) {
    g_serial = 0;
    argx::Set set;
    set.set.help = s.chance(3, 4);
    std::vector<Entry> pos, opt, extra;
    if (set.set.help)
        opt.push_back({{"-h", "--help"}, Words("Display this help menu.")});
    size_t n = s.chance(1, 60) ? s.draw(60) : s.draw(8);
    bool wraps = false;
    for (size_t i = 0; i < n; i++) {
        argx::Spec o;
        o.kind = argx::Kind(s.draw(argx::kNumKinds));
        o.dashes = s.coin();
        o.has_default = s.coin();
        o.idef = 0;
        o.bdef = false;
        o.help = GenHelp(s);
        wraps |= o.help.size() > 50;
        size_t form = s.draw(4);
        Entry e;
        if (form == 3) {
            o.kind = argx::Kind(s.draw(3));
            o.has_default = false;
            o.name = GenLongName(s, "pos");
            e.forms = {o.name};
        } else {
            if (form != 1) {
                o.shortf = s.coin() ? "S" + std::to_string(i) : GenLongName(s, "s");
                e.forms.push_back("-" + o.shortf);
            }
            if (form != 0) {
                o.longf = GenLongName(s, "opt");
                e.forms.push_back("--" + o.longf);
            }
        }
        wraps |= e.forms.back().size() > 20;
        e.words = Words(o.help);
        set.specs.push_back(o);
        (form == 3 ? pos : opt).push_back(e);
    }
    auto m = argx::Machine::Make(set, nullptr);
    std::vector<std::unique_ptr<argx::Text>> keep;
    size_t nextra = s.chance(1, 60) ? s.draw(30) : s.draw(3);
    for (size_t i = 0; i < nextra; i++) {
        std::string name = GenLongName(s, "extra");
        std::string help = GenHelp(s);
        keep.emplace_back(new argx::Text(name));
        const char* np = keep.back()->p.get();
        keep.emplace_back(new argx::Text(help));
        m->parser.add_usage_line(np, keep.back()->p.get());
        extra.push_back({{name}, Words(help)});
    }
    std::string custom;
    if (s.chance(1, 3)) {
        custom = "custom" + std::to_string(++g_serial) + (s.coin() ? " [-h] pos more" : " x");
        m->parser.set_usage_line(custom.c_str());
    }
    std::string prog = "prog" + std::to_string(++g_serial);
    if (wraps)
        s.nontrivial();

    // Before any parse, after one that asked for help, or after a failed one that did.
    std::vector<std::string> args;
    if (set.set.help) {
        switch (s.draw(4)) {
            case 0:
                break;
            case 1:
                args = {s.coin() ? "-h" : "--help"};
                break;
            case 2:
                args = {"--unknown", s.coin() ? "-h" : "--help"};
                break;
            default:
                args = {"--unknown=1", "x", s.coin() ? "-h" : "--help", "y"};
        }
    }
    if (!args.empty()) {
        bool ok = m->parse(args, 2);
        VP_CHECK(!ok, "a parse that asks for help or has an unknown option succeeded");
    }
    std::string text = m->usage(args, prog.c_str());
    VP_LOG("%s after %s:\n%s", argx::Show(set).c_str(), argx::Show(args).c_str(), text.c_str());
    std::vector<std::string> lines = Lines(text);
    size_t at = 0;
    while (at < lines.size() && lines[at].compare(0, 6, "Usage:") != 0)
        at++;
    VP_CHECK(at < lines.size(), "there is no usage line in %s", vp::Quote(text.data(), text.size()));
    CheckUsageLine(lines[at], prog, set, custom);
    std::vector<std::string> rest(lines.begin() + at + 1, lines.end());
    std::vector<Entry> all = pos;
    all.insert(all.end(), opt.begin(), opt.end());
    all.insert(all.end(), extra.begin(), extra.end());
    CheckListing(rest, all);
}

VP_TARGET(Errors, 150000, 4000000, vp::kLeakCheck) {
    g_serial = 0;
    argx::Set set;
    set.set.help = s.coin();
    argx::GenSettings(s, set.set);
    size_t n = s.draw(6);
    for (size_t i = 0; i < n; i++) {
        set.specs.push_back(argx::GenSpec(s, set, true));
        set.specs.back().help = "H" + std::to_string(i) + "H words";
    }
    std::vector<std::string> args;
    argx::GenArgs(s, set, args, 8);
    if (s.chance(1, 6))
        args.push_back("--" + std::string(s.draw(700), 'q'));
    auto m = argx::Machine::Make(set, nullptr);
    std::string custom;
    if (s.chance(1, 4)) {
        custom = "[custom] text";
        m->parser.set_usage_line(custom.c_str());
    }
    bool ok = m->parse(args, s.draw(8));
    argx::Result want = argx::Parse(set, args);
    std::string text = m->usage(args);
    VP_LOG("options %s arguments %s -> %s, usage:\n%s", argx::Show(set).c_str(), argx::Show(args).c_str(),
           ok ? "true" : "false", text.c_str());
    VP_CHECK(ok == (want.outcome == argx::kAccepted), "parse returned %s", ok ? "true" : "false");
    bool failed = want.outcome != argx::kAccepted && want.outcome != argx::kHelp;
    bool full = !failed;
    if (failed && set.set.help) {
        for (auto& a : args)
            full |= a == "-h" || a == "--help";
    }
    if (failed)
        s.nontrivial();
    s.mark(!failed ? "no error" : full ? "error, full help requested" : "error");
    size_t at = text.find("Usage: ");
    VP_CHECK(at != std::string::npos, "there is no usage line");
    size_t end = text.find('\n', at);
    VP_CHECK(end != std::string::npos, "the usage line does not end");
    CheckUsageLine(text.substr(at, end - at), "prog", set, custom);
    std::string rest = text.substr(end + 1);
    size_t err = rest.find("error: ");
    if (full) {
        VP_CHECK(err == std::string::npos, "an error is printed though none is due");
        for (auto& o : set.specs)
            VP_CHECK(rest.find(o.help.substr(0, o.help.find(' '))) != std::string::npos, "the help of '%s' is missing",
                     o.pretty().c_str());
        return;
    }
    VP_CHECK(err != std::string::npos, "the error is missing");
    for (auto& o : set.specs)
        VP_CHECK(text.find(o.help.substr(0, o.help.find(' '))) == std::string::npos,
                 "the full help is printed with an error");
    std::string message = rest.substr(err + 7);
    VP_CHECK(message.size() > 1, "the error is empty");
    if (!want.who.empty())
        VP_CHECK(message.find(want.who) != std::string::npos, "the error %s does not name the argument '%s'",
                 vp::Quote(message.data(), message.size()), want.who.c_str());
    if (!want.what.empty())
        VP_CHECK(message.find(want.what) != std::string::npos, "the error %s does not name %s",
                 vp::Quote(message.data(), message.size()), vp::Quote(want.what.data(), want.what.size()));
}
