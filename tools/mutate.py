#!/usr/bin/env python3
"""Measures the checks: mutates one header at a time and reports the mutants nobody noticed.

  mutate.py OUT.jsonl [-j JOBS] [-s SCALE] [-n MAX] HEADER...     (headers relative to /repo)

Each mutant is one small edit of one line in a scratch copy of /repo.  It is put aside when the
preprocessed header is unchanged or does not compile, "tests" when the unit tests notice, "ID" when the
check of that property does, and "SURVIVED" otherwise.  This says where a check is blind (or that
the mutant changes nothing anyone relies on); it decides nothing.
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, queue, random, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
import run  # noqa: E402
from checks import CHECKS  # noqa: E402

H = "amtl/"
MAP = {
    H + "am-hashtable.h": ["C01", "C02", "C03", "C04"], H + "am-hashmap.h": ["C01", "C02", "C03"],
    H + "am-hashset.h": ["C01", "C02", "C03"], H + "am-inlinelist.h": ["C05"], H + "am-fixedarray.h": ["C06"],
    H + "am-priority-queue.h": ["C07"], H + "am-vector.h": ["C08"], H + "am-deque.h": ["C08"],
    H + "am-maybe.h": ["C09"], H + "am-storagebuffer.h": ["C09"], H + "am-function.h": ["C10"],
    H + "am-refcounting.h": ["C11", "C12", "C13"], H + "am-refcounting-threadsafe.h": ["C12", "C13"],
    H + "am-threadlocal.h": ["C14"], H + "am-mutex.h": ["C15"], H + "am-thread.h": ["C16"],
    H + "am-string.h": ["C17", "C18", "C19"], H + "am-bits.h": ["C20", "C21"], H + "am-arithmetic.h": ["C21"],
    H + "am-float.h": ["C22"], H + "am-flags.h": ["C23"], H + "am-enum.h": ["C23"], H + "am-raii.h": ["C24"],
    H + "am-time.h": ["C25"], H + "experimental/am-argparser.h": ["C26", "C27", "C28"],
    H + "experimental/am-argparser.cpp": ["C27", "C26"], H + "os/am-path.h": ["C29"],
    H + "os/am-fsutil-posix.h": ["C29"], H + "os/am-system-errors.h": ["C29"],
    H + "os/am-shared-library.h": ["C30"], "compat/stdcxx.cpp": ["C31"],
    H + "am-allocator-policies.h": ["C32", "C03", "C06"], H + "am-assert.h": ["C32", "C15"],
    H + "am-utility.h": ["C33"], H + "am-cxx.h": ["C33"], H + "am-linking.h": ["C33"],
}

# (pattern, replacements)
OPS = [
    (r"(?<![<\-=>!])<(?![<=])(?= )", ["<="]), (r"(?<= )<=(?= )", ["<", "=="]), (r"(?<= )>(?= )", [">="]),
    (r"(?<= )>=(?= )", [">"]), (r"(?<= )==(?= )", ["!="]), (r"(?<= )!=(?= )", ["=="]),
    (r"(?<= )&&(?= )", ["||"]), (r"(?<= )\|\|(?= )", ["&&"]),
    (r"(?<= )\+(?= )", ["-"]), (r"(?<= )-(?= )", ["+"]), (r"(?<= )\*(?= )", ["+"]),
    (r" \+ 1\b", [""]), (r" - 1\b", [""]),
    (r"\+\+", ["--"]), (r"--(?=[\w;)(])", ["++"]), (r"\+=", ["-="]), (r"-=", ["+="]),
    (r"(?<= )<<(?= )", [">>"]), (r"(?<= )>>(?= )", ["<<"]), (r"(?<=[\w)] )&(?= )", ["|"]), (r"(?<= )\|(?= )", ["&"]),
    (r"(?<= )\^(?= )", ["|"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"std::move\(((?:[^()]|\([^()]*\))*)\)", [r"(\1)"]),
    (r"std::forward<[^()]*>\(((?:[^()]|\([^()]*\))*)\)(?:\.\.\.)?", [None]),
    (r"memory_order_(?:acquire|release|acq_rel|seq_cst)", ["memory_order_relaxed"]),
    (r"(?<![\w.])(\d+)(?=[^\w.])", ["N+1", "N-1"]),
    (r"!(?=[\w(*])", [""]), (r"\bif \((.*)\)( \{)?$", [r"if (true)\2", r"if (false)\2", r"if (!(\1))\2"]),
    (r"\bwhile \((.*)\)( \{)?$", [r"while (false)\2"]),
    (r"\bif \((.*)\)( return.*;| break;| continue;)$", [r"if (false)\2"]),
    (r"\?(.*):(.*);", [r"?\2:\1;"]),
    (r"\bbreak;", [""]), (r"\bcontinue;", [""]),
    (r"\bnullptr\b", ["this"]),
    (r"\bmutable\b|\bexplicit\b|\bvolatile\b", [""]),
    (r"\bconst (?=\w+&)", [""]),
]
DECL = re.compile(r"^\s*(return\b|using\b|typedef\b|static_assert|friend\b|template\b|struct\b|class\b|#|//|public|private|protected|"
                  r"(const |static |mutable |unsigned )*[\w:<>,\* ]+[\*& ]+\w+(\[.*\])?( = .*|\{.*|\(.*)?;\s*(//.*)?$)")


def mutants(text):
    out = []
    lines = text.split("\n")
    comment = False
    for i, line in enumerate(lines):
        s = line.strip()
        if comment:
            if "*/" in s:
                comment = False
            continue
        if s.startswith("/*"):
            comment = "*/" not in s
            continue
        if not s or s.startswith("//") or s.startswith("#include") or s.startswith("#if") or s.startswith("#e") or s.startswith("#    error"):
            continue
        code = re.split(r"\s*//", line)[0]
        for pat, reps in OPS:
            for m in re.finditer(pat, code):
                for r in reps:
                    if r is None:
                        new = m.group(1) + ("..." if m.group(0).endswith("...") else "")
                    elif r in ("N+1", "N-1"):
                        n = int(m.group(1)) + (1 if r == "N+1" else -1)
                        if n < 0:
                            continue
                        new = str(n)
                    else:
                        new = m.expand(r)
                    t = code[:m.start()] + new + code[m.end():]
                    if t != code:
                        out.append((i, t))
        # Statements left out, and a line's whole body.
        if s.endswith(";") and not DECL.match(code) and s not in ("break;", "continue;", "};", ");"):
            # Only statements that begin on this line.
            prev = lines[i - 1].strip() if i else ""
            if prev.endswith((";", "{", "}", ")", ":", "else")) or not prev:
                out.append((i, re.match(r"\s*", line).group(0) + ";"))
        m = re.match(r"^(\s*)(?:const |static |mutable )*[\w:<>,\*]+[\*& ]+(\w+) = (.*);$", code)
        if m and not s.startswith(("return", "using")):
            pass
        m = re.match(r"^(\s*)return (.+);$", code)
        if m and m.group(2) not in ("true", "false", "*this"):
            for v in ("{}", "!(%s)" % m.group(2)):
                out.append((i, "%sreturn %s;" % (m.group(1), v)))
    seen = set()
    res = []
    for i, t in out:
        if (i, t) not in seen:
            seen.add((i, t))
            res.append((i, t))
    return res


def sh(cmd, timeout=300, **kw):
    p = subprocess.Popen(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors="replace", start_new_session=True, **kw)
    try:
        out = p.communicate(timeout=timeout)[0]
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out = p.communicate()[0]
        return 124, out


class Worker(threading.Thread):
    def __init__(self, n, base, q, out, scale):
        super().__init__(daemon=True)
        self.n, self.q, self.out, self.scale = n, q, out, scale
        self.dir = os.path.join(base, "w%d" % n)
        self.tree = os.path.join(self.dir, "repo")
        os.makedirs(self.tree)
        sh("cd /repo && git archive HEAD | tar x -C %s" % self.tree)
        os.mkdir(self.dir + "/cm")
        text = open("/opt/vp/amtl-build/CMakeLists.txt").read().replace("set(REPO /repo)", "set(REPO %s)" % self.tree)
        open(self.dir + "/cm/CMakeLists.txt", "w").write(text)
        self.b = self.dir + "/b"
        sh("cmake -S %s/cm -B %s -G Ninja -DCMAKE_CXX_COMPILER=/usr/bin/g++ && ninja -j1 -C %s testrunner" % (self.dir, self.b, self.b), 900)

    def run(self):
        while True:
            try:
                job = self.q.get_nowait()
            except queue.Empty:
                return
            try:
                r = self.one(*job)
            except Exception as e:
                r = "ERROR %r" % e
            h, i, new, old = job
            with LOCK:
                self.out.write(json.dumps({"file": h, "line": i + 1, "old": old.strip(), "new": new.strip(), "result": r}) + "\n")
                self.out.flush()

    def pre(self, h):
        flags = "-std=c++17 -I%s -DDEBUG -D_DEBUG -D_LINUX -DPOSIX -fno-exceptions -include stdint.h -include string.h" % self.tree
        a = sh("g++ -E -P %s %s" % (flags, os.path.join(self.tree, h)))[1]
        # Macros that the header defines count as well.
        b = sh("g++ -E -dM %s %s" % (flags, os.path.join(self.tree, h)))[1]
        c = sh("g++ -E -P -DNDEBUG %s %s" % (flags.replace("-DDEBUG -D_DEBUG", ""), os.path.join(self.tree, h)))[1]
        return a + b + c

    def one(self, h, i, new, old):
        p = os.path.join(self.tree, h)
        orig = open(p).read()
        try:
            lines = orig.split("\n")
            before = self.pre(h)
            lines[i] = new
            open(p, "w").write("\n".join(lines))
            if self.pre(h) == before:
                return "same"
            rc, o = sh("ninja -j1 -C %s testrunner" % self.b, 600)
            if rc:
                return "nocompile"
            rc, o = sh("timeout 60 %s/testrunner" % self.b, 100, cwd=self.b)
            if rc:
                return "tests"
            for cid in MAP[h]:
                r = self.check(cid)
                if r:
                    return r
            return "SURVIVED"
        finally:
            open(p, "w").write(orig)

    def check(self, cid):
        spec = CHECKS[cid]
        bdir = os.path.join(self.dir, "build")
        shutil.rmtree(bdir, ignore_errors=True)
        os.makedirs(bdir)
        code = ("import sys; sys.path.insert(0, %r); import run; run.REPO=%r; run.COMMON=[x.replace('-I/repo', '-I'+%r) for x in run.COMMON];"
                "spec=run.CHECKS[%r]; ok,t=run.prepare(%r, spec, %r);\n"
                "if not ok: print(t); sys.exit(3)\n"
                "p,t=run.build_one(%r, spec, sys.argv[1], %r); print(t); sys.exit(0 if p else 3)"
                % (VERIF, self.tree, self.tree, cid, cid, bdir, cid, bdir))
        for c in spec.get("configs", ["debug", "release"]):
            rc, o = sh([sys.executable, "-c", code, c], 600)
            if rc:
                return cid + " (compile %s) %s" % (c, o[-300:])
            exe = os.path.join(bdir, "%s.%s" % (cid, c))
            known = ",".join(run.known_findings(cid))
            tmp = os.path.join(bdir, "tmp." + c)
            os.makedirs(tmp, exist_ok=True)
            rc, o = sh([exe, "run", "--seed", "1", "--workers", "2", "--scale", repr(float(spec.get("scale", 1)) * self.scale),
                        "--time-cap", "150", "--out", bdir + "/x.json", "--replay-dir", bdir, "--property", cid,
                        "--known", known, "--tmp", tmp, "--no-shrink"], 400, cwd=tmp)
            if "VIOLATION " in o:
                m = re.search(r"FAILED.*\n.*", o)
                return "%s %s: %s" % (cid, c, (m.group(0) if m else "")[:300])
            if rc not in (0, 1):
                return cid + " NOANSWER %d %s" % (rc, o[-200:])
        return None


LOCK = threading.Lock()


def main():
    a = sys.argv[1:]
    out = open(a.pop(0), "a")
    jobs, scale, maxn, hs = 4, 0.25, 0, []
    while a:
        x = a.pop(0)
        if x == "-j":
            jobs = int(a.pop(0))
        elif x == "-s":
            scale = float(a.pop(0))
        elif x == "-n":
            maxn = int(a.pop(0))
        else:
            hs.append(x)
    done = set()
    for line in open(out.name):
        d = json.loads(line)
        done.add((d["file"], d["line"], d["new"]))
    todo = []
    for h in hs:
        text = open(os.path.join("/repo", h)).read()
        ms = [(h, i, new, text.split("\n")[i]) for i, new in mutants(text)]
        if maxn and len(ms) > maxn:
            ms = random.Random(1).sample(ms, maxn)
        todo += [m for m in ms if (m[0], m[1] + 1, m[2].strip()) not in done]
    print("%d mutants" % len(todo), flush=True)
    q = queue.Queue()
    for m in todo:
        q.put(m)
    base = tempfile.mkdtemp(prefix="mutate.")
    try:
        ws = [Worker(n, base, q, out, scale) for n in range(jobs)]
        for w in ws:
            w.start()
        for w in ws:
            w.join()
    finally:
        shutil.rmtree(base)


if __name__ == "__main__":
    main()
