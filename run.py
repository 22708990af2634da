#!/usr/bin/env python3
"""Driver of the checks.

  run.py C05 [quick|thorough]   build the harness from /repo's working tree, run it, write evidence
  run.py replay FILE            rebuild the harness FILE belongs to and run its case once
  run.py setup                  nothing needs building ahead; checks that the tools are there

Exit status: 0 held on everything explored, 1 violated (a VIOLATION line was printed), 2 the check
could not run.
"""
import glob, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks import CHECKS  # noqa: E402

REPO = os.environ.get("VP_REPO", "/repo")
T0 = time.time()

COMMON = ["-std=c++17", "-Wno-unused", "-Wno-format-security", "-D_LINUX", "-DPOSIX", "-Dstricmp=strcasecmp",
          "-D_stricmp=strcasecmp", "-D_snprintf=snprintf", "-D_vsnprintf=vsnprintf",
          "-I" + REPO, "-I" + os.path.join(REPO, "amtl"), "-I" + os.path.join(HERE, "harness")]
# The repository's own sources are built the way its users build them; only the harness side of a
# translation unit is ours.
CONFIGS = {
    "debug": ["clang++", "-O1", "-g", "-fno-exceptions", "-fwrapv", "-fno-omit-frame-pointer",
              "-fsanitize=address,alignment,null,bounds,return,unreachable,bool,integer-divide-by-zero",
              "-fno-sanitize-recover=all", "-DDEBUG", "-D_DEBUG", '-DVP_CONFIG="debug"'],
    "release": ["g++", "-O2", "-g1", "-fno-exceptions", "-DNDEBUG", "-fsanitize=address",
                '-DVP_CONFIG="release"'],
    # KE_SINGLE_THREADED, where the library has no threads to care about.
    "single": ["clang++", "-O1", "-g", "-fno-exceptions", "-fwrapv", "-fno-omit-frame-pointer",
               "-fsanitize=address,alignment,null,bounds,return,unreachable,bool,integer-divide-by-zero",
               "-fno-sanitize-recover=all", "-DDEBUG", "-D_DEBUG", "-DKE_SINGLE_THREADED",
               '-DVP_CONFIG="single"'],
    # Concurrency harnesses: every memory access is a call into engine/sched_rt.cpp, which
    # stands in for the ThreadSanitizer runtime.
    "sched-debug": ["clang++", "-O1", "-g", "-fno-exceptions", "-fsanitize=thread",
                    "-mllvm", "-tsan-distinguish-volatile=1", "-DDEBUG", "-D_DEBUG", '-DVP_CONFIG="debug"'],
    "sched-release": ["clang++", "-O2", "-g1", "-fno-exceptions", "-fsanitize=thread",
                      "-mllvm", "-tsan-distinguish-volatile=1", "-DNDEBUG",
                      '-DVP_CONFIG="release"'],
}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, timeout=600):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def prepare(cid, spec, bdir):
    """Builds what a harness needs beside itself.  Returns (ok, log)."""
    out = ""
    for c in spec.get("prepare", []):
        sub = {"{B}": bdir, "{H}": os.path.join(HERE, "harness"), "{R}": REPO}
        for k, v in sub.items():
            c = c.replace(k, v)
        rc, t = sh(["bash", "-c", c])
        out += t
        if rc:
            return False, "$ %s\n%s" % (c, out)
    return True, out


def build_one(cid, spec, config, bdir):
    """Returns (path or None, log)."""
    cc = CONFIGS[config] + ['-DVP_BUILD_DIR="%s"' % bdir, '-DVP_REPO_DIR="%s"' % REPO]
    exe = os.path.join(bdir, "%s.%s" % (cid, config))
    srcs = [os.path.join(HERE, "harness", cid + ".cpp")]
    srcs += [os.path.join(REPO, f) for f in spec.get("repo_sources", [])]
    objs = []
    out = ""
    if "sched" in config:
        # Instrument, but link without the ThreadSanitizer runtime.
        for i, f in enumerate(srcs):
            o = os.path.join(bdir, "%s.%s.%d.o" % (cid, config, i))
            rc, t = sh(cc + COMMON + spec.get("flags", []) + ["-c", f, "-o", o])
            out += t
            if rc:
                return None, out
            objs.append(o)
        rt = os.path.join(bdir, "%s.%s.rt.o" % (cid, config))
        rc, t = sh(["clang++", "-std=c++17", "-O2", "-g1", "-fno-exceptions", "-c",
                    os.path.join(HERE, "engine", "sched_rt.cpp"), "-o", rt])
        out += t
        if rc:
            return None, out
        wraps = ("malloc free calloc realloc pthread_create pthread_join pthread_detach "
                 "pthread_key_create pthread_key_delete pthread_getspecific pthread_setspecific "
                 "pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock "
                 "pthread_mutex_unlock pthread_cond_init pthread_cond_destroy pthread_cond_wait "
                 "pthread_cond_timedwait pthread_cond_clockwait pthread_cond_signal "
                 "pthread_cond_broadcast pthread_once sched_yield nanosleep clock_nanosleep usleep "
                 "__cxa_guard_acquire __cxa_guard_release __cxa_guard_abort __assert_fail").split()
        # The C++ library is linked statically so that its own calls are wrapped as well.
        rc, t = sh(["clang++", "-g", "-static-libstdc++", "-static-libgcc", "-o", exe] + objs + [rt] +
                   ["-Wl," + ",".join("--wrap=" + w for w in wraps)] +
                   spec.get("libs", []) + ["-ldl", "-lpthread"])
        out += t
        return (None, out) if rc else (exe, out)
    rc, out = sh(cc + COMMON + spec.get("flags", []) + srcs + ["-o", exe] + spec.get("libs", []) +
                 ["-ldl", "-lpthread"])
    return (None, out) if rc else (exe, out)


def control_compiles(spec, config, bdir):
    """Do the headers the check is about still compile on their own?"""
    f = os.path.join(bdir, "control.cpp")
    with open(f, "w") as o:
        o.write("#include <assert.h>\n#include <stdint.h>\n#include <string.h>\n")
        for h in spec["headers"]:
            o.write("#include <%s>\n" % h)
        o.write("int main() { return 0; }\n")
    cc = [x for x in CONFIGS[config] if not x.startswith("-fsanitize") and not x.startswith("-fno-sanitize")]
    rc, _ = sh(cc + COMMON + ["-fsyntax-only", f])
    if rc:
        return False
    for s in spec.get("repo_sources", []):
        rc, _ = sh(cc + COMMON + ["-fsyntax-only", os.path.join(REPO, s)])
        if rc:
            return False
    return True


def known_findings(cid):
    ids = []
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"finding: property=(\S+) id=(\S+) ", line)
            if m and m.group(1) == cid:
                ids.append(m.group(2))
    return ids


def build_all(cid, spec, bdir):
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    configs = spec.get("configs", ["debug", "release"])
    ok, text = prepare(cid, spec, bdir)
    if not ok:
        return configs, {c: (None, text) for c in configs}
    with ThreadPoolExecutor(4) as ex:
        built = dict(zip(configs, ex.map(lambda c: build_one(cid, spec, c, bdir), configs)))
    return configs, built


def run_check(cid, tier):
    spec = CHECKS[cid]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    bdir = os.path.join(HERE, "build", cid)
    odir = os.path.join(HERE, "out")
    os.makedirs(odir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    for old in glob.glob(os.path.join(odir, cid + "-*")):
        os.unlink(old)
    configs, built = build_all(cid, spec, bdir)
    build_s = time.time() - T0
    violations = []
    broken = [c for c in configs if not built[c][0]]
    if broken:
        c = broken[0]
        rp = os.path.join(odir, "%s-compile-%s.replay" % (cid, c))
        with open(rp, "w") as f:
            f.write("property=%s\nconfig=%s\ntarget=(compile)\n---\n%s" % (cid, c, built[c][1]))
        log(built[c][1][-6000:])
        if not control_compiles(spec, c, bdir):
            log("the headers themselves do not compile: not an answer about the property")
            return 2
        # The headers are fine on their own, but documented uses of them no longer compile.
        print("FAILED property=%s config=%s: a use of the documented interface does not compile" % (cid, c))
        print("VIOLATION property=%s replay=%s" % (cid, rp))
        violations.append("compile")
        runs = []
    else:
        cpus = os.cpu_count() or 4
        workers = spec.get("workers") or max(2, cpus // len(configs))
        scale = spec.get("scale", 1.0) if tier == "quick" else spec.get("scale_thorough", 1.0)
        cap = 420 if tier == "quick" else 780 - sum(f.get("seconds", 200) + 10 for f in spec.get("fuzz", []))
        cap = max(20, cap - build_s)
        known = ",".join(known_findings(cid))
        procs = []
        for c in configs:
            js = os.path.join(bdir, c + ".json")
            tmp = os.path.join(bdir, "tmp." + c)
            os.makedirs(tmp, exist_ok=True)
            cmd = [built[c][0], "run", "--seed", str(seed), "--workers", str(workers), "--scale",
                   repr(float(scale)), "--time-cap", repr(cap), "--out", js, "--replay-dir", odir,
                   "--property", cid, "--known", known, "--tmp", tmp, "-v"]
            if tier == "thorough":
                cmd.append("--thorough")
            procs.append((c, js, subprocess.Popen(cmd, stdout=subprocess.PIPE, cwd=tmp)))
        runs = []
        failed_run = False
        seen = set()
        with ThreadPoolExecutor(4) as ex:
            outs = list(ex.map(lambda p: p[2].communicate()[0].decode(errors="replace"), procs))
        for (c, js, p), text in zip(procs, outs):
            for line in text.splitlines():
                # A finding fails the same way in both configurations: say it once.
                if line.startswith("KNOWN-FINDING") and line in seen:
                    continue
                seen.add(line)
                print(line)
                if line.startswith("VIOLATION "):
                    violations.append(line)
            if p.returncode not in (0, 1):
                log("%s run of %s ended with status %d" % (c, cid, p.returncode))
                failed_run = True
            try:
                runs.append(json.load(open(js)))
            except Exception as e:
                log("no results from the %s run: %s" % (c, e))
                failed_run = True
        if failed_run and not violations:
            return 2
        if tier == "thorough" and not violations:
            for f in spec.get("fuzz", []):
                r = fuzz(cid, spec, f, bdir, odir, seed)
                if r is None:
                    continue
                runs.append(r)
                if r["violations"]:
                    violations.append("fuzz")
    evals = 0
    best = {}  # both configurations draw the same cases: count distinct ones once
    samples, per_target = [], []
    for r in runs:
        for t in r["targets"]:
            if t.get("kind") == "finding":
                continue
            evals += t["evaluations"]
            best[t["name"]] = max(best.get(t["name"], 0), t["distinct"])
            per_target.append({"config": r["config"], "target": t["name"],
                               "evaluations": t["evaluations"], "nontrivial": t["nontrivial"],
                               "distinct_nontrivial": t["distinct"], "seconds": t.get("seconds"),
                               "reached": t["labels"]})
            for x in t["samples"][:2]:
                if len(samples) < 8 and r is runs[0] or not samples:
                    samples.append({"config": r["config"], "target": t["name"], "case": x[:1500]})
    distinct = sum(best.values())
    ev = {"property": cid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": distinct, "rule": spec["rule"],
                       "samples": samples, "targets": per_target,
                       "configurations": configs,
                       "findings": [{"config": r["config"], "id": t["name"], "still_fails": t["still_fails"]}
                                    for r in runs for t in r["targets"] if t.get("kind") == "finding"]},
          "assumptions": spec.get("assumptions", []),
          "wall_s": round(time.time() - T0, 2), "violations": len(violations)}
    with open(os.path.join(HERE, "evidence", cid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(bdir, ignore_errors=True)
    print("%s %s: %d cases, %d distinct non-trivial, %.1fs, %s" %
          (cid, tier, evals, distinct, time.time() - T0, "VIOLATED" if violations else "held"))
    if not violations and not distinct:
        log("nothing non-trivial was generated: not an answer")
        return 2
    return 1 if violations else 0


def fuzz(cid, spec, f, bdir, odir, seed):
    """Coverage-guided search of one target; a crash is turned into a choice sequence and shrunk."""
    left = 840 - (time.time() - T0)
    secs = int(min(f.get("seconds", 200), left))
    if secs < 10:
        return None
    exe = os.path.join(bdir, "fuzz")
    flags = [x for x in CONFIGS["debug"] if not x.startswith("-fsanitize")]
    srcs = [os.path.join(HERE, "harness", cid + ".cpp")]
    srcs += [os.path.join(REPO, x) for x in spec.get("repo_sources", [])]
    rc, out = sh(flags + ["-fsanitize=fuzzer,address,alignment,null,bounds,return,unreachable,bool,integer-divide-by-zero", "-DVP_LIBFUZZER"] +
                 COMMON + spec.get("flags", []) + srcs + ["-o", exe] + spec.get("libs", []) + ["-ldl", "-lpthread"])
    if rc:
        log(out[-3000:])
        return None
    corpus = os.path.join(bdir, "corpus")
    art = os.path.join(bdir, "art") + "/"
    os.makedirs(corpus, exist_ok=True)
    os.makedirs(art, exist_ok=True)
    env = dict(os.environ, VP_TARGET=f["target"])
    t = time.time()
    jobs = max(2, (os.cpu_count() or 4))
    ps = []
    for j in range(jobs):
        ps.append(subprocess.Popen([exe, corpus, "-seed=%d" % (seed * 100 + j + 1), "-max_total_time=%d" % secs,
                                    "-max_len=%d" % f.get("max_len", 4096), "-reload=1", "-timeout=30",
                                    "-rss_limit_mb=4096", "-artifact_prefix=" + art, "-print_final_stats=1"],
                                   stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, cwd=bdir))
    with ThreadPoolExecutor(jobs) as ex:
        errs = list(ex.map(lambda p: p.communicate()[1].decode(errors="replace"), ps))
    n = cov = 0
    for e in errs:
        m = re.search(r"number_of_executed_units: (\d+)", e)
        n += int(m.group(1)) if m else 0
        m = re.findall(r"cov: (\d+)", e)
        cov = max(cov, int(m[-1]) if m else 0)
    viol = 0
    dbg = os.path.join(bdir, "%s.debug" % cid)
    for a in sorted(glob.glob(art + "*"))[:3]:
        r = subprocess.run([dbg, "bytes", a, "--target", f["target"], "--property", cid, "--replay-dir", odir,
                            "--tmp", bdir], stdout=subprocess.PIPE)
        text = r.stdout.decode(errors="replace")
        print(text, end="")
        if "VIOLATION " in text:
            viol += 1
            break
    return {"config": "libfuzzer", "violations": viol,
            "targets": [{"name": f["target"], "kind": "property", "evaluations": n,
                         "nontrivial": len(os.listdir(corpus)), "distinct": len(os.listdir(corpus)),
                         "seconds": round(time.time() - t, 1), "labels": {"edges covered": cov}, "samples": []}]}


def replay(path):
    head = {}
    with open(path) as f:
        for line in f:
            if line.strip() == "---":
                break
            k, _, v = line.rstrip("\n").partition("=")
            head[k] = v
    cid = head["property"]
    spec = CHECKS[cid]
    bdir = os.path.join(HERE, "build", cid + ".replay")
    configs, built = build_all(cid, spec, bdir)
    try:
        if head.get("target") == "(compile)":
            bad = [c for c in configs if not built[c][0]]
            print("does not compile in: %s" % ", ".join(bad) if bad else "compiles")
            return 1 if bad else 0
        want = [c for c in configs if c.endswith(head["config"])][0]
        exe = built[want][0]
        if not exe:
            log(built[want][1])
            return 2
        return subprocess.run([exe, "replay", os.path.abspath(path), "--tmp", bdir], cwd=bdir).returncode
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a and a[0] == "replay":
        return replay(a[1])
    if a and a[0] == "setup":
        for t in ("clang++", "g++"):
            if not shutil.which(t):
                log("missing " + t)
                return 2
        return 0
    if not a or a[0] not in CHECKS:
        log(__doc__)
        return 2
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return run_check(a[0], tier)


if __name__ == "__main__":
    sys.exit(main())
