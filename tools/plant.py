#!/usr/bin/env python3
"""Try out planted bugs: plant.py ID...  [--nocheck]

For each seeded/ID: apply its patch to a scratch copy of /repo, build everything, run the tests,
run the demonstration on the unchanged and on the changed tree, then the property's check on the
changed one.  Everything happens in a scratch folder that is removed afterwards.
"""
import json, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORIGINAL = "4fd85ab"

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def blame(patch):
    """Lines the patch removes that are not lines of the original repository."""
    bad, removed, path, n = [], 0, None, 0
    for line in open(patch):
        if line.startswith("--- "):
            path = line[6:].strip()
        elif line.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", line).group(1))
        elif line.startswith("-"):
            removed += 1
            b = sh(f"git -C /repo blame -s -L{n},{n} {ORIGINAL}.. -- {path}").stdout
            if not b.startswith("^"):
                bad.append((path, n, b.strip()))
            n += 1
        elif line.startswith(" "):
            n += 1
    return removed, bad

def try_one(name, check=True):
    d = os.path.join(VERIF, "seeded", name)
    meta = json.load(open(os.path.join(d, "meta.json")))
    prop = meta["property"]
    patch = os.path.join(d, "patch.diff")
    out = []
    removed, bad = blame(patch)
    if not removed: out.append("removes no line")
    if bad: out.append(f"touches lines that are not original: {bad}")
    work = tempfile.mkdtemp(prefix="plant.")
    try:
        tree = os.path.join(work, "repo")
        sh(f"mkdir {tree} && cd /repo && git archive HEAD | tar x -C {tree}")
        r = sh(f"git apply {patch}", cwd=tree)
        if r.returncode: return name, prop, out + ["patch: " + r.stdout]
        os.mkdir(os.path.join(work, "cm"))
        text = open("/opt/vp/amtl-build/CMakeLists.txt").read().replace("set(REPO /repo)", f"set(REPO {tree})")
        open(os.path.join(work, "cm/CMakeLists.txt"), "w").write(text)
        b = os.path.join(work, "b")
        r = sh(f"cmake -S {work}/cm -B {b} -G Ninja -DCMAKE_CXX_COMPILER=/usr/bin/g++ && ninja -C {b}")
        if r.returncode: return name, prop, out + ["build: " + r.stdout[-1500:]]
        r = sh(f"ctest --test-dir {b} -j8 --timeout 60")
        m = re.search(r"(\d+)% tests passed, (\d+) tests failed out of (\d+)", r.stdout)
        if not m or m.group(2) != "0": out.append("tests: " + r.stdout[-600:])
        demo = os.path.join(work, "demo")
        shutil.copytree(d, demo)
        for f in os.listdir(demo):
            if f.endswith((".diff", ".patch")) or f == "meta.json": os.remove(os.path.join(demo, f))
        r = sh(f"timeout 300 bash {demo}/demo.sh", cwd="/repo")
        if r.returncode: out.append(f"demo fails on the unchanged tree ({r.returncode}): {r.stdout[-1500:]}")
        r = sh(f"timeout 300 bash {demo}/demo.sh", cwd=tree)
        if r.returncode == 0: out.append("demo passes on the changed tree: " + r.stdout[-500:])
        else: print(f"  {name}: demo says: {r.stdout.strip()[-160:]}")
        if check:
            e = dict(os.environ, VP_REPO=tree, VERIF_SEED="1", VERIF_TIER="quick")
            r = sh(f"timeout 900 python3 {VERIF}/run.py {prop} quick", env=e, cwd=VERIF)
            v = re.search(rf"VIOLATION property={prop} replay=\S+", r.stdout)
            if r.returncode == 1 and v: print(f"  {name}: caught by {prop}: {r.stdout.strip().splitlines()[-1][:200]}")
            else: out.append(f"MISSED by {prop} (exit {r.returncode}) {r.stdout[-300:]}")
    finally:
        shutil.rmtree(work)
    return name, prop, out

if __name__ == "__main__":
    names = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(os.path.join(VERIF, "seeded")))
    for nm in names:
        n, p, o = try_one(nm, "--nocheck" not in sys.argv)
        print(f"{n} {p}: " + ("ok" if not o else "\n    ".join(["PROBLEMS"] + o)), flush=True)
