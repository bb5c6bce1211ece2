#!/usr/bin/env python3
"""Development tool: applies every behaviour-keeping edit of the mutants files
(expect 0) to scratch copies of /repo and runs all checks on each; every check
must stay quiet. Usage: quiet.py [workers] [prop] [files...]"""
import glob, os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
import queue
workers = int(sys.argv[1]) if len(sys.argv) > 1 else 5
prop = sys.argv[2] if len(sys.argv) > 2 else "all"
files = sys.argv[3:] or sorted(glob.glob("/verif/tools/mutants_*.py"))
vf = os.environ.get("VF", "/verif/bin/vfcheck")
todo = []
for f in files:
    for n, m in enumerate(runpy.run_path(f)["M"]):
        if isinstance(m[-1], str) or isinstance(m[-1], list) or m[-1] != 0:
            continue
        edits = [(m[1], m[2], m[3])] if isinstance(m[1], str) else m[1]
        todo.append((os.path.basename(f), n, edits))
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod")
env["PATH"] = "/opt/veriftools/go1.25.14/bin:" + env["PATH"]
slots = queue.Queue()
top = tempfile.mkdtemp(prefix="quiet.")
for i in range(workers):
    d = "%s/%d" % (top, i)
    os.makedirs(d + "/v")
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    shutil.copy("/verif/known-findings.txt", d + "/v/")
    slots.put(d)
def one(t):
    f, n, edits = t
    d = slots.get()
    saved = {}
    out = ""
    try:
        for path, old, new in edits:
            p = d + "/repo/" + path
            s = open(p).read()
            saved.setdefault(p, s)
            if old not in s:
                return "%s %d PATTERN NOT FOUND %r" % (f, n, old[:60])
            open(p, "w").write(s.replace(old, new, 1))
        b = subprocess.run(["go", "build", "./..."], cwd=d + "/repo", env=env, capture_output=True, text=True)
        if b.returncode:
            return "%s %d DOES NOT BUILD %s" % (f, n, b.stderr[:200])
        r = subprocess.run([vf, "-prop", prop, "-verif", d + "/v"], env=dict(env, VERIF_REPO=d + "/repo"), capture_output=True, text=True)
        if r.returncode:
            ls = [l for l in r.stdout.splitlines() if "|" in l and "instances" not in l or "VIOLATION" in l]
            return "%s %d ALARM %r\n   %s" % (f, n, edits[0][2][:60], "\n   ".join(l[:260] for l in ls[:8]))
        return "%s %d quiet" % (f, n)
    finally:
        for p, s in saved.items():
            open(p, "w").write(s)
        slots.put(d)
with ThreadPoolExecutor(workers) as ex:
    for res in ex.map(one, todo):
        if not res.endswith("quiet"):
            print(res, flush=True)
print("done", len(todo))
shutil.rmtree(top)
