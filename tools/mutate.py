#!/usr/bin/env python3
"""Development tool: applies small source edits to scratch copies of /repo and
reports whether the named check notices. Usage: mutate.py FILE [filter]
FILE defines M = [(prop, path, old, new[, expect])]; expect is 1 (default) for a
violation, 0 for an edit that keeps the behaviour."""
import os, queue, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
ns = {}
exec(open(sys.argv[1]).read(), ns)
flt = sys.argv[2].split(",") if len(sys.argv) > 2 else []
WORKERS = int(os.environ.get("WORKERS", "6"))
d = tempfile.mkdtemp(prefix="mut.")
base = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod")
base["PATH"] = "/opt/veriftools/go1.25.14/bin:" + base["PATH"]
vf = d + "/vfcheck"
shutil.copy(os.environ.get("VF", "/verif/bin/vfcheck"), vf)
slots = queue.Queue()
for i in range(WORKERS):
    s = "%s/%d" % (d, i)
    os.makedirs(s + "/v")
    subprocess.run(["cp", "-a", "/repo", s + "/repo"], check=True)
    shutil.copy("/verif/known-findings.txt", s + "/v/")
    slots.put(s)

def one(t):
    n, m = t
    prop, edits = m[0], m[1]
    if isinstance(edits, str):
        edits, rest = [(m[1], m[2], m[3])], m[4:]
    else:
        rest = m[2:]
    expect = rest[0] if rest else 1
    sl = slots.get()
    repo = sl + "/repo"
    env = dict(base, VERIF_REPO=repo)
    saved, out = {}, []
    try:
        for path, old, new in edits:
            p = repo + "/" + path
            s = open(p).read()
            saved.setdefault(p, s)
            if s.count(old) < 1:
                return ["%d %s %s PATTERN NOT FOUND %r" % (n, prop, path, old[:60])]
            open(p, "w").write(s.replace(old, new, 1))
        b = subprocess.run(["go", "build", "./..."], cwd=repo, env=env, capture_output=True, text=True)
        if b.returncode:
            return ["%d %s DOES NOT BUILD %s" % (n, prop, b.stderr[:300])]
        for pr in prop.split(","):
            r = subprocess.run([vf, "-prop", pr, "-verif", sl + "/v"], env=env, capture_output=True, text=True)
            tag = "ok" if r.returncode == expect else "MISSED" if expect else "FALSE ALARM"
            why = ""
            if r.returncode == 1:
                ls = [l for l in r.stdout.splitlines() if "|" in l and "instances" not in l]
                i = r.stdout.find(ls[0]) if ls else 0
                why = r.stdout[i:i+230].replace("\n", " ")
            out.append("%d %s %s %s %r -> %r %s" % (n, pr, tag, edits[0][0], edits[0][1][:50], edits[0][2][:50], why))
        return out
    finally:
        for p, s in saved.items():
            open(p, "w").write(s)
        slots.put(sl)

todo = [(n, m) for n, m in enumerate(ns["M"]) if not flt or m[0] in flt or str(n) in flt]
bad = 0
with ThreadPoolExecutor(WORKERS) as ex:
    for out in ex.map(one, todo):
        for l in out:
            bad += " MISSED " in l or " FALSE ALARM " in l
            print(l, flush=True)
shutil.rmtree(d)
print("unexpected:", bad)
