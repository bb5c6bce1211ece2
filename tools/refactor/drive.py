#!/usr/bin/env python3
"""drive.py [-p PROP] [-j N] [-o OUT] T[:inner][:n/k] ... : applies each rewrite to a copy of
/repo, drops the places where the result does not build, runs the tests and all checks."""
import sys, os, re, subprocess, shutil, tempfile, queue, json
from concurrent.futures import ThreadPoolExecutor
ALL = "swapif elsenest unelse contif rangeidx rangechan rettemp condtemp wrapfn wrapany extractif extractloop extractcond typeif switchif ifswitch flipcmp demorgan selectrev deferfn gofn gomethod complit retlit argtemp splitand splitor initout vardecl forwhile fieldtemp tailfn".split()
args = sys.argv[1:]
prop, j, keepdir = "all", 6, None
specs = []
while args:
    a = args.pop(0)
    if a == "-p": prop = args.pop(0)
    elif a == "-j": j = int(args.pop(0))
    elif a == "-keep": keepdir = args.pop(0)
    elif a == "all": specs += ALL + [t + ":inner" for t in ("swapif","elsenest","unelse","extractif","extractcond","typeif","switchif","demorgan","splitand","splitor","initout")]
    else: specs.append(a)
vf = os.environ.get("VF", "/verif/bin/vfcheck")
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off")
env["PATH"] = "/opt/veriftools/go1.25.14/bin:" + env["PATH"]
top = tempfile.mkdtemp(prefix="refac.")
def one(spec):
    parts = spec.split(":")
    t = parts[0]; opts = []
    only = None
    for p in parts[1:]:
        if p == "inner": opts.append("-inner")
        elif p.startswith("only="): opts += ["-only", p[5:].replace("@", ":")]
        else:
            n, k = p.split("/"); opts += ["-n", n, "-k", k]
    d = os.path.join(top, re.sub(r"\W", "_", spec)[:60])
    skips = []
    for turn in range(12):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + "/v")
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        shutil.copy("/verif/known-findings.txt", d + "/v/")
        r = subprocess.run(["/tmp/refactor", "-t", t] + opts + ["-skip", ",".join(skips), d + "/repo"], env=env, capture_output=True, text=True)
        if r.returncode: return spec + " TOOL " + r.stderr[:400]
        edits = [l.split() for l in r.stdout.splitlines() if l.startswith("EDIT")]
        b = subprocess.run(["go", "build", "-gcflags=-e", "./..."], cwd=d + "/repo", env=env, capture_output=True, text=True)
        if b.returncode == 0: break
        bad = set()
        for m in re.finditer(r"^(?:\./)?([\w/]+\.go):(\d+)", b.stderr, re.M):
            f, l = m.group(1), int(m.group(2))
            for e in edits:
                if e[1] == f and int(e[2]) - 1 <= l <= int(e[3]): bad.add(e[4])
        if not bad: return spec + " UNBUILDABLE " + b.stderr[:600]
        skips += bad
    else:
        return spec + " UNBUILDABLE"
    n = len({e[4] for e in edits})
    if n == 0: return spec + " nothing to do"
    note = ""
    if prop == "all":
        tr = subprocess.run(["go", "test", "-cpu", "1", "./..."], cwd=d + "/repo", env=env, capture_output=True, text=True)
        if tr.returncode: note = " TESTS FAIL: " + " ".join(re.findall(r"--- FAIL: (\S+)", tr.stdout)[:5])
    r = subprocess.run([vf, "-prop", prop, "-verif", d + "/v"], env=dict(env, VERIF_REPO=d + "/repo"), capture_output=True, text=True)
    out = "%s: %d places, %d skipped%s" % (spec, n, len(skips), note)
    if r.returncode:
        ls = [l for l in r.stdout.splitlines() if "|" in l and "instances" not in l or "VIOLATION" in l]
        out += " ALARM\n   " + "\n   ".join(l[:300] for l in ls if "VIOLATION" not in l)
        if r.returncode != 1: out += r.stderr[-600:]
    else: out += " quiet"
    if keepdir:
        shutil.rmtree(keepdir + "/" + os.path.basename(d), ignore_errors=True)
        shutil.move(d + "/repo", keepdir + "/" + os.path.basename(d))
    shutil.rmtree(d)
    return out
with ThreadPoolExecutor(j) as ex:
    for res in ex.map(one, specs): print(res, flush=True)
shutil.rmtree(top)
