#!/usr/bin/env python3
"""run.py OUT [-j N] [--only pat,...]: run each hand-written change of muts*.py against the check of
its property (and, with --all, against every check). A development aid."""
import argparse, glob, os, re, shutil, subprocess, threading, queue, time
ap = argparse.ArgumentParser()
ap.add_argument("out"); ap.add_argument("-j", type=int, default=3); ap.add_argument("--only", default="")
ap.add_argument("--checks", default=""); ap.add_argument("--tier", default="quick"); ap.add_argument("--shrink", default="1")
ap.add_argument("--src", default="muts*.py")
a = ap.parse_args()
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(os.path.dirname(H))
M = []
for f in sorted(glob.glob(H + "/" + a.src)):
    ns = {}; exec(open(f).read(), ns); M += ns["M"]
names = [m[1] for m in M]; assert len(names) == len(set(names)), [n for n in names if names.count(n) > 1]
if a.only: M = [m for m in M if any(re.fullmatch(p, m[1]) or p == m[0] for p in a.only.split(","))]
q = queue.Queue()
for m in M: q.put(m)
lock = threading.Lock()
def work(k):
    vd, rd = f"/tmp/hv{os.getpid()}-{k}", f"/tmp/hr{os.getpid()}-{k}"
    shutil.rmtree(vd, ignore_errors=True)
    shutil.copytree(V, vd, symlinks=True, ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
    os.makedirs(vd + "/evidence")
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        prop, name, edits = m[0], m[1], m[2]
        shutil.rmtree(rd, ignore_errors=True)
        shutil.copytree("/repo", rd, ignore=shutil.ignore_patterns(".git"))
        res = None
        for (f, o, n) in edits:
            t = open(rd + "/" + f).read()
            if t.count(o) != 1: res = f"BADEDIT {t.count(o)}x: {o[:50]!r}"; break
            open(rd + "/" + f, "w").write(t.replace(o, n))
        e = dict(os.environ, REPO_DIR=rd, VERIF_SHRINK=a.shrink)
        if res is None:
            b = subprocess.run(["bash", vd + "/lib/build.sh", vd + "/o", "plain"], env=dict(e, VERIF_DIR=vd), capture_output=True, text=True)
            if b.returncode: res = "NOBUILD " + b.stderr[-300:].replace("\n", " ")
        if res is None:
            t = subprocess.run("go test -modfile=%s/o/mod/go.mod -run 'TestAllKeywords|TestKeywordCover|TestLex|TestLexing' -count=1 . 2>&1" % vd, shell=True, cwd=rd, env=dict(e, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off"), capture_output=True, text=True)
            if t.returncode: res = "TEST"
        if res is None:
            out = []
            for c in (a.checks.split(",") if a.checks else [prop]):
                t0 = time.time()
                try:
                    r = subprocess.run(["bash", vd + "/check.sh", c, a.tier], env=e, capture_output=True, text=True, timeout=900)
                    rc = r.returncode
                except subprocess.TimeoutExpired: rc = "timeout"
                out.append(f"{c}:{'caught' if rc == 1 else 'MISSED' if rc == 0 else 'ODD%s' % rc}:{time.time()-t0:.0f}s" + ("" if rc in (0, 1) else " " + r.stderr[-200:].replace("\n", " ")))
            res = " ".join(out)
        with lock:
            open(a.out, "a").write(f"{name}\t{prop}\t{res}\n")
ts = [threading.Thread(target=work, args=(k,)) for k in range(a.j)]
[t.start() for t in ts]; [t.join() for t in ts]
for k in range(a.j):
    shutil.rmtree(f"/tmp/hv{os.getpid()}-{k}", ignore_errors=True); shutil.rmtree(f"/tmp/hr{os.getpid()}-{k}", ignore_errors=True)
