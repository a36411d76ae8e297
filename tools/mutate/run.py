#!/usr/bin/env python3
"""run.py OUT [-j N] [-n SAMPLE] [-f FILE]: run the checks on sampled one-change mutants of /repo.
Each line of OUT: result<TAB>mutant. A development aid."""
import argparse, os, random, shutil, subprocess, sys, threading, queue, time
ap = argparse.ArgumentParser()
ap.add_argument("out"); ap.add_argument("-j", type=int, default=3); ap.add_argument("-n", type=int, default=100)
ap.add_argument("-f", default=""); ap.add_argument("-s", type=int, default=1); ap.add_argument("--shrink", default="3")
ap.add_argument("--only", default="")
a = ap.parse_args()
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
lst = [l.rstrip("\n") for l in subprocess.run(["/tmp/mutate", "/repo"], capture_output=True, text=True).stdout.splitlines()]
if a.only:
    pick = [l for l in lst if l.split()[0] in a.only.split(",")]
else:
    pick = [l for l in lst if a.f in l.split()[1]]
    random.Random(a.s).shuffle(pick)
    pick = pick[:a.n]
done = set()
if os.path.exists(a.out):
    done = {l.split("\t", 1)[1].strip() for l in open(a.out) if "\t" in l}
ORDER = "C05 C02 C21 C20 C04 C08 C06 C03 C09 C07 C18 C15 C16 C13 C17 C11 C12 C10 C14 C19 C01".split()
FIRST = {"conncfg.go": "C16 C20", "mxresolve.go": "C07", "rdns.go": "C07 C06 C02", "rlex.go": "C11 C10", "rparse.go": "C11 C04 C10", "rnodes.go": "C04 C06 C09 C05", "rules.go": "C05 C06 C04 C09 C07 C08"}
q = queue.Queue()
for l in pick:
    if l not in done: q.put(l)
lock = threading.Lock()
env = dict(os.environ, VERIF_SHRINK=a.shrink)
def work(k):
    vd, rd = f"/tmp/mv{k}", f"/tmp/mr{k}"
    shutil.rmtree(vd, ignore_errors=True)
    shutil.copytree(V, vd, symlinks=True, ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
    os.makedirs(vd + "/evidence")
    while True:
        try: l = q.get_nowait()
        except queue.Empty: break
        shutil.rmtree(rd, ignore_errors=True)
        shutil.copytree("/repo", rd, ignore=shutil.ignore_patterns(".git"))
        f = l.split()
        subprocess.run(["/tmp/mutate", rd, f[0]], stdout=subprocess.DEVNULL)
        e = dict(env, REPO_DIR=rd)
        b = subprocess.run(["bash", vd + "/lib/build.sh", vd + "/o", "plain"], env=dict(e, VERIF_DIR=vd), capture_output=True)
        res = None
        if b.returncode: res = "nobuild"
        else:
            if subprocess.run(["cmp", "-s", vd + "/o/sinksmtp", "/tmp/mutbase"]).returncode == 0: res = "same"
        if res is None and f[1] in ("rlex.go", "rparse.go"):
            t = subprocess.run("go test -modfile=%s/o/mod/go.mod -run 'TestAllKeywords|TestKeywordCover|TestLex|TestLexing' -count=1 . 2>&1" % vd, shell=True, cwd=rd, env=dict(e, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off"), capture_output=True, text=True)
            if t.returncode: res = "test"
        if res is None:
            first = FIRST.get(f[1], "").split()
            t0 = time.time()
            for c in first + [x for x in ORDER if x not in first]:
                try:
                    r = subprocess.run(["bash", vd + "/check.sh", c, "quick"], env=e, capture_output=True, text=True, timeout=600)
                except subprocess.TimeoutExpired:
                    res = f"timeout {c}"; break
                if r.returncode == 1: res = f"caught {c} {time.time()-t0:.0f}s"; break
                if r.returncode != 0: res = f"odd {c} {r.returncode}: " + r.stderr.strip()[-200:].replace("\n", " "); break
            if res is None: res = "SURVIVED"
        with lock:
            open(a.out, "a").write(f"{res}\t{l}\n")
ts = [threading.Thread(target=work, args=(k,)) for k in range(a.j)]
[t.start() for t in ts]; [t.join() for t in ts]
for k in range(a.j):
    shutil.rmtree(f"/tmp/mv{k}", ignore_errors=True); shutil.rmtree(f"/tmp/mr{k}", ignore_errors=True)
