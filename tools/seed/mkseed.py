#!/usr/bin/env python3
"""mkseed.py [ID ...]: make /verif/seeded/<id> from the entries in seeds/*.py.
Each entry file sets: property, needs, breaks, edits = [(file, old, new)...],
demo (text of demo.py). Confirms in a scratch copy that the change builds,
passes the tests, and that the demonstration tells the two apart."""
import glob, json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.dirname(os.path.dirname(here))
os.environ["PATH"] = "/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"]

def sh(cmd, cwd, quiet=True, timeout=300):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")

def one(f):
    sid = os.path.basename(f)[:-3]
    ns = {}
    exec(open(f).read(), ns)
    out = os.path.join(verif, "seeded", sid)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    shutil.copy(os.path.join(here, "demolib.py"), out)
    shutil.copy(os.path.join(here, "demo.sh"), out)
    shutil.copytree(os.path.join(verif, "smtpd"), os.path.join(out, "smtpd"))
    open(os.path.join(out, "demo.py"), "w").write(ns["demo"].lstrip("\n"))
    json.dump({"property": ns["property"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    tmp = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        sh("cp -a /repo/. %s/" % tmp, "/")
        for fn, old, new in ns["edits"]:
            p = os.path.join(tmp, fn)
            s = open(p).read()
            if s.count(old) != 1:
                return sid, "edit matches %d times: %r" % (s.count(old), old[:60])
            open(p, "w").write(s.replace(old, new))
        rc, o = sh("gofmt -l .; go vet . 2>&1 | grep -v smtpd | head -5", tmp)
        rc, diff = sh("git diff", tmp)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        blame = [l for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        rc, o = sh("git apply --check %s" % os.path.join(out, "patch.diff"), "/repo")
        if rc: return sid, "does not apply: " + o
        demo = "bash %s/demo.sh" % out
        rc, o1 = sh(demo, "/repo")
        if rc != 0: return sid, "demo fails on the unchanged tree: " + o1[-600:]
        rc, o2 = sh(demo, tmp)
        if rc == 0: return sid, "demo passes with the change"
        return sid, "ok: " + o2.strip().splitlines()[-1][:150]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

want = sys.argv[1:]
for f in sorted(glob.glob(os.path.join(here, "seeds", "*.py"))):
    if want and os.path.basename(f)[:-3] not in want:
        continue
    print(*one(f), sep=": ", flush=True)
