#!/usr/bin/env python3
"""mk.py ID...|all: writes seeded/<id>/ from bugs/<id>.py after confirming it in scratch copies:
applies, builds, passes the stable tests, removes only original lines, demo 0 unpatched and non-zero patched."""
import sys, os, subprocess, json, shutil, tempfile
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(os.path.dirname(here))
env = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOFLAGS="-mod=mod -buildvcs=false", GOPROXY="off", GOTOOLCHAIN="local")
stable = {s.rsplit("/", 1)[1] for s in json.load(open("/opt/vp/BASELINE.json"))["stable"]}
def sh(cmd, cwd, **k): return subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, **k)
new = {x[:7] for x in sh("git rev-list d7c02ab..", "/repo").stdout.split()}
def make(id):
    b = {}; exec(open(os.path.join(here, "bugs", id + ".py")).read(), b)
    tmp = tempfile.mkdtemp(prefix="seed")
    try:
        c = tmp + "/c"; sh("cp -a /repo %s" % c, "/")
        for f, old, neu in b["edits"]:
            p = os.path.join(c, f); s = open(p).read()
            if old is None: assert not s.endswith("\n\n"); s += neu
            else:
                if s.count(old) != 1: return "%s: %d matches of %r" % (id, s.count(old), old[:60])
                s = s.replace(old, neu)
            open(p, "w").write(s)
        sh("git add -N .", c)
        diff = sh("git diff", c).stdout
        removed = 0
        for f in {e[0] for e in b["edits"]}:
            blame = sh("git blame -s HEAD -- " + f, c).stdout.splitlines()
            ln = 0
            for l in sh("git diff -U0 -- " + f, c).stdout.splitlines():
                if l.startswith("@@"):
                    ln = int(l.split()[1].split(",")[0][1:])
                elif l.startswith("-") and not l.startswith("---"):
                    if blame[ln-1].split()[0].lstrip("^")[:7] in new: return "%s: removes a line of a fix: %s" % (id, l)
                    removed += 1; ln += 1
        if not removed: return id + ": changes no original line"
        r = sh("go build ./...", c)
        if r.returncode: return id + ": build: " + r.stderr[:800]
        r = sh("go test -json -vet=off -count=1 ./...", c)
        passed = {json.loads(l)["Test"] for l in r.stdout.splitlines() if '"Action":"pass"' in l and '"Test"' in l}
        if stable - passed: return id + ": fails tests " + str(stable - passed)
        d = os.path.join(root, "seeded", id); os.makedirs(d, exist_ok=True)
        for f in os.listdir(d): os.remove(os.path.join(d, f))
        open(d + "/patch.diff", "w").write(diff)
        shutil.copy(here + "/lib.go", d); open(d + "/demo.go", "w").write(b["demo"])
        for extra, text in b.get("files", {}).items(): open(d + "/" + extra, "w").write(text)
        shutil.copy(here + "/demo.sh", d); os.chmod(d + "/demo.sh", 0o755)
        json.dump({k: b[k] for k in ("property", "needs", "what_it_breaks")}, open(d + "/meta.json", "w"), indent=1)
        bad = sh("bash %s/demo.sh" % d, c, timeout=300)
        sh("git checkout -q -- . && git reset -q", c)
        good = sh("bash %s/demo.sh" % d, c, timeout=300)
        if good.returncode or not bad.returncode:
            return "%s: DEMO good=%d bad=%d\n%s%s\n--\n%s%s" % (id, good.returncode, bad.returncode, good.stdout[-1500:], good.stderr[-1500:], bad.stdout[-600:], bad.stderr[-600:])
        return id + ": ok (" + bad.stdout.strip()[-80:] + ")"
    finally: shutil.rmtree(tmp)
ids = sys.argv[1:]
if ids == ["all"]: ids = sorted(f[:-3] for f in os.listdir(here + "/bugs") if f.endswith(".py"))
for i in ids: print(make(i), flush=True)
