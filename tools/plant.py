#!/usr/local/bin/python3
"""plant.py ID PROPERTY NEEDS BREAKS < python edit script reading/writing files under cwd (a scratch copy of /repo).
Makes /verif/seeded/ID from an edit: checks it builds, passes the stable tests, and that the demo tells it apart."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/plant"
def sh(c, cwd=None, t=1200, env=None):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, env=env)
def plant(id, prop, needs, breaks, edits, main_rs=None, demo=None, files=()):
    """edits: [(file, old, new)]"""
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    assert sh("git -C /repo status --porcelain").stdout.strip() == "", "repo dirty"
    try:
        for f, a, b in edits:
            p = os.path.join("/repo", f)
            s = open(p).read()
            assert s.count(a) == 1, (f, a, s.count(a))
            open(p, "w").write(s.replace(a, b))
        diff = sh("git -C /repo diff").stdout
    finally:
        sh("git -C /repo checkout -- .")
    open(d + "/patch.diff", "w").write(diff)
    if main_rs:
        open(d + "/main.rs", "w").write(main_rs)
        shutil.copy(V + "/tools/demo/demo.sh", d + "/demo.sh")
    elif demo:
        open(d + "/demo.sh", "w").write(demo)
    for n, t in files:
        open(d + "/" + n, "w").write(t)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
def verify(id):
    d = os.path.join(V, "seeded", id)
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    r = sh("bash %s/demo.sh" % d, cwd="/repo")
    if r.returncode != 0:
        return "demo fails on the unchanged tree: %d %s" % (r.returncode, r.stdout[-600:])
    a = sh("git -C /repo apply %s/patch.diff" % d)
    if a.returncode:
        return "patch does not apply " + a.stdout
    try:
        b = sh("bash /opt/vp/build.sh")
        if b.returncode:
            return "does not build: " + b.stdout[-1500:]
        sh("bash /opt/vp/test.sh /tmp/plant-tests.json")
        t = json.load(open("/tmp/plant-tests.json"))
        bad = [x for x in base if x not in t["passed"]]
        if bad:
            return "fails stable tests: %s" % bad[:5]
        r = sh("bash %s/demo.sh" % d, cwd="/repo")
        if r.returncode == 0 or r.returncode == 3:
            return "demo exit %d with the patch: %s" % (r.returncode, r.stdout[-400:])
        return "ok"
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")
def check(id, tier="quick"):
    d = os.path.join(V, "seeded", id)
    prop = json.load(open(d + "/meta.json"))["property"]
    a = sh("git -C /repo apply %s/patch.diff" % d)
    if a.returncode:
        return "patch does not apply"
    try:
        r = sh("python3 %s/run.py %s %s" % (V, prop, tier), t=1000)
        return "%s exit %d: %s" % (prop, r.returncode, " / ".join(r.stdout.splitlines()[:2])[:300])
    finally:
        sh("git -C /repo checkout -- .")
if __name__ == "__main__":
    for id in sys.argv[2:] or sorted(os.listdir(V + "/seeded")):
        print(id, {"verify": verify, "check": check}[sys.argv[1]](id), flush=True)
