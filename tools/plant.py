#!/usr/bin/env python3
"""Development tool: confirms a planted change and runs checks against it, in a scratch copy of /repo.

plant.py new ID CRATE [FEATURES]   demo.sh from the template; patch.diff from the edits in /tmp/plant/repo
plant.py confirm ID                applies, builds, passes the stable tests, demo fails with / passes without
plant.py check ID [PROP ...]       runs quick checks on the patched copy (default: the property of meta.json)
plant.py reset                     the scratch copy as /repo is
"""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/plant"
R = S + "/repo"
def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, **k)
def reset():
    os.makedirs(S, exist_ok=True)
    if not os.path.isdir(R):
        sh("cp -a /repo " + R, check=True)
        for f in ("build.sh", "test.sh"):
            t = open("/opt/vp/" + f).read().replace("/repo", R).replace("/opt/vp/build.sh", S + "/build.sh")
            open(S + "/" + f, "w").write(t)
    sh("cd %s && git checkout -q -- . && git clean -fdq contracts packages && git fetch -q /repo && git reset -q --hard FETCH_HEAD" % R, check=True)
def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    return b
def meta(i):
    return json.load(open("%s/seeded/%s/meta.json" % (HERE, i)))
def apply(i):
    reset()
    sh("cd %s && git apply %s/seeded/%s/patch.diff" % (R, HERE, i), check=True)
cmd = sys.argv[1]
if cmd == "reset":
    reset()
elif cmd == "new":
    i, crate = sys.argv[2], sys.argv[3]
    d = "%s/seeded/%s" % (HERE, i)
    os.makedirs(d, exist_ok=True)
    p = sh("cd %s && git diff" % R, capture_output=True).stdout
    if p.strip():
        open(d + "/patch.diff", "w").write(p)
    t = open(HERE + "/tools/demo.sh.in").read().replace("@CRATE@", crate).replace("@FEATURES@", sys.argv[4] if len(sys.argv) > 4 else "")
    open(d + "/demo.sh", "w").write(t)
    os.chmod(d + "/demo.sh", 0o755)
elif cmd == "confirm":
    i = sys.argv[2]
    d = "%s/seeded/%s" % (HERE, i)
    reset()
    a = sh("cd %s && bash %s/build.sh > %s/build.log 2>&1 && bash %s/demo.sh" % (R, S, S, d), capture_output=True)
    if a.returncode != 0:
        print(i, "BAD: the demonstration fails without the change\n", a.stdout[-3000:], a.stderr[-500:]); sys.exit(1)
    apply(i)
    b = sh("cd %s && bash %s/test.sh %s/out.json > %s/test.log 2>&1" % (R, S, S, S))
    log = open(R + "/target/vp-test.log").read() if os.path.exists(R + "/target/vp-test.log") else ""
    failed = [l for l in log.splitlines() if l.startswith("test ") and l.endswith("FAILED")]
    passed = [l for l in log.splitlines() if l.startswith("test ") and (l.endswith("... ok"))]
    if failed or len(passed) < 300:
        print(i, "BAD: tests", len(passed), failed[:10], open(S + "/test.log").read()[-1500:] if len(passed) < 300 else ""); sys.exit(1)
    a = sh("cd %s && bash %s/build.sh > %s/build.log 2>&1; bash %s/demo.sh" % (R, S, S, d), capture_output=True)
    if a.returncode == 0:
        print(i, "BAD: the demonstration passes with the change\n", a.stdout[-2000:]); sys.exit(1)
    if "could not compile" in a.stdout:
        print(i, "BAD: does not compile\n", a.stdout[-2000:]); sys.exit(1)
    print(i, "confirmed; tests ok:", len(passed)); print("\n".join([l for l in a.stdout.splitlines() if "panicked" in l or "assert" in l or "left" in l or "right" in l][:6]))
elif cmd == "check":
    i = sys.argv[2]
    props = sys.argv[3:] or [meta(i)["property"]]
    apply(i)
    e = dict(os.environ, MC_REPO=R, MC_BUILD=S + "/build", MC_EVIDENCE=S + "/evidence")
    if not os.path.isdir(S + "/build"):
        sh("cp -a %s/.build %s/build" % (HERE, S), check=True)
    for p in props:
        q = sh("python3 %s/run.py check %s quick" % (HERE, p), env=e, capture_output=True)
        out = [l[:400] for l in q.stdout.splitlines() if "violat" in l.lower() or l.startswith("OK")]
        print(i, p, {0: "QUIET", 1: "CAUGHT"}.get(q.returncode, "NO ANSWER %d" % q.returncode)); print("   ", "\n    ".join(out[:4])); 
        if q.returncode not in (0, 1): print(q.stderr[-1500:])
