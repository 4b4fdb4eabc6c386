#!/usr/bin/env python3
"""mkseed.py SPEC.py [ID...]: build seeded/<id> from the bug() calls of SPEC.py and verify each in a scratch
copy of /repo under /tmp: applies, builds, passes the stable tests, demo 0 without and nonzero with it."""
import json, os, subprocess, sys, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = "/tmp/nobs-scratch"
DEMO = '''#!/bin/bash
# Run in /repo. Exit 0: property holds in this demonstration.
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
O=$(mktemp /tmp/demo-overlay.XXXXXX) || exit 3
echo "{{\\"Replace\\":{{\\"$PWD/{pkg}/zz_demo_test.go\\":\\"$D/demo_test.go.txt\\"}}}}" > "$O"
cd "{cwd}" && {env}go test -vet=off -count=1 -timeout 250s {args}-overlay "$O" -run '^TestDemo$' ./{rel}
R=$?
rm -f "$O"
exit $R
'''
def run(cmd, cwd=None, timeout=600):
    return subprocess.run(["bash", "-c", cmd], cwd=cwd, capture_output=True, text=True, timeout=timeout)
bugs = []
def bug(id, prop, needs, breaks, edits, pkg, demo, args="", env="", raw=None, files={}):
    bugs.append(dict(files=files, id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, pkg=pkg, demo=demo, args=args, env=env, raw=raw))
import fcntl
lock = open("/tmp/mkseed.lock", "w"); fcntl.flock(lock, fcntl.LOCK_EX)
spec = sys.argv[1]
exec(compile(open(spec).read(), spec, "exec"))
want = sys.argv[2:]
# scratch copies of the original file set: test runs happen against a bind of /repo paths, so use /repo itself
# only for the stable tests (test.sh is fixed to /repo); everything else in the scratch copy.
if os.path.exists(SC): shutil.rmtree(SC)
run(f"cp -a /repo {SC}")
for b in bugs:
    if want and b["id"] not in want: continue
    d = os.path.join(ROOT, "seeded", b["id"])
    run(f"git checkout -q -- . && git clean -fdq", SC)
    ok = True
    for f, old, new in b["edits"]:
        p = os.path.join(SC, f); s = open(p).read()
        if s.count(old) != 1:
            print(b["id"], "EDIT MATCHES", s.count(old), "times:", f, repr(old)[:80]); ok = False; break
        open(p, "w").write(s.replace(old, new))
    if not ok: continue
    diff = run("git diff", SC).stdout
    run("git checkout -q -- .", SC)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    if b["raw"]:
        open(d + "/demo.sh", "w").write(b["raw"])
    else:
        mk = b["pkg"].startswith("kem/mkem")
        cwd = "$PWD/kem/mkem" if mk else "$PWD"
        rel = b["pkg"][len("kem/mkem"):].lstrip("/") if mk else b["pkg"]
        open(d + "/demo.sh", "w").write(DEMO.format(pkg=b["pkg"], cwd=cwd, rel=rel, args=b["args"] + " " if b["args"] else "", env=b["env"] + " " if b["env"] else ""))
        open(d + "/demo_test.go.txt", "w").write(b["demo"])
    for fn, txt in b["files"].items():
        open(d + "/" + fn, "w").write(txt)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
    res = []
    def inrepo(cmd):
        return run(cmd, "/repo")
    r0 = inrepo(f"bash {d}/demo.sh")
    if r0.returncode: res.append("DEMO FAILS ON CLEAN: " + (r0.stdout + r0.stderr)[-600:])
    a = inrepo(f"git apply {d}/patch.diff")
    try:
        if a.returncode: res.append("APPLY " + a.stderr)
        else:
            bl = inrepo("bash /opt/vp/build.sh")
            if bl.returncode: res.append("BUILD " + bl.stderr[-400:])
            r1 = inrepo(f"bash {d}/demo.sh")
            if r1.returncode == 0: res.append("DEMO PASSES WITH BUG")
            elif "FAIL" not in r1.stdout + r1.stderr and not b["raw"]: res.append("odd: " + (r1.stdout + r1.stderr)[-300:])
            if "build failed" in r1.stdout or "setup failed" in r1.stdout: res.append("DEMO BUILD " + r1.stdout[-500:] + r1.stderr[-500:])
            inrepo("bash /opt/vp/test.sh /tmp/seed-test.json")
            got = json.load(open("/tmp/seed-test.json")); base = json.load(open("/opt/vp/BASELINE.json"))
            def passed(x): return set(x.get("passed") or x.get("stable") or [])
            miss = passed(base) - passed(got)
            if not passed(base): res.append("baseline format? " + str(list(base))[:200])
            if miss: res.append("TESTS FAIL: " + ", ".join(sorted(miss))[:300])
            out = []
            checks = [b["prop"]] + os.environ.get("ALSO", "").split()
            for c in checks:
                r = run(f"VERIF_SEED=1 bin/check {c}", ROOT, 1000)
                v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
                out.append(f"{c}:{'caught' if r.returncode == 1 and v else 'MISSED' if r.returncode == 0 else 'rc%d' % r.returncode + r.stderr[-300:]}")
            res.append(" ".join(out))
    finally:
        inrepo("git checkout -q -- .")
    print(b["id"], "|", " | ".join(res), flush=True)
run(f"rm -rf {SC}")
