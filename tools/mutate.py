#!/usr/bin/env python3
"""mutate.py OUT WORKERS PLAN...: mutation analysis (development tool; run it as root with a private mount namespace
per worker). PLAN is FILE:SAMPLE:PKG[+PKG]:CHECK[/SUITE][,CHECK...]; a mutant of FILE that builds and passes the tests
of the packages is given to the checks. Survivors are written to OUT."""
import os, random, re, subprocess, sys, tempfile, shutil, threading, queue, time
OUT, W, plans = sys.argv[1], int(sys.argv[2]), sys.argv[3:]
GM = "/tmp/gomut"
def asm(src):
    r = []
    for m in re.finditer(r'\b(ADCQ|SBBQ|ADCXQ|ADOXQ|ADCXL)\b', src):
        new = {"ADCQ": "ADDQ", "SBBQ": "SUBQ", "ADCXQ": "ADOXQ", "ADOXQ": "ADCXQ"}.get(m.group(1))
        if new: r.append((m.start(), m.end(), new))
    return r
jobs = []
random.seed(int(os.environ.get("MSEED", "1")))
for p in plans:
    f, n, pkgs, checks = p.split(":")
    src = open("/repo/" + f).read()
    if f.endswith(".s"):
        ms = [("s", a, b, c, src.count("\n", 0, a) + 1, src[a:b] + "->" + c) for a, b, c in asm(src)]
    else:
        ms = [("g", int(l.split("\t")[0]), 0, 0, int(l.split("\t")[1]), l.split("\t")[2]) for l in subprocess.run([GM, "list", "/repo/" + f], capture_output=True, text=True).stdout.splitlines()]
    if n != "all" and int(n) < len(ms): ms = random.sample(ms, int(n))
    jobs += [(f, m, pkgs.split("+"), checks.split(",")) for m in ms]
random.shuffle(jobs)
q = queue.Queue()
for j in jobs: q.put(j)
B = tempfile.mkdtemp(prefix="mutate.", dir="/tmp")
lock = threading.Lock(); stat = {}; t0 = time.time()
def note(kind, txt=None):
    with lock:
        stat[kind] = stat.get(kind, 0) + 1
        if txt: open(OUT, "a").write(txt + "\n")
        n = sum(stat.values())
        if n % 20 == 0: print(f"[{time.time()-t0:.0f} s] {n}/{len(jobs)}", stat, flush=True)
def worker(w):
    D = f"{B}/{w}"; os.makedirs(D + "/tmp")
    subprocess.run(f"cp -a /repo {D}/repo && mkdir {D}/verif && cd /verif && git ls-files -z | grep -zv '^seeded/' | xargs -0 cp --parents -t {D}/verif && cp /tmp/gomut {D}/tmp/", shell=True, check=True)
    def ns(cmd, timeout):
        pre = f"mount --bind {D}/repo /repo && mount --bind {D}/verif /verif && mount --bind {D}/tmp /tmp && . /opt/vp/env.sh && export GOMAXPROCS=2 VERIF_PAR=2 VERIF_SEED=1 && cd /repo && "
        try:
            r = subprocess.run(["unshare", "-m", "--kill-child", "-pf", "--mount-proc", "bash", "-c", pre + cmd], capture_output=True, text=True, timeout=timeout)
            return r.returncode, r.stdout + r.stderr
        except subprocess.TimeoutExpired: return 124, "timeout"
    while True:
        try: f, m, pkgs, checks = q.get_nowait()
        except queue.Empty: return
        if os.path.exists("/tmp/mutate.stop"): return
        path = f"{D}/repo/{f}"; orig = open("/repo/" + f).read()
        if m[0] == "s": new = orig[:m[1]] + m[3] + orig[m[2]:]
        else: new = subprocess.run([GM, "make", "/repo/" + f, str(m[1])], capture_output=True, text=True).stdout
        what = f"{f}:{m[4]} {m[5]}"
        line = orig.splitlines()[m[4]-1].strip()
        open(path, "w").write(new)
        try:
            dead = False
            for p in pkgs:
                d, r = ("kem/mkem", ".") if p.startswith("kem/mkem") else (".", "./" + p)
                if p == "-": continue
                c, o = ns(f"cd {d} && go build ./... && go test -vet=off -count=1 -timeout 100s {r}", 200)
                if c: dead = True; note("tests" if "FAIL" in o or c == 124 else "build"); break
            if dead: continue
            if pkgs == ["-"]:
                c, o = ns("go build ./...", 100)
                if c: note("build"); continue
            hit = None; odd = []
            for k in checks:
                cid, _, suite = k.partition("/")
                c, o = ns((f"VERIF_SUITE={suite} " if suite else "") + f"/verif/bin/check {cid}", 1500)
                if c == 1: hit = k; break
                if c: odd.append(f"{k}={c}: {o[-200:]}")
            if hit: note("caught by " + hit.split("/")[0])
            else: note("SURVIVED", f"{what}\t{line}\t{' '.join(odd)}")
            if odd and hit: note("odd", f"ODD {what} {odd}")
        finally:
            open(path, "w").write(orig)
            subprocess.run(f"find {D}/tmp -mindepth 1 -maxdepth 1 ! -name gomut -exec rm -rf {{}} +", shell=True)
ts = [threading.Thread(target=worker, args=(w,)) for w in range(W)]
for t in ts: t.start()
for t in ts: t.join()
shutil.rmtree(B)
print("done", stat)
