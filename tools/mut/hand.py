#!/usr/bin/env python3
"""hand.py SPEC.py [ID...]: SPEC has M = [(id, prop, file, old, new), ...]: applies
each change to a scratch copy of /repo and runs the check of prop on it; prints
whether it reported. Development tool; results go to WORK/hand.log."""
import os, re, runpy, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
W = os.environ.get("HM_WORK", "/tmp/hm")
os.makedirs(W, exist_ok=True)
R = W + "/repo"
if not os.path.exists(R):
    subprocess.check_call(["cp", "-a", "/repo", R])
subprocess.check_call(["git", "-C", R, "fetch", "-q", "/repo", "HEAD"])
subprocess.check_call(["git", "-C", R, "checkout", "-q", "-f", "FETCH_HEAD"])
if not os.path.exists(W + "/verif"):
    os.makedirs(W + "/verif")
subprocess.check_call("cp -a %s/mc %s/check.py %s/*.txt %s/*.json* %s/verif/ 2>/dev/null || true" % (V, V, V, V, W), shell=True)
secs = os.environ.get("HM_SECS", "45")
M = runpy.run_path(sys.argv[1])["M"]
for id, prop, f, old, new in M:
    if len(sys.argv) > 2 and id not in sys.argv[2:]: continue
    p = R + "/" + f
    src = open(p).read()
    if src.count(old) != 1:
        print("BADSPEC ", id, src.count(old), flush=True); continue
    open(p, "w").write(src.replace(old, new))
    t0 = time.time()
    try:
        o = subprocess.run(["go", "build", "./..."], cwd=R, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if o.returncode:
            print("NOBUILD ", id, o.stdout[-300:], flush=True); continue
        out = ""
        hit = None
        for pr in prop.split(","):
            o = subprocess.run([sys.executable, W + "/verif/check.py", pr, "--repo", R, "--secs", secs], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=W + "/verif")
            out += o.stdout
            if "VIOLATION" in o.stdout:
                hit = pr; break
        m = re.search(r"replay-(\S+)\.json", out)
        print("caught  " if hit else "MISSED  ", id, hit or prop, m.group(1) if m else "", "%.0fs" % (time.time() - t0), "" if hit else out.strip().splitlines()[-1][:150], flush=True)
    finally:
        open(p, "w").write(src)
