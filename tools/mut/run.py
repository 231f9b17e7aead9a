#!/usr/bin/env python3
"""run.py [--n PER_FILE] [--budget S] [--seed N] FILE...: applies syntactic
changes to a scratch copy of /repo and lists those no scenario of the properties
anchored in the file reports (non-race builds, short budgets). Development tool."""
import argparse, json, os, random, re, shutil, subprocess, sys, threading, time
ap = argparse.ArgumentParser()
ap.add_argument("--n", type=int, default=8)
ap.add_argument("--budget", type=float, default=8)
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--work", default="/tmp/mutw")
ap.add_argument("--only", help="comma separated mutant numbers")
ap.add_argument("--props")
ap.add_argument("files", nargs="*")
a = ap.parse_args()
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
W = a.work
os.makedirs(W, exist_ok=True)
if not os.path.exists(W + "/repo"):
    subprocess.check_call(["cp", "-a", "/repo", W + "/repo"])
subprocess.check_call(["git", "-C", W + "/repo", "fetch", "-q", "/repo", "HEAD"])
subprocess.check_call(["git", "-C", W + "/repo", "checkout", "-q", "-f", "FETCH_HEAD"])
subprocess.check_call(["go", "build", "-o", W + "/mut", V + "/tools/mut/mut.go"])
anch = {}
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    for f in p["anchors"]["files"]:
        anch.setdefault(f.split(":")[0], []).append(p["id"])
known = re.findall(r"known: property=\S+ key=(\S+)", open(V + "/KNOWN_FINDINGS.txt").read())
env = dict(os.environ, REPO=W + "/repo", GODEBUG="asyncpreemptoff=1", MC_TIER="quick", MC_BUDGET="%.1fs" % a.budget,
           MC_SHARD="0", MC_SHARDS="1", MC_KNOWN=" ".join(known), MC_TMP=W + "/t", GOTRACEBACK="all")
os.makedirs(W + "/t", exist_ok=True)
rnd = random.Random(a.seed)
files = a.files or sorted(anch)
log = open(W + "/results.jsonl", "a")

def scens(props):
    lst = json.loads(subprocess.check_output([W + "/b/mc", "list"], env=env, stderr=subprocess.DEVNULL))
    l = [s for s in lst if s["Prop"] in props and not s["RaceOnly"]]
    l.sort(key=lambda s: (props.index(s["Prop"]), -s["Weight"]))
    return l

def one(props):
    q = scens(props)
    hit, procs, lock = [], set(), threading.Lock()
    def w():
        while not hit:
            with lock:
                if not q: return
                s = q.pop(0)
            p = subprocess.Popen([W + "/b/mc", "run", s["Prop"], s["Name"]], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=W + "/t", start_new_session=True)
            with lock: procs.add(p)
            try: out, err = p.communicate(timeout=a.budget + 100)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9); p.communicate(); out, err = b"", b"timeout"
            with lock: procs.discard(p)
            rep = [json.loads(x[10:]) for x in out.decode("utf8", "replace").splitlines() if x.startswith("MC-REPORT ")]
            vs = [v for v in (rep[0]["violations"] or []) if not v.get("key") in known] if rep else None
            if (vs is None or vs) and not hit:
                hit.append((s["Prop"], s["Name"], vs[0]["msg"][:150] if vs else "no report: " + err.decode("utf8", "replace")[-150:]))
                with lock:
                    for x in procs:
                        try: os.killpg(x.pid, 9)
                        except OSError: pass
    ts = [threading.Thread(target=w) for _ in range(8)]
    [t.start() for t in ts]; [t.join() for t in ts]
    return hit[0] if hit else None

for f in files:
    src = open("/repo/" + f).read()
    ms = [l.split("\t", 1) for l in subprocess.check_output([W + "/mut", "list", "/repo/" + f], text=True).splitlines()]
    props = a.props.split(",") if a.props else anch.get(f, [])
    if not props:
        print("no property:", f); continue
    if a.only: ms = [m for m in ms if m[0] in a.only.split(",")]
    else: rnd.shuffle(ms)
    done = 0
    for no, desc in ms:
        if done >= a.n and not a.only: break
        if re.search(r"logger\(\)|\.le\.|\ble\.|Debug|WithError|WithField|Info\(|Warn", desc): continue
        dst = W + "/repo/" + f
        open(dst, "w").write(subprocess.check_output([W + "/mut", "apply", "/repo/" + f, no], text=True))
        t0 = time.time()
        try:
            b = subprocess.run([V + "/mc/build.sh", W + "/b"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if b.returncode: continue
            done += 1
            h = one(props)
        finally:
            open(dst, "w").write(src)
        r = {"file": f, "no": int(no), "desc": desc, "hit": h, "s": round(time.time() - t0, 1)}
        log.write(json.dumps(r) + "\n"); log.flush()
        print(("caught   " if h else "SURVIVED ") + f, no, desc, "%.0fs" % r["s"], h[:2] if h else "", flush=True)
