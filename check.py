#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough] [--repo DIR] [--replay FILE] [--secs N]

Builds the model checker (mc/) from /repo's current working tree and decides
one property by exhaustive enumeration within bounds. Exit 0: it held on
everything explored; exit 1 with a VIOLATION line: it is broken; else: error."""
import argparse, json, math, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
KNOWN = os.path.join(HERE, "KNOWN_FINDINGS.txt")
EVID = os.path.join(HERE, "evidence")


def known_findings(prop):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


class Job:
    def __init__(self, scn, race, shard, shards, budget):
        self.scn, self.race, self.shard, self.shards, self.budget = scn, race, shard, shards, budget
        self.report = None
        self.error = None
        self.crash = None


def parse_report(out):
    for line in out.splitlines():
        if line.startswith("MC-REPORT "):
            return json.loads(line[len("MC-REPORT "):])
    return None


def crash_of(err):
    """A crash of the harness process is a violation if it comes from the code under test."""
    m = re.findall(r"VSCHED-DEVIATIONS:([^\n]*)", err)
    if not m:
        return None
    devs = []
    for t in m[-1].split():
        a, b = t.split(":")
        devs.append([int(a), int(b)])
    i = max(err.find("panic:"), err.find("fatal error:"), err.find("SIGABRT"), err.find("SIGVTALRM"), 0)
    msg = err[i:i + 400].split("\n\n")[0]
    kind = "crash"
    if ("SIGABRT" in err or "SIGVTALRM" in err) and "panic:" not in err and "fatal error:" not in err:
        kind, msg = "hang", "an execution does not terminate: " + msg
    return {"kind": kind, "msg": msg, "devs": devs, "stack": err[i:i + 20000]}


class Runner:
    def __init__(self, prop, tier, tmp, known):
        self.prop, self.tier, self.tmp, self.known = prop, tier, tmp, known
        self.stop = threading.Event()
        self.procs = set()
        self.lock = threading.Lock()

    def env(self, job):
        e = dict(os.environ)
        e.update(GODEBUG="asyncpreemptoff=1", MC_TIER=self.tier, MC_BUDGET="%.1fs" % job.budget,
                 MC_SHARD=str(job.shard), MC_SHARDS=str(job.shards), MC_KNOWN=" ".join(self.known),
                 GORACE="halt_on_error=0 log_path=stderr", MC_TMP=self.tmp, GOTRACEBACK="all",
                 REPO=self.repo)
        return e

    def bin(self, race):
        return os.path.join(self.tmp, "mc.race" if race else "mc")

    def exec(self, args, job, timeout):
        errf = tempfile.TemporaryFile(dir=self.tmp)
        p = subprocess.Popen([self.bin(job.race)] + args, stdout=subprocess.PIPE, stderr=errf,
                             env=self.env(job), cwd=self.tmp, start_new_session=True)
        with self.lock:
            self.procs.add(p)
        hung = False
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            hung = True
            p.send_signal(signal.SIGABRT)
            try:
                out, _ = p.communicate(timeout=20)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                out, _ = p.communicate()
        finally:
            with self.lock:
                self.procs.discard(p)
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        errf.seek(0, 2)
        n = errf.tell()
        errf.seek(max(0, n - (4 << 20)))
        err = errf.read().decode("utf8", "replace")
        errf.close()
        return p.returncode, out.decode("utf8", "replace"), err, hung

    def run(self, job):
        if self.stop.is_set():
            return
        rc, out, err, hung = self.exec(["run", self.prop, job.scn["Name"]], job, job.budget + max(60, job.budget))
        job.report = parse_report(out)
        if job.report is None and not self.stop.is_set():
            job.crash = crash_of(err)
            if job.crash is None:
                job.error = "rc=%s%s: %s" % (rc, " (timeout)" if hung else "", err[-1500:])
        elif job.report and rc != 0 and not job.report["violations"]:
            job.error = "rc=%s after the report: %s" % (rc, err[-1500:])

    def confirm(self, job, v):
        """Replays the schedule in a fresh process."""
        f = os.path.join(self.tmp, "replay.json")
        json.dump(v, open(f, "w"))
        for _ in range(2):
            rc, out, err, hung = self.exec(["replay", self.prop, job.scn["Name"], f], job, 120)
            r = parse_report(out)
            if r is None:
                c = crash_of(err)
                if c or (v["kind"] in ("crash", "hang") and ("panic" in err or "fatal error" in err)):
                    return c or v
            elif r["violations"]:
                w = dict(r["violations"][0])
                if "DATA RACE" in err:
                    w["race_report"] = err[err.rfind("WARNING: DATA RACE"):][:8000]
                for k in ("case", "devs"):
                    if v.get(k) is not None:
                        w[k] = v[k]
                return w
        return None

    def kill(self):
        self.stop.set()
        with self.lock:
            for p in list(self.procs):
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass


def build(tmp, race, repo):
    env = dict(os.environ, REPO=repo)
    return subprocess.Popen([os.path.join(HERE, "mc", "build.sh"), tmp] + (["race"] if race else []),
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--secs", type=float)
    ap.add_argument("--only")
    ap.add_argument("--replay")
    a = ap.parse_args()
    t0 = time.time()
    tier = "thorough" if a.tier == "thorough" else "quick"
    cores = min(8, os.cpu_count() or 8)
    secs = a.secs or (40 if tier == "quick" else 600)
    tmp = tempfile.mkdtemp(prefix="mc-%s-" % a.prop)
    try:
        return check(a, tier, cores, secs, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(a, tier, cores, secs, tmp, t0):
    prop = a.prop
    known = known_findings(prop)
    p = build(tmp, False, a.repo)
    out, _ = p.communicate()
    if p.returncode != 0:
        print("build failed:\n" + out.decode("utf8", "replace")[-6000:])
        return 2
    r = Runner(prop, tier, tmp, known)
    r.repo = a.repo
    lst = json.loads(subprocess.check_output([r.bin(False), "list"], env=dict(os.environ, GODEBUG="asyncpreemptoff=1"), stderr=subprocess.DEVNULL))
    scns = [s for s in lst if s["Prop"] == prop and (not a.only or s["Name"] == a.only)]
    if not scns:
        print("no scenarios for", prop)
        return 2
    need_race = any(not s["Seq"] and not s["NoRace"] for s in scns)
    racep = build(tmp, True, a.repo) if need_race else None
    if a.replay:
        if racep:
            racep.communicate()
        rp = json.load(open(a.replay))
        s = [x for x in scns if x["Name"] == rp["scenario"]][0]
        v = r.confirm(Job(s, rp.get("race", False), 0, 1, 60), rp["violation"])
        print(json.dumps(v, indent=1) if v else "not reproduced")
        return 1 if v else 0

    # distribute the time over the scenarios
    total = secs * cores
    race_share = 0.25 if need_race else 0.0
    jobs, rjobs = [], []
    sw = sum(s["Weight"] for s in scns if not s["RaceOnly"]) or 1
    for s in scns:
        if s["RaceOnly"]:
            continue
        b = total * (1 - race_share) * s["Weight"] / sw
        if s["Seq"]:
            jobs.append(Job(s, False, 0, 1, min(b, secs)))
            continue
        n = max(1, min(cores, math.ceil(b / (secs * 0.75))))
        for k in range(n):
            jobs.append(Job(s, False, k, n, min(secs, b / n)))
    rs = [s for s in scns if not s["Seq"] and not s["NoRace"]]
    rw = sum(s["Weight"] for s in rs) or 1
    for s in rs:
        b = total * race_share * s["Weight"] / rw
        n = max(1, min(cores, math.ceil(b / (secs * 0.75))))
        for k in range(n):
            rjobs.append(Job(s, True, k, n, min(secs, max(1.0, b / n))))
    jobs.sort(key=lambda j: -j.budget)
    rjobs.sort(key=lambda j: -j.budget)
    alljobs = jobs + rjobs
    queue = list(jobs)
    found = []
    unconfirmed = []
    build_err = []
    qlock = threading.Lock()
    state = {"race_ready": racep is None, "pending": list(rjobs)}

    def race_wait():
        out, _ = racep.communicate()
        with qlock:
            if racep.returncode != 0:
                build_err.append(out.decode("utf8", "replace")[-3000:])
                state["pending"] = []
            queue.extend(state["pending"])
            state["pending"] = []
            state["race_ready"] = True

    rt = None
    if racep:
        rt = threading.Thread(target=race_wait)
        rt.start()

    def worker():
        while not r.stop.is_set():
            with qlock:
                j = queue.pop(0) if queue else None
                ready = state["race_ready"]
            if j is None:
                if ready:
                    return
                time.sleep(0.1)
                continue
            r.run(j)
            vs = []
            if j.crash:
                vs.append(j.crash)
            if j.report:
                vs += [v for v in (j.report["violations"] or []) if not (v.get("key") and v["key"] in known)]
            for v in vs:
                if r.stop.is_set():
                    return
                w = r.confirm(j, v)
                if r.stop.is_set():
                    return
                with qlock:
                    if w:
                        found.append((j, w))
                        r.stop.set()
                    else:
                        unconfirmed.append({"scenario": j.scn["Name"], "race": j.race, "violation": v})
                if w:
                    r.kill()
                    return

    ths = [threading.Thread(target=worker) for _ in range(cores)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    if rt:
        if found and racep.poll() is None:
            racep.kill()
        rt.join()

    # evidence
    os.makedirs(EVID, exist_ok=True)
    per, samples = {}, []
    states = trans = execs = evals = 0
    exhaustive = True
    known_hit = {}
    errors = []
    for j in alljobs:
        if j.error:
            errors.append("%s race=%s: %s" % (j.scn["Name"], j.race, j.error))
        if not j.report:
            exhaustive = False
            continue
        q = j.report
        d = per.setdefault(j.scn["Name"] + (" (race detector)" if j.race else ""),
                           {"executions": 0, "states": 0, "scheduling_steps": 0, "deviation_bound_completed": None, "complete": True,
                            "choice_points": 0, "max_goroutines": 0, "distinct_outcomes": 0, "diverged": 0, "wall_s": 0})
        d["executions"] += q["executions"]
        d["states"] += q["states"]
        d["scheduling_steps"] += q["steps"]
        d["choice_points"] += q["choice_points"]
        d["max_goroutines"] = max(d["max_goroutines"], q["max_goroutines"])
        d["distinct_outcomes"] = max(d["distinct_outcomes"], q["distinct_outcomes"], q["distinct"])
        d["diverged"] += q["diverged"]
        d["wall_s"] = round(d["wall_s"] + q["wall_s"], 2)
        d["complete"] = d["complete"] and q["full"]
        if not q["seq"]:
            b = q["bound_completed"]
            d["deviation_bound_completed"] = b if d["deviation_bound_completed"] is None else min(b, d["deviation_bound_completed"])
        exhaustive = exhaustive and q["full"]
        states += q["states"]
        trans += q["steps"]
        execs += q["executions"]
        if q["samples"] and j.shard == 0 and not j.race and len(samples) < 12:
            samples.append({"scenario": j.scn["Name"], "case": q["samples"][0]})
        for v in q["violations"] or []:
            if v.get("key") in known:
                known_hit[v["key"]] = v["msg"]
    cov = {"states": states, "transitions": trans, "traces_validated_against_impl": execs, "samples": samples or ["none"],
           "exhaustive": exhaustive and not found and not errors,
           "rule": "states: distinct happens-before fingerprints at choice points of the implementation (or distinct model states of a sequential enumeration); transitions: scheduling steps executed; traces: executions of the real code, every one of which is checked against the oracle",
           "scenarios": per}
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": "model_checking",
          "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": len(found),
          "assumptions": ["scheduling points: synchronisation operations, channel operations and atomics of the repository and of aperturerobotics/util; data races between them are covered by the race-detector executions",
                          "fake time: timers fire in order when every goroutine is blocked, or as an explored alternative",
                          "the enumeration is bounded by the scenarios and by the deviation bound given per scenario"]}
    if unconfirmed:
        ev["coverage"]["unconfirmed"] = unconfirmed
    if errors:
        ev["coverage"]["errors"] = errors[:20]
    if build_err:
        ev["coverage"]["race_build_error"] = build_err[0]
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)

    for k, msg in sorted(known.items()):
        if k in known_hit:
            print("KNOWN-FINDING: property=%s %s (%s)" % (prop, k, msg))
    print("%s: %d executions, %d states, %d transitions, %d scenarios, exhaustive=%s, %.1fs" % (prop, execs, states, trans, len(per), cov["exhaustive"], time.time() - t0))
    if unconfirmed:
        print("%s: %d reports could not be reproduced (see the evidence file)" % (prop, len(unconfirmed)))
    if found:
        j, v = found[0]
        path = os.path.join(EVID, "replay-%s-%s.json" % (prop, j.scn["Name"]))
        json.dump({"property": prop, "scenario": j.scn["Name"], "race": j.race, "violation": v,
                   "how": "python3 check.py %s --replay %s" % (prop, path)}, open(path, "w"), indent=1)
        print("scenario %s%s: %s: %s" % (j.scn["Name"], " (race detector)" if j.race else "", v.get("kind", "case"), v.get("msg")))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors or build_err:
        for e in (build_err + errors)[:5]:
            print("ERROR", e[-2500:])
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
