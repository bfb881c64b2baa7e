"""Runs the jobs that decide one property, aggregates what they covered, writes the evidence file."""
import os, sys, json, subprocess, time, threading, concurrent.futures, importlib, pkgutil, hashlib, shutil, resource, signal
import vbuild as vb

VERIF = vb.VERIF
OUT = os.path.join(VERIF, "out")
PROPS = {}


class Job:
    """One exhaustive exploration. build() returns an executable; it is run with args.
    kind 'mc': controlled executions of the implementation; 'enum': an executable that enumerates by itself and prints
    'STATS {json}' (states, transitions, cases, sample) and, for each violation, 'VIOLATION: text'."""

    def __init__(self, name, build, kind="mc", env=None, quick=(), thorough=None, qlimit=20, tlimit=240, mem_mb=6000, tiers=("quick", "thorough"), cost=1):
        self.name, self.build, self.kind, self.env = name, build, kind, dict(env or {})
        self.quick, self.thorough = list(quick), list(thorough if thorough is not None else quick)
        self.qlimit, self.tlimit, self.mem_mb, self.tiers, self.cost = qlimit, tlimit, mem_mb, tiers, cost


def prop(pid):
    def deco(f):
        g = PROPS.get(pid)
        PROPS[pid] = (lambda tier: g(tier) + f(tier)) if g else f
        return f
    return deco


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("status") == "known"]


def _limits(mem_mb):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def run_job(pid, tier, job, known):
    t0 = time.time()
    res = {"job": job.name, "kind": job.kind}
    exe = job.build()
    d = os.path.join(OUT, pid)
    os.makedirs(d, exist_ok=True)
    safe = job.name.replace("/", "_").replace(" ", "_")
    stats, replay, log = os.path.join(d, safe + ".json"), os.path.join(d, safe + ".replay"), os.path.join(d, safe + ".log")
    for p in (stats, replay):
        if os.path.exists(p):
            os.unlink(p)
    limit = job.qlimit if tier == "quick" else job.tlimit
    args = list(job.quick if tier == "quick" else job.thorough)
    env = dict(os.environ, **{k: str(v) for k, v in job.env.items()})
    mine = [k for k in known if k["property"] == pid and (not k.get("job") or k["job"] in job.name)]
    if job.kind == "mc":
        cmd = [exe] + args + ["--time-limit", str(limit), "--stats", stats, "--replay-out", replay]
        for k in mine:
            cmd += ["--known", k["match"]]
    else:
        cmd = [exe] + args
        env["TIME_LIMIT"] = str(limit)
        env["TIER"] = tier
        env["OUT_DIR"] = d
    res["cmd"] = " ".join("%s=%s" % kv for kv in job.env.items()) + " " + " ".join(cmd)
    with open(log, "w") as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=env, cwd=d, preexec_fn=_limits(job.mem_mb))
        try:
            rc = p.wait(timeout=limit + 120)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            res["error"] = "did not finish within %d s" % (limit + 120)
            return res
    res["rc"] = rc
    text = open(log, errors="replace").read()
    res["wall_s"] = round(time.time() - t0, 2)
    if job.kind == "mc":
        if rc not in (0, 1) or not os.path.exists(stats):
            res["error"] = "exploration ended with status %s: %s" % (rc, text[-600:])
            return res
        s = json.load(open(stats))
        res["stats"] = s
        res["known"] = {k["id"]: sum(v for c, v in s.get("counters", {}).items() if c.startswith("known:") and k["match"] in c) for k in mine}
        if rc == 1:
            res["violation"] = s.get("violation", "violation")
            res["replay"] = replay
            with open(replay + ".txt", "w") as f:
                f.write("property %s, job %s\n%s\n\nTo replay: %s %s --replay %s -v %s\n\n%s" % (
                    pid, job.name, res["violation"], " ".join("%s=%s" % kv for kv in job.env.items()), exe, replay,
                    " ".join(a for a in args), text[-4000:]))
    else:
        s = {}
        viol = []
        kn = {k["id"]: 0 for k in mine}
        for line in text.splitlines():
            if line.startswith("STATS "):
                s = json.loads(line[6:])
            elif line.startswith("VIOLATION: "):
                m = line[11:]
                hit = [k for k in mine if k["match"] in m]
                if hit:
                    kn[hit[0]["id"]] += 1
                else:
                    viol.append(m)
        if not viol and (rc != 0 and not (rc == 1 and sum(kn.values()))):
            if "ERROR: AddressSanitizer" in text or "runtime error:" in text or "ERROR: LeakSanitizer" in text or "MemorySanitizer" in text:
                lines = [l for l in text.splitlines() if "ERROR:" in l or "runtime error:" in l]
                viol.append(lines[0] if lines else "sanitizer error")
            elif rc == -signal.SIGABRT and "Assertion" in text:
                viol.append([l for l in text.splitlines() if "Assertion" in l][0])
            elif rc in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGFPE):
                viol.append("the code under test crashed with signal %d: %s" % (-rc, text[-200:]))
            else:
                res["error"] = "exit status %s: %s" % (rc, text[-600:])
                return res
        if not viol and not s:
            res["error"] = "no statistics: %s" % text[-400:]
            return res
        res["stats"], res["known"] = s, kn
        if viol:
            res["violation"] = viol[0]
            res["replay"] = replay
            with open(replay, "w") as f:
                f.write("property %s, job %s\ncommand: %s\n%s\n\n%s" % (pid, job.name, res["cmd"], "\n".join(viol[:20]), text[-6000:]))
    return res


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if pid not in PROPS:
        print("unknown property %s" % pid)
        return 2
    known = known_findings()
    jobs = [j for j in PROPS[pid](tier) if tier in j.tiers]
    jobs.sort(key=lambda j: -j.cost)
    results, errors = [], []
    stop = threading.Event()
    builds = {}

    def one(j):
        if stop.is_set():
            return None
        try:
            r = run_job(pid, tier, j, known)
        except vb.BuildError as e:
            r = {"job": j.name, "error": "build: " + str(e)}
        except Exception as e:
            r = {"job": j.name, "error": repr(e)}
        if r.get("violation"):
            stop.set()
        return r
    # executables first (each build is itself parallel), then the explorations
    seen = set()
    for j in jobs:
        if j.build not in seen:
            seen.add(j.build)
            try:
                j.build()
            except vb.BuildError as e:
                print("check %s: build failed\n%s" % (pid, str(e)[-3000:]))
                return 2
    tb = time.time()
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for r in ex.map(one, jobs):
            if r:
                results.append(r)
    viol = [r for r in results if r.get("violation")]
    errors = [r for r in results if r.get("error")]
    # evidence
    tot = {"executions": 0, "states": 0, "transitions": 0, "pruned": 0}
    samples, per_job, complete = [], [], True
    validated = 0
    for r in results:
        s = r.get("stats", {})
        tot["states"] += int(s.get("states", 0))
        tot["transitions"] += int(s.get("transitions", 0))
        tot["executions"] += int(s.get("executions", s.get("cases", 0)))
        tot["pruned"] += int(s.get("pruned", 0))
        validated += int(s.get("complete_executions", s.get("cases", 0)))
        pj = {"job": r["job"], "wall_s": r.get("wall_s")}
        if r.get("kind") == "mc":
            for k in ("bound_requested", "bound_completed", "executions", "complete_executions", "pruned", "states", "transitions", "choice_points", "distinct_outcomes", "racy_sites", "capped"):
                if k in s:
                    pj[k] = s[k]
            if s.get("capped"):
                complete = False
        else:
            pj.update({k: v for k, v in s.items() if k != "sample"})
            if s.get("capped"):
                complete = False
        per_job.append(pj)
        if len(samples) < 6:
            samples.append({"job": r["job"], "run": r.get("cmd", "")[:300], "sample": s.get("sample", "schedule of the default execution; %s choice points" % s.get("choice_points"))})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": tot["states"], "transitions": tot["transitions"], "traces_validated_against_impl": validated, "evaluations": tot["executions"],
                       "samples": samples, "exhaustive": complete and not errors, "jobs": per_job,
                       "explanation": "Every job enumerates its whole space within the stated bound, running the implementation itself on each execution; "
                                      "states counts distinct happens-before signatures or abstract states reached, transitions counts executed visible steps or calls."},
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    tmp = VERIF + "/evidence/.%s.%d" % (pid, os.getpid())
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, VERIF + "/evidence/%s.json" % pid)
    for r in results:
        if os.environ.get("VERIF_VERBOSE") or r.get("error"):
            print("  %-40s %s %s" % (r["job"], r.get("error") or "", {k: r.get("stats", {}).get(k) for k in ("bound_completed", "executions", "states", "transitions", "distinct_outcomes", "capped", "wall_s", "cases")}))
    kf = {}
    for r in results:
        for k, v in (r.get("known") or {}).items():
            kf[k] = kf.get(k, 0) + v
    for k in known:
        if kf.get(k["id"]):
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    print("check %s (%s): %d jobs, %d executions, %d states, %d transitions, build %.1f s, total %.1f s" % (
        pid, tier, len(results), tot["executions"], tot["states"], tot["transitions"], tb - t0, time.time() - t0))
    if viol:
        for r in viol[:3]:
            print("  %s: %s" % (r["job"], r["violation"]))
            print("VIOLATION property=%s replay=%s" % (pid, r["replay"]))
        return 1
    if errors:
        return 2
    vb.prune()
    return 0


def main():
    sys.path.insert(0, VERIF + "/checks")
    import glob
    for f in sorted(glob.glob(VERIF + "/checks/*.py")):
        importlib.import_module(os.path.basename(f)[:-3])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(check(pid, tier))
