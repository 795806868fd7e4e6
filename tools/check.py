#!/usr/bin/env python3
"""Builds the simulator against /repo's current headers and searches schedules and faults for one property.

  check.py ID [quick|thorough]     decide a property; rewrites evidence/ID.json
  check.py --replay FILE           re-execute a recorded violation from its minimised choice tape
  check.py --setup                 build everything once
"""
import concurrent.futures as cf
import hashlib, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
BUILD = os.path.join(HERE, "build")
NCPU = os.cpu_count() or 4
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from spec import CONFIGS, PROPS, TSAN_SOURCES  # noqa: E402


def log(*a):
    print(*a, flush=True)


# ---- build ---------------------------------------------------------------------------------
def tree_hash(*roots):
    h = hashlib.sha256()
    for r in roots:
        for d, dirs, files in sorted(os.walk(r)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, r).encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()[:16]


class BuildError(Exception):
    pass


def run_cc(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode, p.stdout


def build(configs, sources, failed=None):
    """configs: names; sources: the scenario files needed. Returns {config: path of the program}.
    A tree need not compile in every language standard used here: a configuration that does not compile is left out
    and named in failed, unless none is left (or failed is None)."""
    inc = os.path.join(REPO, "include")
    key = tree_hash(inc, SIM)
    out, jobs, links = {}, [], []
    for c in configs:
        cfg = CONFIGS[c]
        srcs = list(cfg.get("base", ["rt", "sched", "vals", "streams"])) + [s for s in sources.get(c, []) ]
        tag = hashlib.sha256((key + json.dumps(cfg, sort_keys=True) + " ".join(srcs) + inc).encode()).hexdigest()[:16]
        d = os.path.join(BUILD, "%s-%s" % (c, tag))
        exe = os.path.join(d, "sim")
        out[c] = exe
        if os.path.exists(exe):
            continue
        os.makedirs(d, exist_ok=True)
        objs = []
        for s in srcs:
            o = os.path.join(d, s + ".o")
            objs.append(o)
            flags = list(cfg["flags"])
            if s in TSAN_SOURCES and "tsan_flags" in cfg:
                flags += cfg["tsan_flags"]
            jobs.append(((s in ("rt", "sched"), c), [cfg["cxx"]] + flags + ["-w", "-isystem", inc, "-c", os.path.join(SIM, s + ".cpp"), "-o", o]))
        if "tsan_flags" in cfg:   # of a function compiled in several files the linker takes the first: the instrumented one
            objs.sort(key=lambda o: os.path.basename(o)[:-2] not in TSAN_SOURCES)
        links.append(((c, exe), [cfg["cxx"]] + objs + ["-o", exe + ".tmp", "-lpthread"] + cfg.get("ldflags", [])))
    jobs.sort(key=lambda j: j[0][0])
    bad = {}
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for ((_, c), cmd), (rc, txt) in zip(jobs, ex.map(lambda j: run_cc(j[1]), jobs)):
            if rc:
                bad.setdefault(c, " ".join(cmd) + "\n" + txt[-6000:])
        links = [l for l in links if l[0][0] not in bad]
        for ((c, exe), cmd), (rc, txt) in zip(links, ex.map(lambda j: run_cc(j[1]), links)):
            if rc:
                bad.setdefault(c, " ".join(cmd) + "\n" + txt[-6000:])
            else:
                os.replace(exe + ".tmp", exe)
    if bad and (failed is None or len(bad) == len(out)):
        raise BuildError(list(bad.values())[0])
    if bad:
        failed.update(bad)
    return {c: e for c, e in out.items() if c not in bad}


def clean_old_builds(keep):
    """At most 3 GB of builds of earlier trees."""
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if os.path.isdir(os.path.join(BUILD, d))]
        ds = [d for d in ds if d not in keep]
        ds.sort(key=os.path.getmtime)
        for d in ds[:-40]:
            shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


# ---- running -------------------------------------------------------------------------------
def run_sim(exe, scenario, seed, count, outfile, opts, timeout):
    cmd = [exe, scenario, str(seed), str(count), outfile] + ["%s=%s" % kv for kv in opts.items()]
    env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LC_ALL": "C", "HOME": "/root"}
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        return -1, None, "timeout"
    try:
        d = json.load(open(outfile))
    except (OSError, ValueError):
        d = None
    return p.returncode, d, p.stderr.decode(errors="replace")[-2000:]


class Runner:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.spec = PROPS[pid]
        self.tmp = tempfile.mkdtemp(prefix="sim-%s-" % pid)
        self.known = self.load_known()
        self.cov = {"counters": {}, "runs": 0, "reruns": 0, "choices": 0, "events": 0, "simtime": 0, "per_job": []}
        self.samples, self.known_hits = [], {}
        self.sigs, self.traces = set(), set()
        self.problem = None       # (kind, job, record)

    def load_known(self):
        f = os.path.join(HERE, "known_findings.json")
        d = json.load(open(f))
        return [k for k in d["findings"] if k["property"] == self.pid]

    def base_opts(self, job, exes):
        o = dict(job.get("opts", {}))
        if self.known:
            p = os.path.join(self.tmp, "known")
            with open(p, "w") as f:
                for k in self.known:
                    f.write("%s|%s\n" % (k["cls"], k["key"]))
            o["known"] = p
        return o

    def run_job(self, ji, job, exes, secs):
        exe = exes[job["cfg"]]
        n = NCPU
        # seeds of different jobs and VERIF_SEEDs do not overlap
        seed0 = self.seed * 1000003 * 4096 + ji * 100000007 + 1
        futs = []
        with cf.ThreadPoolExecutor(n) as ex:
            for w in range(n):
                o = self.base_opts(job, exes)
                o.update({"time": "%.1f" % secs, "dup": str(job.get("dup", 40)), "stride": str(n), "sigs": os.path.join(self.tmp, "sigs%d" % w)})
                futs.append(ex.submit(run_sim, exe, job["scenario"], seed0 + w, job.get("count", 10 ** 9), os.path.join(self.tmp, "o%d.json" % w), o, secs + 400))
            res = [f.result() for f in futs]
        jr = {"config": job["cfg"], "scenario": job["scenario"], "runs": 0}
        for w, (rc, d, err) in enumerate(res):
            if d is None:
                self.problem = self.problem or ("harness", job, {"msg": "no output, rc %s: %s" % (rc, err)})
                continue
            jr["runs"] += d["runs"]
            for k in ("runs", "reruns", "choices", "events", "simtime"):
                self.cov[k] += d[k]
            for k, v in d["counters"].items():
                self.cov["counters"][k] = self.cov["counters"].get(k, 0) + v
            if w == 0 and len(self.samples) < 4:
                for s in d["samples"][:1]:
                    s["config"], s["scenario"] = job["cfg"], job["scenario"]
                    self.samples.append(s)
            for k, v in d["known"].items():
                self.known_hits[k] = self.known_hits.get(k, 0) + v
            for name, acc in (("sigs%d" % w, self.sigs), ("sigs%d.traces" % w, self.traces)):
                p = os.path.join(self.tmp, name)
                if os.path.exists(p):
                    b = open(p, "rb").read()
                    acc.update((ji if acc is self.traces else 0, b[i:i + 8]) for i in range(0, len(b), 8))
                    os.unlink(p)
            for kind in ("violation", "harness", "nondet"):
                if kind in d and (self.problem is None or (kind == "violation" and self.problem[0] != "violation")):
                    self.problem = (kind, job, d[kind])
        self.cov["per_job"].append(jr)

    def cross_process(self, ji, job, exes, count):
        """the same seeds in another process, in another order of surroundings, give the same traces"""
        exe = exes[job["cfg"]]
        seed0 = self.seed * 1000003 * 4096 + ji * 100000007 + 1
        h = []
        for k in range(2):
            f = os.path.join(self.tmp, "h%d" % k)
            o = self.base_opts(job, exes)
            o["hashes"] = f
            if k == 0:
                run_sim(exe, job["scenario"], seed0, count, os.path.join(self.tmp, "x.json"), o, 300)
                h.append(open(f).read().split("\n"))
            else:
                part = []
                for s in range(0, count, max(1, count // 2)):
                    run_sim(exe, job["scenario"], seed0 + s, max(1, count // 2), os.path.join(self.tmp, "x.json"), o, 300)
                    part += [l for l in open(f).read().split("\n") if l]
                h.append(part)
        a, b = [l for l in h[0] if l], [l for l in h[1] if l]
        n = min(len(a), len(b))
        self.cov["cross_process_reruns"] = self.cov.get("cross_process_reruns", 0) + n
        if a[:n] != b[:n]:
            i = [x == y for x, y in zip(a, b)].index(False)
            self.problem = self.problem or ("nondet", job, {"seed": int(a[i].split()[0]), "msg": "two processes disagree: %s / %s" % (a[i], b[i]), "cls": "", "key": "", "tape": []})

    # ---- violations ----
    def replay_tape(self, exe, job, seed, tape, tag="t"):
        tf, of = os.path.join(self.tmp, tag + ".tape"), os.path.join(self.tmp, tag + ".json")
        with open(tf, "w") as f:
            f.write(" ".join(map(str, tape)))
        o = dict(job.get("opts", {}))
        o["tape"] = tf
        rc, d, err = run_sim(exe, job["scenario"], seed, 1, of, o, 200)
        return d.get("violation") if d else None

    def confirm(self, exe, job, rec):
        o = dict(job.get("opts", {}))
        got = []
        for k in range(2):
            rc, d, err = run_sim(exe, job["scenario"], rec["seed"], 1, os.path.join(self.tmp, "c.json"), o, 200)
            got.append((d or {}).get("violation"))
        return all(g and g["hash"] == rec["hash"] and g["cls"] == rec["cls"] and g["key"] == rec["key"] for g in got)

    def really_nondet(self, exe, job, rec):
        """the same seed, in processes of its own each time, gives different traces"""
        hs = set()
        for k in range(40):
            f = os.path.join(self.tmp, "nd")
            o = dict(job.get("opts", {}))
            o["hashes"] = f
            run_sim(exe, job["scenario"], rec["seed"], 1, os.path.join(self.tmp, "nd.json"), o, 60)
            try:
                hs.add(open(f).read())
            except OSError:
                pass
        return len(hs) > 1

    def shrink(self, exe, job, rec, budget):
        t0 = time.time()
        best = rec
        same = lambda v: v and v["cls"] == rec["cls"] and v["key"] == rec["key"]
        v = self.replay_tape(exe, job, rec["seed"], rec["tape"])
        if not same(v):
            return rec, False

        def try_batch(cands):
            nonlocal best
            with cf.ThreadPoolExecutor(NCPU) as ex:
                for i, v in enumerate(ex.map(lambda x: self.replay_tape(exe, job, rec["seed"], x[1], "s%d" % x[0]), list(enumerate(cands)))):
                    if same(v) and (len(v["tape"]), sum(v["tape"])) < (len(best["tape"]), sum(best["tape"])):
                        best = v
                        return True
            return False

        def trim(t):
            while t and t[-1] == 0:
                t = t[:-1]
            return t
        size = max(1, len(rec["tape"]) // 2)
        while size >= 1 and time.time() - t0 < budget:
            i, progress = 0, False
            while i < len(best["tape"]) and time.time() - t0 < budget:
                cands = []
                for k in range(NCPU // 2):
                    a = i + k * size
                    t = best["tape"]
                    if a < len(t):
                        cands.append(t[:a] + t[a + size:])
                        if any(t[a:a + size]):
                            cands.append(t[:a] + [0] * len(t[a:a + size]) + t[a + size:])
                if cands and try_batch(cands):
                    progress = True
                    continue
                i += size * (NCPU // 2)
            if not progress or size > 8:
                size //= 2
        for i, x in enumerate(list(best["tape"])):
            if time.time() - t0 > budget:
                break
            t = list(best["tape"])
            if i < len(t) and t[i] > 1:
                try_batch([t[:i] + [y] + t[i + 1:] for y in (1, t[i] // 2, t[i] - 1)])
        return best, True

    def report(self, exes):
        kind, job, rec = self.problem
        exe = exes[job["cfg"]]
        log("%s in %s/%s, seed %s: [%s %s] %s" % (kind, job["scenario"], job["cfg"], rec.get("seed"), rec.get("cls"), rec.get("key"), rec.get("msg")))
        if kind == "differ":
            log(rec.get("trace", "")[-3000:])
            log("VIOLATION property=%s replay=%s" % (self.pid, self.differ_path))
            return 1
        if kind != "violation":
            if kind == "nondet" and self.spec.get("nondet_is_violation") and self.really_nondet(exe, job, rec):
                path = self.write_replay(job, rec, rec, minimised=False)
                log("VIOLATION property=%s replay=%s" % (self.pid, path))
                return 1
            if rec.get("trace"):
                log("\n".join("  " + l for l in rec["trace"][-3000:].split("\n")))
            log("the check itself failed: no verdict")
            return 2
        if not self.confirm(exe, job, rec):
            log("seed %s does not reproduce in fresh processes: no verdict" % rec["seed"])
            return 2
        best, ok = self.shrink(exe, job, rec, 40 if self.tier == "quick" else 120)
        v = self.replay_tape(exe, job, rec["seed"], best["tape"]) if ok else None
        if not (v and v["hash"] == best["hash"]):
            best = rec
        path = self.write_replay(job, rec, best, minimised=best is not rec)
        log("minimised from %d to %d choices; trace:" % (len(rec["tape"]), len(best["tape"])))
        log("\n".join("  " + l for l in best["trace"][-6000:].split("\n")))
        log("replay with: python3 tools/check.py --replay %s" % path)
        log("VIOLATION property=%s replay=%s" % (self.pid, path))
        return 1

    def write_replay(self, job, rec, best, minimised):
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s-%s.json" % (self.pid, job["cfg"], rec["seed"]))
        with open(path, "w") as f:
            json.dump({"property": self.pid, "scenario": job["scenario"], "config": job["cfg"], "opts": job.get("opts", {}), "seed": rec["seed"],
                       "cls": best["cls"], "key": best["key"], "msg": best["msg"], "hash": best.get("hash"), "tape": best.get("tape", []),
                       "trace": best.get("trace", "").split("\n"), "minimised": minimised, "original_choices": len(rec.get("tape", []))}, f, indent=1)
        return path

    def main(self):
        t0 = time.time()
        spec = self.spec
        jobs = spec["jobs"]
        if "jobs_thorough" in spec and self.tier == "thorough":
            jobs = jobs + spec["jobs_thorough"]
        cfgs = []
        for j in jobs:
            if j["cfg"] not in cfgs:
                cfgs.append(j["cfg"])
        failed = {}
        try:
            exes = build(cfgs, {c: spec["sources"] for c in cfgs}, failed)
        except BuildError as e:
            log("build failed:\n%s" % e)
            return 2
        for c, txt in failed.items():
            log("configuration %s does not compile and is left out:\n%s" % (c, txt[-1500:]))
        jobs = [j for j in jobs if j["cfg"] in exes]
        cfgs = [c for c in cfgs if c in exes]
        tb = time.time() - t0
        total = spec.get("quick_s", 40) if self.tier == "quick" else spec.get("thorough_s", 1200)
        share = sum(j.get("share", 1) for j in jobs)
        t1 = time.time()
        for ji, j in enumerate(jobs):
            self.run_job(ji, j, exes, total * j.get("share", 1) / share)
            if self.problem and self.problem[0] == "violation":
                break
        if not self.problem:
            for ji, j in enumerate(jobs):
                self.cross_process(ji, j, exes, 24 if self.tier == "quick" else 200)
        if not self.problem and spec.get("compare"):
            self.compare(jobs, exes, spec["compare"])
        ts = time.time() - t1
        rc = self.report(exes) if self.problem else 0
        for k in self.known:
            n = self.known_hits.get("%s|%s" % (k["cls"], k["key"]), 0)
            log("KNOWN-FINDING: property=%s %s (met %d times in this run)" % (self.pid, k["what"], n))
        c = self.cov["counters"]
        faults = {k: v for k, v in c.items() if v and k not in NOT_FAULTS}
        other = {k: v for k, v in c.items() if v and k in NOT_FAULTS}
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": spec["level"],
            "coverage": {
                "evaluations": self.cov["runs"],
                "distinct_nontrivial": len(self.traces),
                "rule": spec["rule"] + " A run is one forked process driven by one seed; runs are distinct if their complete event traces differ, and non-trivial since every trace counted contains library operations and their checked outcomes.",
                "samples": self.samples or [{"note": "the run ended at its first seed"}],
                "simulated_runs": self.cov["runs"], "seeds_per_hour": int(self.cov["runs"] / max(ts, 0.001) * 3600),
                "choices": self.cov["choices"], "events": self.cov["events"], "simulated_time_ticks": self.cov["simtime"],
                "faults_injected": faults, "work": other, "distinct_states": len(self.sigs), "distinct_states_measure": spec["measure"],
                "determinism_reruns": self.cov["reruns"] + self.cov.get("cross_process_reruns", 0),
                "per_job": self.cov["per_job"], "configurations": {c: " ".join([CONFIGS[c]["cxx"]] + CONFIGS[c]["flags"] + CONFIGS[c].get("tsan_flags", [])) for c in cfgs},
                "real_components": spec["real"], "stubbed_components": spec["stub"], "build_s": round(tb, 1), "configurations_left_out": sorted(failed),
            },
            "assumptions": spec["assumptions"], "wall_s": round(time.time() - t0, 1), "violations": 1 if rc == 1 else 0,
        }
        if not self.sigs and not self.traces:
            ev["coverage"]["note"] = "no run was completed"
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        log("%s %s: %d runs, %d distinct traces, %d states, %.0f s (build %.0f s), exit %d" % (self.pid, self.tier, self.cov["runs"], len(self.traces), len(self.sigs), time.time() - t0, tb, rc))
        clean_old_builds({os.path.dirname(e) for e in exes.values()})
        return rc

    def compare(self, jobs, exes, cmp):
        """the same seeds give the same traces in every one of these configurations"""
        for grp in cmp["groups"]:
            grp = [c for c in grp if c in exes]
            if len(grp) < 2:
                continue
            n = cmp["count_quick"] if self.tier == "quick" else cmp["count_thorough"]
            hs = {}
            per = max(1, n // NCPU)

            def one(a):
                cfg, w = a
                f = os.path.join(self.tmp, "cmp-%s-%d" % (cfg, w))
                o = dict(cmp.get("opts", {}))
                o.update({"hashes": f})
                run_sim(exes[cfg], cmp["scenario"], self.seed * 1000003 * 4096 + 50000000017 + w * per, per, f + ".json", o, 600)
                return cfg, [l for l in open(f).read().split("\n") if l], json.load(open(f + ".json"))
            with cf.ThreadPoolExecutor(NCPU) as ex:
                for cfg, ls, d in ex.map(one, [(c, w) for w in range(NCPU) for c in grp]):
                    hs.setdefault(cfg, []).extend(ls)
                    self.cov["runs"] += d["runs"]
                    self.traces.update((cfg, bytes(l.split()[2], "ascii")) for l in ls if cfg == grp[0])
                    if "violation" in d and not self.problem:
                        self.problem = ("violation", {"cfg": cfg, "scenario": cmp["scenario"], "opts": cmp.get("opts", {})}, d["violation"])
            self.cov.setdefault("compared", 0)
            for cfg in grp[1:]:
                for a, b in zip(hs[grp[0]], hs[cfg]):
                    self.cov["compared"] += 1
                    if a != b and not self.problem:
                        seed = int(a.split()[0])
                        self.problem = ("differ", {"cfg": cfg, "scenario": cmp["scenario"], "opts": cmp.get("opts", {}), "other": grp[0]}, {"seed": seed, "msg": "%s and %s disagree" % (grp[0], cfg), "cls": "differ", "key": "config"})
        if self.problem and self.problem[0] == "differ":
            _, job, rec = self.problem
            tr = []
            for c in (job["other"], job["cfg"]):
                o = dict(job["opts"])
                rc, d, err = run_sim(exes[c], job["scenario"], rec["seed"], 1, os.path.join(self.tmp, "d.json"), o, 200)
                tr.append(d["samples"][0]["trace"] if d and d["samples"] else "")
            a, b = tr[0].split("\n"), tr[1].split("\n")
            i = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
            rec.update({"msg": "%s: [%s]; %s: [%s]" % (job["other"], a[i] if i < len(a) else "", job["cfg"], b[i] if i < len(b) else ""), "trace": tr[1], "tape": []})
            path = self.write_replay(job, rec, rec, minimised=False)
            d = json.load(open(path))
            d["compare_with"] = job["other"]
            json.dump(d, open(path, "w"), indent=1)
            self.differ_path = path

    def finish(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


NOT_FAULTS = {"ops", "tokens", "checks", "exceptions", "switches", "instrumented_accesses", "allocations", "recoveries", "successes", "failures_reported", "sync_ops", "fresh_process_comparisons"}


def do_replay(path):
    r = json.load(open(path))
    spec = PROPS[r["property"]]
    cfgs = [r["config"]] + ([r["compare_with"]] if "compare_with" in r else [])
    exes = build(cfgs, {c: spec["sources"] for c in cfgs})
    tmp = tempfile.mkdtemp(prefix="replay-")
    try:
        o = dict(r["opts"])
        if "compare_with" in r:
            hs = []
            for c in cfgs:
                o["hashes"] = os.path.join(tmp, c)
                run_sim(exes[c], r["scenario"], r["seed"], 1, os.path.join(tmp, "r.json"), o, 200)
                hs.append(open(o["hashes"]).read())
            log("\n".join(hs))
            ok = hs[0] != hs[1]
        elif r["cls"] in ("", "nondet"):
            hs = set()
            for k in range(100):
                o["hashes"] = os.path.join(tmp, "h")
                run_sim(exes[r["config"]], r["scenario"], r["seed"], 1, os.path.join(tmp, "r.json"), o, 200)
                hs.add(open(o["hashes"]).read())
            log("%d different traces of one seed" % len(hs))
            ok = len(hs) > 1
        else:
            if r["tape"]:
                o["tape"] = os.path.join(tmp, "tape")
                open(o["tape"], "w").write(" ".join(map(str, r["tape"])))
            rc, d, err = run_sim(exes[r["config"]], r["scenario"], r["seed"], 1, os.path.join(tmp, "r.json"), o, 200)
            v = (d or {}).get("violation")
            if v:
                log(v["trace"])
                log("[%s %s] %s" % (v["cls"], v["key"], v["msg"]))
            ok = bool(v) and v["hash"] == r["hash"]
            if v and not ok:
                log("a violation, but not the recorded one (hash %s, recorded %s)" % (v["hash"], r["hash"]))
                ok = True
        log("reproduced" if ok else "not reproduced")
        if ok:
            log("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1 if ok else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    if sys.argv[1:2] == ["--replay"]:
        return do_replay(sys.argv[2])
    if sys.argv[1:2] == ["--setup"]:
        try:
            build(["gcc20"], {"gcc20": PROPS["C01"]["sources"]})   # checks that the tool chain works; each check builds what it needs
        except BuildError as e:
            log("build failed:\n%s" % e)
            return 2
        return 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    r = Runner(pid, tier, seed)
    try:
        return r.main()
    finally:
        r.finish()


if __name__ == "__main__":
    sys.exit(main())
