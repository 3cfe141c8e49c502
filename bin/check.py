#!/usr/bin/env python3
"""Decide one property: check.py PROPERTY {quick|thorough}

mirror /repo -> build the harnesses that assert the property -> explore all their paths with the solver
-> replay every counterexample on concrete values -> evidence/<property>.json.

exit 0: no violation on anything explored; exit 1 + VIOLATION line: a replayed counterexample;
exit 2: the check itself could not work (build failure, engine error, vacuous harness).
"""
import fcntl, glob, json, os, re, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WS = os.path.join(HERE, "build", "sym")
BIN = os.path.join(WS, "target", "debug", "harness")
T0 = time.time()
NOTES = []


def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="1.83.0", CARGO_NET_OFFLINE="true", RUSTC_BOOTSTRAP="ethnum",
             Ankr_Api_Key="x", Llama_Api_Key="y", CARGO_TERM_COLOR="never")
    e.pop("RUSTFLAGS", None)
    return e


def die(msg):
    print("ERROR:", msg)
    sys.exit(2)


def features(prop):
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, "sym/harness/src/h_*.rs"))):
        src = open(f).read()
        if any('"%s"' % prop in m for m in re.findall(r"props:\s*&\[([^\]]*)\]", src)):
            out.append(os.path.basename(f)[:-3])
    return out


def build(feats):
    os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
    lock = open(os.path.join(HERE, "build", ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    r = subprocess.run([sys.executable, os.path.join(HERE, "bin/mirror.py"), WS, "sym"], env=env())
    if r.returncode:
        die("mirroring /repo failed")
    r = subprocess.run(["cargo", "build", "--offline", "-p", "harness", "--no-default-features", "--features", ",".join(feats)],
                       cwd=WS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode and "h_cycles" in feats and len(feats) > 1:
        # the copy of the RPC client over symbolic cycle amounts supports only part of u128's interface
        print("note: the client does not compile over symbolic cycle amounts; only the concrete boundary demands are checked")
        NOTES.append("the RPC client did not compile over symbolic cycle amounts: P17 was decided by rpc_cycles (boundary demands) only")
        lock.close()
        return build([f for f in feats if f != "h_cycles"])
    if r.returncode:
        lines = r.stdout.splitlines()
        keep = [i for i, l in enumerate(lines) if l.startswith("error")]
        for i in keep[:8]:
            print("\n".join(lines[i:i + 8]))
        die("the harness does not build against /repo's current tree")
    return lock


def last_json(text):
    for line in reversed(text.splitlines()):
        if line.startswith("{"):
            try:
                return json.loads(line)
            except ValueError:
                return None
    return None


class Runner:
    def __init__(self, prop, budget):
        self.prop, self.budget, self.stop = prop, budget, False
        self.procs, self.mu, self.results = set(), threading.Lock(), []

    def job(self, h, i):
        if self.stop:
            return
        cmd = [BIN, "run", h["name"], "--tag", self.prop, "--budget", str(self.budget), "--max-violations", "3"]
        if h["workers"] > 1:
            cmd += ["--worker", "%d/%d" % (i, h["workers"])]
        with self.mu:
            p = subprocess.Popen(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            self.procs.add(p)
        try:
            out, _ = p.communicate(timeout=self.budget + 120)
        except subprocess.TimeoutExpired:
            p.kill()
            out, _ = p.communicate()
        with self.mu:
            self.procs.discard(p)
        rep = last_json(out or "")
        with self.mu:
            self.results.append((h, i, p.returncode, rep))
        return rep

    def run(self, hs):
        jobs = [(h, i) for h in hs for i in range(h["workers"])]
        it, mu = iter(jobs), threading.Lock()

        def worker():
            while True:
                with mu:
                    j = next(it, None)
                if j is None or self.stop:
                    return
                rep = self.job(*j)
                # a confirmed violation ends the run
                if rep and rep.get("violations"):
                    self.on_violation(j[0], rep["violations"])
        ts = [threading.Thread(target=worker) for _ in range(min(8, max(1, len(jobs))))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()

    on_violation = None

    def kill(self):
        with self.mu:
            self.stop = True
            for p in self.procs:
                p.kill()


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    manifest = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    entry = next((c for c in manifest["checks"] if c["property"] == prop), None)
    level = entry["level"] if entry else "other"
    feats = features(prop)
    if not feats:
        die("no harness asserts " + prop)
    lock = build(feats)
    t_build = time.time() - T0
    hs = json.loads(subprocess.run([BIN, "list"], env=env(), stdout=subprocess.PIPE, text=True).stdout)
    hs = [h for h in hs if prop in h["props"] and (tier == "thorough" or h["tier"] == "quick")]
    # deep harnesses first
    hs.sort(key=lambda h: -h["workers"])
    budget = int(os.environ.get("VERIF_BUDGET", "300" if tier == "quick" else "3600"))
    known = []
    kf = os.path.join(HERE, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)) if k.get("property") == prop and k.get("status") == "known"]
    rdir = os.path.join(HERE, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    confirmed, unconfirmed, found = [], [], []
    vmu = threading.Lock()
    run = Runner(prop, budget)

    def on_violation(h, vs):
        with vmu:
            for v in vs:
                key = (h["name"], v["msg"])
                if any((c[0]["name"], c[1]["msg"]) == key for c in confirmed + unconfirmed + found):
                    continue
                path = os.path.join(rdir, "%s_%s_%d.json" % (prop, h["name"], len(confirmed) + len(unconfirmed) + len(found)))
                with open(path, "w") as f:
                    json.dump(v["values"], f, indent=1, sort_keys=True)
                r = subprocess.run([BIN, "replay", h["name"], path, "--tag", prop], env=env(), stdout=subprocess.PIPE,
                                   stderr=subprocess.DEVNULL, text=True, timeout=300)
                rep = last_json(r.stdout)
                again = [x for x in (rep or {}).get("violations", []) if x["tag"] in (prop, "*")]
                if not again:
                    unconfirmed.append((h, v, path))
                    continue
                k = next((k for k in known if k["harness"] == h["name"] and re.search(k["match"], again[0]["msg"])), None)
                full = {"property": prop, "harness": h["name"], "message": again[0]["msg"], "values": v["values"],
                        "replay_command": "%s replay %s %s --tag %s" % (BIN, h["name"], path, prop),
                        "trace": (rep.get("trace") or [])[-60:]}
                with open(path[:-5] + ".report.json", "w") as f:
                    json.dump(full, f, indent=1)
                if k:
                    found.append((h, v, path, k))
                else:
                    confirmed.append((h, dict(v, msg=again[0]["msg"]), path))
                    run.kill()
    run.on_violation = on_violation
    run.run(hs)

    # ---------------------------------------------------------------------------------------- evidence
    per, errors = {}, []
    for h, i, rc, rep in run.results:
        d = per.setdefault(h["name"], {"harness": h["name"], "functions_encoded": h["functions"], "bounds": h["bounds"],
                                       "processes": 0, "paths": 0, "killed_paths": 0, "solver_queries": 0, "sat": 0, "unsat": 0, "unknown": 0,
                                       "forks": 0, "assertions_checked": 0, "solver_s": 0.0, "max_depth": 0, "complete": True,
                                       "reachability_witnesses": {}, "stopped_because": []})
        d["processes"] += 1
        if rep is None:
            if not run.stop:
                errors.append("%s: no report (exit %s)" % (h["name"], rc))
            d["complete"] = False
            continue
        for a, b in (("paths", "paths"), ("killed_paths", "killed"), ("solver_queries", "queries"), ("sat", "sat"), ("unsat", "unsat"),
                     ("unknown", "unknown"), ("forks", "forks"), ("assertions_checked", "checks"), ("solver_s", "solver_s")):
            d[a] += rep[b]
        d["max_depth"] = max(d["max_depth"], rep["max_depth"])
        d["complete"] = d["complete"] and rep["complete"]
        if rep.get("undecided") and rep["undecided"] not in d["stopped_because"]:
            d["stopped_because"].append(rep["undecided"])
        if rep.get("concretized"):
            d["stopped_because"].append("%d values concretized" % rep["concretized"])
        for k, v in rep["covers"].items():
            d["reachability_witnesses"][k] = d["reachability_witnesses"].get(k, 0) + v
        if rep.get("fatal"):
            errors.append("%s: %s" % (h["name"], rep["fatal"]))
    if not confirmed:
        for h in hs:
            d = per.get(h["name"])
            if d is None:
                errors.append("%s did not run" % h["name"])
                continue
            missing = [c for c in h["covers"] if not d["reachability_witnesses"].get(c)]
            if missing and (d["complete"] or not d["paths"]):
                errors.append("%s is vacuous: never reached %s" % (h["name"], missing))
            if d["assertions_checked"] == 0:
                errors.append("%s checked no assertion of %s" % (h["name"], prop))
    for d in per.values():
        d["solver_s"] = round(d["solver_s"], 2)
    tot = lambda k: sum(d[k] for d in per.values())
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "explanation": "Symbolic execution of the compiled real code: every path of each harness is explored, an SMT solver (z3, cvc5 on unknown) decides each branch and each assertion for all values within the bounds.",
            "evaluations": tot("paths"), "distinct_nontrivial": tot("paths") - tot("killed_paths"),
            "rule": "one evaluation is one feasible symbolic path (a set of inputs), distinct by its branch decisions; non-trivial: it was not cut by an assumption",
            "samples": [{"harness": d["harness"], "bounds": d["bounds"], "witnesses": d["reachability_witnesses"]} for d in per.values()],
            "exhaustive": all(d["complete"] for d in per.values()),
            "solver_queries": tot("solver_queries"), "assertions_checked": tot("assertions_checked"), "solver_s": round(tot("solver_s"), 2),
            "harnesses": list(per.values()),
            "unconfirmed_counterexamples": [{"harness": h["name"], "message": v["msg"], "values": v["values"]} for h, v, _ in unconfirmed],
            "build_s": round(t_build, 1),
        },
        "assumptions": [
            "system API, inter-canister calls, timers and stable memory are simulated (sym/patched); dfinity/ic git dependencies are stand-ins (sym/shims)",
            "256-bit and big integers are mathematical integers in the solver; addresses, hashes, principals and indices are concrete representatives",
        ] + NOTES,
        "wall_s": round(time.time() - T0, 1), "violations": len(confirmed),
    }
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for d in per.values():
        print("%-18s paths=%d queries=%d solver=%.1fs complete=%s %s" % (d["harness"], d["paths"], d["solver_queries"], d["solver_s"], d["complete"],
                                                                        "; ".join(d["stopped_because"])[:200]))
    for h, v, path, k in found:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for h, v, path in unconfirmed:
        print("note: counterexample of %s did not reproduce on concrete values: %s" % (h["name"], v["msg"]))
    if confirmed:
        h, v, path = confirmed[0]
        print("%s: %s" % (h["name"], v["msg"][:400]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    if errors:
        for e in errors:
            print("ERROR:", e)
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
