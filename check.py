#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's tree.

Two things run side by side, both on /repo's current working tree:
  - govc proves the contracts the property is made of (the deciding step);
  - a bounded search runs the real code against the specification. It gives a
    failing input where the proof fails, and covers, labelled bounded, what is
    not under contract.
"""
import json, os, shutil, subprocess, sys, tempfile, threading, time, glob

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CLEAN = {k: v for k, v in os.environ.items() if not k.startswith("GO")}
CLEAN["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
CLEAN.update(GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off", HOME=os.environ.get("HOME", "/root"))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_govc():
    """Builds the verifier unless the one there is newer than its sources."""
    out = os.path.join(HERE, "bin", "govc")
    src = glob.glob(os.path.join(HERE, "govc", "*"))
    if os.path.exists(out) and all(os.path.getmtime(f) <= os.path.getmtime(out) for f in src):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    env = dict(CLEAN, GOFLAGS="-mod=mod")
    r = sh(["go", "build", "-o", out, "."], cwd=os.path.join(HERE, "govc"), env=env)
    if r.returncode != 0:
        sys.exit("cannot build govc:\n" + r.stdout)
    return out


def repo_env():
    """The environment the repository is built in (/opt/vp/env.sh)."""
    r = subprocess.run(["bash", "-c", ". /opt/vp/env.sh && env -0"], stdout=subprocess.PIPE)
    e = dict(x.split("=", 1) for x in r.stdout.decode().split("\0") if "=" in x)
    return e if "PATH" in e else dict(os.environ)


def build_harness(work):
    ov = {}
    for f in sorted(glob.glob(os.path.join(HERE, "harness", "*.go"))):
        ov[os.path.join(REPO, "internal/zzcheck", os.path.basename(f))] = f
    for f in sorted(glob.glob(os.path.join(HERE, "contracts/zzspec", "*.go"))):
        ov[os.path.join(REPO, "internal/zzspec", os.path.basename(f))] = f
    ovf = os.path.join(work, "overlay.json")
    json.dump({"Replace": ov}, open(ovf, "w"))
    out = os.path.join(work, "harness")
    r = sh(["go", "test", "-c", "-o", out, "-overlay", ovf, "-vet=off", "./internal/zzcheck"], cwd=REPO, env=repo_env())
    if r.returncode != 0:
        return None, r.stdout
    cli = os.path.join(work, "ssarules")
    r = sh(["go", "build", "-o", cli, "./cmd/ssarules"], cwd=REPO, env=repo_env())
    if r.returncode != 0:
        return None, r.stdout
    return out, ""


class Search:
    """One run of the bounded search."""

    def __init__(self, binary, work, prop, tier, seed, budget, scale, trace=False, tag="a"):
        self.out = os.path.join(work, "search-%s.json" % tag)
        self.trace = os.path.join(work, "trace-%s" % tag)
        self.scratch = os.path.join(work, "scratch-%s" % tag)
        os.makedirs(self.scratch, exist_ok=True)
        env = dict(repo_env(), VERIF_PROP=prop, VERIF_OUT=self.out, VERIF_SEED=str(seed), VERIF_TIER=tier,
                   VERIF_BUDGET=str(budget), VERIF_SCALE=str(scale), VERIF_REPO=REPO, TMPDIR=self.scratch,
                   VERIF_CLI=os.path.join(work, "ssarules"), VERIF_KNOWN=os.path.join(HERE, "known-findings.txt"))
        if trace:
            env["VERIF_TRACE"] = self.trace
        self.args = (binary, work, prop, tier, seed, budget, scale)
        self.p = subprocess.Popen([binary, "-test.run", "TestVerif", "-test.timeout", "0"], cwd=self.scratch, env=env,
                                  stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        self.limit = time.time() + budget + 60
        self.traced = trace

    def result(self):
        log = ""
        try:
            log, _ = self.p.communicate(timeout=max(1, self.limit - time.time()))
        except subprocess.TimeoutExpired:
            self.p.kill()
            log, _ = self.p.communicate()
            log = "stopped at its time limit\n" + log
        if os.path.exists(self.out):
            return json.load(open(self.out))
        if not self.traced:  # the process died: find out on which input
            return Search(*self.args, trace=True, tag="t").result()
        last = open(self.trace, errors="replace").read() if os.path.exists(self.trace) else ""
        return {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "rule": "", "crash": True,
                "failures": [{"what": "the process under test died:\n" + log[:3000], "input": last}] if last else [],
                "log": log[-3000:]}


class Prover:
    """One run of govc: the obligations of one property."""

    def __init__(self, govc, work, prop, thorough):
        self.out = os.path.join(work, "report-%s.json" % prop)
        scratch = os.path.join(work, "smt-%s" % prop)
        os.makedirs(scratch)
        self.cmd = [govc, "-repo", REPO, "-contracts", os.path.join(HERE, "contracts"), "-prop", prop, "-o", self.out,
                    "-work", scratch, "-budget", "1800s" if thorough else "330s"]
        hints = os.path.join(HERE, "hints", prop)
        if thorough:
            self.cmd += ["-slow", "60s"]
        elif os.path.exists(hints):
            self.cmd += ["-hints", hints]
        self.log = ""

    def run(self, deadline):
        p = subprocess.Popen(self.cmd, env=CLEAN, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        try:
            self.log, _ = p.communicate(timeout=max(30, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            self.log, _ = p.communicate()

    def report(self):
        if os.path.exists(self.out):
            return json.load(open(self.out))
        return {"units": [], "obligations": 0, "discharged": 0, "by_solver": {}, "ok": False, "externs": {}, "trusted": {},
                "solver_seconds": 0, "solver_calls": 0, "errors": ["the verifier gave no report: " + self.log[-2000:]]}


def run_provers(provers, deadline):
    for p in provers:
        p.run(deadline)


def merge(reports, parts):
    """The reports of the properties a property rests on, as one."""
    if len(reports) == 1:
        return reports[0]
    m = {"units": [], "obligations": 0, "discharged": 0, "by_solver": {}, "ok": True, "externs": {}, "trusted": {},
         "solver_seconds": 0, "solver_calls": 0, "errors": [], "missing": [],
         "loops_shown_to_end": 0, "loops_not_shown_to_end": []}
    for p, r in zip(parts, reports):
        for u in r["units"] or []:
            m["units"].append(dict(u, name="%s: %s" % (p, u["name"])))
        for k in ("obligations", "discharged", "solver_seconds", "solver_calls", "loops_shown_to_end"):
            m[k] += r.get(k, 0)
        m["loops_not_shown_to_end"] += r.get("loops_not_shown_to_end") or []
        for k, v in (r["by_solver"] or {}).items():
            m["by_solver"][k] = m["by_solver"].get(k, 0) + v
        for k in ("externs", "trusted"):
            m[k].update(r.get(k) or {})
        m["errors"] += r.get("errors") or []
        m["missing"] += r.get("missing") or []
        m["ok"] = m["ok"] and r["ok"]
    return m


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = tier == "thorough"
    start = time.time()
    conf = json.load(open(os.path.join(HERE, "checks.json")))[prop]
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return decide(prop, tier, seed, thorough, start, conf, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(prop, tier, seed, thorough, start, conf, work):
    govc = build_govc()
    parts = conf.get("parts", [prop])
    provers = [Prover(govc, work, p, thorough) for p in parts]
    cmd = " && ".join(" ".join(p.cmd) for p in provers)
    binary, err = build_harness(work)
    if binary is None:
        # the code does not build: nothing can be said about it
        print("the code and the harness do not build together:\n" + err[:3000])
        return 2
    runs = threading.Thread(target=run_provers, args=(provers, start + (3000 if thorough else 520)))
    runs.start()
    budget = 600 if thorough else conf.get("budget", 60)
    search = Search(binary, work, prop, tier, seed, budget, 20 if thorough else 1)
    res = search.result()
    runs.join()
    proof = merge([p.report() for p in provers], parts)
    if res.get("crash") and not res["failures"]:
        print("the search died without an input:\n" + res.get("log", ""))
        return 2
    fails = res["failures"] or []
    if not proof["ok"] and not fails:
        # an obligation failed: look harder for an input that shows why
        left = (1200 if thorough else 780) - (time.time() - start)
        extra = Search(binary, work, prop, tier, seed + 1000, min(conf.get("hunt", 110), max(5, left - 70)), 12, tag="b").result()
        fails = extra["failures"] or []
        res["evaluations"] += extra["evaluations"]
    violations = []
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, prop + "-*.txt")):
        os.remove(f)

    def replay(text):
        f = os.path.join(rdir, "%s-%d.txt" % (prop, len(violations) + 1))
        open(f, "w").write(text)
        return f

    proof_text = failed_obligations(proof) if not proof["ok"] else ""
    for f in fails[:3]:
        p = replay("property %s\n\nwhat fails:\n%s\n\ninput:\n%s\n\n%s\nrepeat with: cd /verif && VERIF_SEED=%d python3 check.py %s %s\n"
                   % (prop, f["what"], f["input"], proof_text, seed, prop, tier))
        violations.append("VIOLATION property=%s replay=%s" % (prop, p))
    if proof_text and not fails:
        p = replay("property %s\n\n%s\nno input that shows a failure was found.\n" % (prop, proof_text))
        violations.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, p))
    for k in res.get("known") or []:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for v in violations:
        print(v)
    evidence(prop, tier, seed, conf, cmd, proof, res, len(violations), time.time() - start)
    return 1 if violations else 0


def failed_obligations(proof):
    out = ["obligations not discharged:"]
    for e in proof.get("errors") or []:
        out.append("  " + e)
    for u in proof["units"] or []:
        if u.get("error"):
            out.append("  %s (%s): %s" % (u["name"], u["pos"], u["error"]))
        for f in u.get("failed") or []:
            out.append("  %s: %s %s at %s: %s by %s" % (u["name"], f["kind"], f["label"], f["pos"], f["status"], f["solver"]))
            out.append("    goal: " + f.get("goal", "")[:1500])
            out.append("    solver output: " + f.get("output", "")[:1000].strip())
    return "\n".join(out) + "\n"


def evidence(prop, tier, seed, conf, cmd, proof, res, violations, wall):
    cov = {
        "evaluations": res["evaluations"],
        "distinct_nontrivial": res["distinct_nontrivial"],
        "rule": res["rule"],
        "samples": res["samples"] or [],
        "bounded_part": conf.get("bounded", "the search only looks for counterexamples; nothing rests on it"),
    }
    assumptions = list(conf.get("assumptions", []))
    if proof is not None:
        trusted = ["govc (verif/govc): translation of Go SSA to SMT-LIB", "golang.org/x/tools/go/ssa v0.52.0", "the SMT solvers z3 5.3.2 and cvc5 1.1.2"]
        trusted += ["%s: %s" % (k, v) for k, v in sorted((proof.get("externs") or {}).items())]
        trusted += ["contract of %s assumed: %s" % (k, v) for k, v in sorted((proof.get("trusted") or {}).items())]
        assumptions += ["the loops of %s end" % l for l in proof.get("loops_not_shown_to_end") or []]
        cov.update({
            "obligations": proof["obligations"],
            "discharged": proof["discharged"],
            "checker_cmd": cmd,
            "trusted_base": trusted,
            "by_back_end": proof["by_solver"],
            "solver_calls": proof["solver_calls"],
            "solver_seconds": round(proof["solver_seconds"], 2),
            "units": [{"name": u["name"], "kind": u["kind"], "obligations": u["obligations"], "discharged": u["discharged"],
                       "contract_clauses": u.get("clauses") or [], "callee_contracts": u.get("callee_contracts") or [],
                       "inlined": u.get("inlined") or []} for u in proof["units"] or []],
            "functions_under_contract": sum(1 for u in proof["units"] or [] if u["kind"] == "function"),
            "lemmas": sum(1 for u in proof["units"] or [] if u["kind"] == "lemma"),
            "functions_checked_for_contradictory_assumptions": sum(1 for u in proof["units"] or [] if u.get("reachable")),
            "loops_shown_to_end": proof.get("loops_shown_to_end", 0),
            "loops_not_shown_to_end": proof.get("loops_not_shown_to_end") or [],
            "contracts_without_function": proof.get("missing") or [],
        })
    if "explanation" in conf:
        cov["explanation"] = conf["explanation"]
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": conf["level"],
          "coverage": cov, "assumptions": assumptions, "wall_s": round(wall, 2), "violations": violations}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)


if __name__ == "__main__":
    sys.exit(main())
