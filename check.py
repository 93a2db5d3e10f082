#!/usr/bin/env python3
"""check.py ID              decide one property on /repo's current tree (exit 0 held, 1 violated, 2 no answer)
   check.py --replay FILE   run the failing input of a replay file again on /repo's current tree"""
import os
import sys
import json
import time
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
VT = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python3"
PY = "/opt/venv/bin/python"
# seconds: one contract variant, all contracts, battery, escalated battery
LIMITS = {"quick": (150, 420, 90, 150), "thorough": (900, 7200, 1200, 1800)}[TIER]

TRUSTED = [
    "pv/engine.py: translation of the Python source of /repo (ast, on every run; dropped: docstrings, type annotations, plotting calls, printing, progress bars) into symbolic execution with inductive loop summaries",
    "pv/terms.py, pv/prover.py: polynomial/trigonometric normal forms and the proof rules for sums, integrals of symbolic length and piecewise functions",
    "z3 4.x (python3-vt z3-solver) for arithmetic and index side conditions",
    "pv/sym.py, pv/libs.py: contracts of numpy, scipy, sympy, scikit-image, lmfit and numba (compared with the real libraries by selftest.py, run by setup_cmd)",
    "CPython semantics of the statements used",
]
ASSUME = [
    "machine floating point is treated as exact real arithmetic (rounding, overflow and NaN are outside the contracts)",
    "band-energy expressions are arbitrary differentiable functions of their arguments; sympy.diff and lambdify are assumed to give their exact derivatives and values",
    "the bands given to the contracts satisfy the stated preconditions (positive lattice constants, at least one Fermi-surface point, finite non-zero velocity where a density of states is taken)",
]


def env(extra=()):
    e = dict(os.environ, VERIF_REPO=REPO, VERIF_TIER=TIER, VERIF_SEED=str(SEED), PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", NUMBA_DISABLE_JIT="1", PYTHONHASHSEED="0")
    e.pop("PYTHONPATH", None)
    e.update(extra)
    return e


def start(cmd, log, extra=()):
    return subprocess.Popen(cmd, cwd=HERE, env=env(extra), stdout=log, stderr=subprocess.STDOUT, start_new_session=True)


def finish(p, limit):
    try:
        p.wait(timeout=max(1, limit))
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def battery(prop, tmp, log, tag, budget, scale, seed, jobs):
    out = os.path.join(tmp, "battery_%s.json" % tag)
    p = start([PY, os.path.join(HERE, "battery", "run.py"), prop, out, str(scale)], log,
              {"BATTERY_BUDGET": str(budget), "VERIF_SEED": str(seed), "BATTERY_JOBS": str(jobs)})
    return p, out


def known_findings(prop):
    out = {}
    try:
        for line in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")):
            if line.startswith("finding: property=%s " % prop):
                w = line.split(None, 3)
                out[w[2]] = w[3].strip()
    except OSError:
        pass
    return out


def replay(path):
    d = load(path)
    if not d:
        sys.exit("cannot read " + path)
    if "case" not in d:
        print(json.dumps(d, indent=1))
        print("no failing input: the file names the failed obligations and carries the verifier's output")
        return 0
    return subprocess.call([PY, os.path.join(HERE, "battery", "run.py"), "--replay", os.path.abspath(path)], cwd=HERE, env=env())


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    t0 = time.time()
    ev_dir = os.path.join(HERE, "evidence")
    rp_dir = os.path.join(ev_dir, "replay", prop)
    os.makedirs(rp_dir, exist_ok=True)
    for f in os.listdir(rp_dir):
        os.unlink(os.path.join(rp_dir, f))
    findings = known_findings(prop)
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    log = open(os.path.join(tmp, "log"), "w+")
    try:
        ej = os.path.join(tmp, "contracts.json")
        e = start([VT, os.path.join(HERE, "pv", "runner.py"), prop, "--json", ej, str(LIMITS[0]), str(LIMITS[1])], log)
        b, bj = battery(prop, tmp, log, "a", LIMITS[2], 1, SEED, 4)
        finish(b, LIMITS[2] + 90)
        bat = load(bj)
        fails = [r for r in bat["results"] if r["status"] == "fail"] if bat else []
        finish(e, LIMITS[1] + 60 - (time.time() - t0))
        con = load(ej)
        obs = [(c, n, o) for c in (con["results"] if con else []) for n, o in c["obligations"].items()]
        failed = [x for x in obs if x[2]["status"] == "failed"]
        undec = [x for x in obs if x[2]["status"] == "undecided"]
        esc = None
        if not fails and (failed or undec or con is None):
            # look harder for a concrete failing input; also the bounded stand-in of an undecided obligation
            b2, bj2 = battery(prop, tmp, log, "b", LIMITS[3], 4, SEED + 1000, 8)
            finish(b2, LIMITS[3] + 90)
            esc = load(bj2)
            fails = [r for r in esc["results"] if r["status"] == "fail"] if esc else []
        runs = [r for x in (bat, esc) if x for r in x["results"]]
        okruns = [r for r in runs if r["status"] == "ok"]
        known = {}
        for c, n, o in obs:
            if o["status"] == "known":
                for d in o["detail"]:
                    known.setdefault(d, []).append("obligation %s / %s" % (c["contract"], n))
        for r in runs:
            for k in r["known"]:
                known.setdefault(k, []).append("case %s %d" % (r["case"], r["index"]))
        new = [k for k in known if k not in findings]
        lines, code = [], 0
        for k in known:
            if k in findings:
                lines.append("KNOWN-FINDING: property=%s %s %s" % (prop, k, findings[k]))
        if fails:
            r = sorted(fails, key=lambda r: len(json.dumps(r["inputs"])))[0]
            path = os.path.join(rp_dir, "%s_%d.json" % (r["case"], r["index"]))
            d = dict(r, property=prop, obligations=[describe(x) for x in failed][:10],
                     how="python3 check.py --replay %s" % os.path.relpath(path, HERE))
            json.dump(d, open(path, "w"), indent=1)
            lines.append("%s: %s" % (r["case"], r["detail"][:500]))
            lines.append("VIOLATION property=%s replay=%s" % (prop, path))
            code = 1
        elif failed or new:
            path = os.path.join(rp_dir, "obligations.json")
            json.dump({"property": prop, "failed_obligations": [describe(x) for x in failed], "unlisted_findings": {k: known[k] for k in new},
                       "battery": "%d concrete inputs of this property ran without failing" % len(okruns)}, open(path, "w"), indent=1)
            for x in failed[:5]:
                lines.append("failed obligation: %s / %s: %s" % (x[0]["contract"], x[1], (x[2]["detail"] or [""])[0][:300]))
            lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
            code = 1
        elif not okruns and not any(o["status"] == "proved" and n not in GUARDS for c, n, o in obs):
            lines.append("no answer for %s: neither the verifier nor the battery decided anything" % prop)
            code = 2
        if undec and not code:
            lines.append("%d obligations undecided by the verifier; bounded battery stood in for them (%d inputs)" % (len(undec), len(okruns)))
        evidence(prop, t0, con, obs, failed, undec, bat, esc, okruns, known, code, ev_dir)
        if code == 2 or os.environ.get("VERIF_DEBUG"):
            log.seek(0)
            sys.stderr.write(log.read()[-6000:])
        n = sum(1 for c, q, o in obs if o["status"] == "proved" and q not in GUARDS)
        print("%s: %d of %d obligations proved, %d battery inputs ok, %.1f s" % (prop, n, sum(1 for c, q, o in obs if q not in GUARDS and o["status"] != "known"), len(okruns), time.time() - t0))
        for s in lines:
            print(s)
        return code
    finally:
        log.close()
        shutil.rmtree(tmp, ignore_errors=True)


GUARDS = ("precondition reachable", "vacuity")


def describe(x):
    c, n, o = x
    return {"contract": c["contract"], "variant": c["variant"], "functions": c["targets"], "obligation": n, "verifier_output": o["detail"]}


def evidence(prop, t0, con, obs, failed, undec, bat, esc, okruns, known, code, ev_dir):
    proper = [(c, n, o) for c, n, o in obs if n not in GUARDS and o["status"] != "known"]
    guards = [(c, n, o) for c, n, o in obs if n in GUARDS]
    res = con["results"] if con else []
    stats, bound, assumes, per = {}, {}, [], {}
    for r in res:
        for k, v in r["stats"].items():
            stats[k] = round(stats.get(k, 0) + v, 3)
        for k, v in r["loops"].items():
            stats["loop " + k] = stats.get("loop " + k, 0) + v
        if r["bounded"]:
            bound[r["contract"]] = r["bounded"]
        for a in r["assumes"]:
            if a not in assumes:
                assumes.append(a)
        p = per.setdefault(r["contract"], {"variants": 0, "paths": 0, "obligations": 0, "proved": 0, "seconds": 0.0, "functions": r["targets"]})
        p["variants"] += 1
        p["paths"] += r["paths"]
        p["seconds"] = round(p["seconds"] + r["time"], 2)
        for n, o in r["obligations"].items():
            if n not in GUARDS and o["status"] != "known":
                p["obligations"] += 1
                p["proved"] += o["status"] == "proved"
    runs = [r for x in (bat, esc) if x for r in x["results"]]
    cov = {
        "obligations": len(proper),
        "discharged": sum(1 for c, n, o in proper if o["status"] == "proved"),
        "instances_discharged": sum(o["count"] for c, n, o in proper if o["status"] == "proved"),
        "checker_cmd": "python3-vt pv/runner.py %s" % prop,
        "trusted_base": TRUSTED,
        "functions_under_contract": sorted({t for r in res for t in r["targets"]}),
        "contracts": per,
        "back_ends": {"normal form / rules / z3 call counts and seconds": stats},
        "preconditions_shown_satisfiable": sum(1 for c, n, o in guards if o["status"] == "proved"),
        "undecided_obligations": [describe(x) for x in undec][:20],
        "failed_obligations": [describe(x) for x in failed][:20],
        "known_findings_not_counted_as_discharged": {k: len(v) for k, v in known.items()},
        "bounded_parts_never_counted_as_unbounded": bound,
        "bounded_battery": {
            "inputs": len(runs), "ok": len(okruns), "comparisons": sum(r["checks"] for r in runs),
            "not_run_for_lack_of_time": sum(x["skipped"] for x in (bat, esc) if x),
            "undecided": [{"case": r["case"], "index": r["index"], "why": r["detail"]} for r in runs if r["status"] == "undecided"][:10],
            "rule": "generated inputs run through the real package and compared with an independent oracle; bounded, beside the proof",
            "samples": [{"case": r["case"], "index": r["index"], "inputs": r["inputs"]} for r in okruns[:1]],
        },
    }
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": "proof", "coverage": cov, "assumptions": ASSUME + assumes,
          "wall_s": round(time.time() - t0, 2), "violations": 1 if code == 1 else 0}
    with open(os.path.join(ev_dir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
