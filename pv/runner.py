"""runs the contracts of one property in parallel processes"""
import os
import sys
import time
import json
import traceback
import multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "contracts"))
sys.setrecursionlimit(20000)


def load(prop):
    import importlib
    import harness
    importlib.import_module(prop.lower())
    return harness.CONTRACTS.get(prop, [])


def work(args):
    prop, ci, vi, budget = args
    import harness
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    cs = load(prop)
    c = cs[ci]
    try:
        return harness.run_contract(c, c.variants[vi], budget)
    except BaseException as e:
        traceback.print_exc()
        return {"contract": c.name, "variant": {}, "targets": c.targets, "bounded": c.bounded, "assumes": c.assumes,
                "obligations": {"verifier": {"status": "undecided", "count": 0, "detail": ["%s: %s" % (type(e).__name__, e)]}},
                "paths": 0, "time": 0, "stats": {}, "loops": {}}


def run(prop, budget=120, jobs=None, only=None, total=None):
    """every contract variant of a property; those not finished after `total` seconds are undecided"""
    cs = load(prop)
    t0 = time.time()
    tasks = [(prop, i, j, budget) for i, c in enumerate(cs) for j in range(len(c.variants)) if only is None or only in c.name]
    jobs = jobs or int(os.environ.get("PV_JOBS", "8"))
    if jobs == 1:
        return [work(t) for t in tasks]
    with mp.get_context("fork").Pool(jobs, maxtasksperchild=1) as pool:
        rs = [pool.apply_async(work, (t,)) for t in tasks]
        out = []
        for t, r in zip(tasks, rs):
            try:
                out.append(r.get() if total is None else r.get(max(0.05, total - (time.time() - t0))))
            except mp.TimeoutError:
                c = cs[t[1]]
                out.append({"contract": c.name, "variant": {k: str(v) for k, v in c.variants[t[2]].items()}, "targets": c.targets, "bounded": c.bounded, "assumes": c.assumes,
                            "obligations": {"verifier": {"status": "undecided", "count": 0, "detail": ["not finished within the time of the check"]}},
                            "paths": 0, "time": 0, "stats": {}, "loops": {}})
        pool.terminate()
    return out


if __name__ == "__main__" and "--json" in sys.argv:
    prop, out = sys.argv[1], sys.argv[3]
    budget, total = float(sys.argv[4]), float(sys.argv[5])
    t = time.time()
    rs = run(prop, budget=budget, total=total)
    json.dump({"results": rs, "wall": time.time() - t}, open(out, "w"))
    sys.exit(0)

if __name__ == "__main__":
    prop = sys.argv[1]
    only = sys.argv[2] if len(sys.argv) > 2 else None
    t = time.time()
    rs = run(prop, only=only)
    bad = 0
    for r in rs:
        print("%-34s %-50s paths %d  %.1fs" % (r["contract"], str(r["variant"])[:50], r["paths"], r["time"]))
        for n, o in r["obligations"].items():
            if o["status"] != "proved" or os.environ.get("PV_ALL"):
                bad += o["status"] != "proved"
                print("    %-9s %s x%d" % (o["status"], n, o["count"]))
                for d in o["detail"]:
                    print("          ", d[:int(os.environ.get("PV_LONG", "1500"))])
    print("obligations %d, not proved %d, %.1fs" % (sum(len(r["obligations"]) for r in rs), bad, time.time() - t))
