"""run.py PROP OUT.json [scale]  |  run.py --replay FILE"""
import os
import sys
import json
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import core
import cases1
import cases2
import cases3
import cases4


def main():
    if sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2]))
        for p, name, f, q, t in core.CASES:
            if name == d["case"] and p == d["property"]:
                r = core.run_case(name, f, d["seed"], d["index"], limit=600)
                print(json.dumps(r, indent=1))
                sys.exit(1 if r["status"] == "fail" else 0)
        sys.exit("no such case")
    prop, out = sys.argv[1], sys.argv[2]
    scale = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    tier = os.environ.get("VERIF_TIER", "quick")
    r = core.run(prop, int(os.environ.get("VERIF_SEED", "1")), tier, float(os.environ.get("BATTERY_BUDGET", "60")), jobs=int(os.environ.get("BATTERY_JOBS", "4")), scale=scale)
    json.dump(r, open(out, "w"))


if __name__ == "__main__":
    main()
