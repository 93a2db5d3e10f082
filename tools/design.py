#!/usr/bin/env python3
"""refresh the generated parts of DESIGN.md from evidence/*.json and tools/caught.json"""
import json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
sys.path[:0] = []
tab, bnd = ["| id | functions under contract | obligations proved | seconds |", "|---|---|---|---|"], []
for i in ids:
    p = "%s/evidence/%s.json" % (H, i)
    if not os.path.exists(p):
        continue
    e = json.load(open(p)); c = e["coverage"]
    fs = {}
    for f in c["functions_under_contract"]:
        m, _, n = f.partition("."); fs.setdefault(m, []).append(n.split(".")[-1])
    tab.append("| %s | %s | %d of %d | %d |" % (i, "; ".join("%s: %s" % (m, ", ".join(n)) for m, n in fs.items()), c["discharged"], c["obligations"], e["wall_s"]))
    for k, v in c["bounded_parts_never_counted_as_unbounded"].items():
        bnd.append("* %s `%s`: %s" % (i, k, v))
bugs = []
p = H + "/tools/caught.json"
if os.path.exists(p):
    d = json.load(open(p))
    bugs = ["| planted bug | caught by | how |", "|---|---|---|"]
    for k in sorted(d):
        bugs.append("| %s | %s | %s |" % (k, d[k]["property"], d[k]["how"]))
    n = sum(v["how"] != "missed" for v in d.values())
    bugs.append("")
    bugs.append("%d of %d caught, %d with a failing input." % (n, len(d), sum(v["how"] == "input" for v in d.values())))
s = open(H + "/DESIGN.md").read()
for name, lines in (("TABLE", tab), ("BOUNDED", bnd), ("BUGS", bugs)):
    s = re.sub(r"<!-- %s -->.*?<!-- /%s -->" % (name, name), lambda m: "<!-- %s -->\n%s\n<!-- /%s -->" % (name, "\n".join(lines), name), s, flags=re.S)
open(H + "/DESIGN.md", "w").write(s)
