"""refresh the obligation counts quoted in DESIGN.md from the evidence files of the last runs"""
import json
import re
p = "/verif/DESIGN.md"
out = []
for l in open(p).read().split("\n"):
    m = re.match(r"\*\*(C\d+) ", l)
    if m:
        e = json.load(open("/verif/evidence/%s.json" % m.group(1)))["coverage"]
        l = re.sub(r"\(\d+ obligations over \d+ analysed cases, \d+ functions\)", "(%d obligations over %d analysed cases, %d functions)" %
                   (e["obligations"], len(e["entry_points_analysed"]), e["functions_analysed"]), l)
    out.append(l)
open(p, "w").write("\n".join(out))
