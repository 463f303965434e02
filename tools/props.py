#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run after editing)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "vlib"))
sys.dont_write_bytecode = True
import registry

X = "exchange/src/exchange.rs"
VA = "exchange/src/exchange/virtual_margin_account.rs"
VP = "exchange/src/exchange/virtual_margin_pool.rs"
VC = "exchange/src/exchange/virtual_config.rs"
VO = "exchange/src/exchange/virtual_oracle.rs"
MA = "account/src/margin_account.rs"
MP = "pool/src/margin_pool.rs"
CF = "config/src/config.rs"
OR = "oracle/src/oracle.rs"

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                    **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]} if state else {}),
                    **({"observe_at": list(observe)} if observe else {}), "hook_needed": None}})


exec(open(os.path.join(V, "tools", "props_list.py")).read())

NA = {}
exec(open(os.path.join(V, "tools", "na_list.py")).read())

LEVEL_NOTE = ("Sound over-approximation of the real MIR up to the listed models: every path, loop iteration and argument "
              "value of the analysed entry points is covered; arithmetic is exact rational (Decimal rounding and "
              "overflow panics are not modelled); the Radix engine and Scrypto library functions are trusted as modelled.")

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
ids = [p["id"] for p in P]
assert len(ids) == len(set(ids)), "duplicate id"
checks = []
for p in P:
    if p["id"] in registry.REG:
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"],
                       "thorough_cmd": "python3 check.py %s" % p["id"],
                       "technique": "static analysis: " + registry.REG[p["id"]][2], "level": "other",
                       "level_note": LEVEL_NOTE})
na = []
for p in P:
    if p["id"] not in registry.REG:
        if p["id"] not in NA:
            print("no check and no reason for", p["id"])
        na.append({"property": p["id"], "reason": NA.get(p["id"], "not built yet")})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 vlib/facts.py", "checks": checks, "not_applicable": na,
               "notes": "All checks read the MIR of /repo's current tree (tools/mirdump) and decide by the rules in "
                        "vlib/rules; see DESIGN.md."}, f, indent=1)
    f.write("\n")
for p in P:
    if len(p["title"]) > 80:
        print("title too long", p["id"], len(p["title"]))
    if p["statement"].count(". ") > 2:
        print("statement long", p["id"])
for k in registry.REG:
    if k not in ids:
        print("no property for check", k)
print(len(P), "properties", len(checks), "checks", len(na), "n/a")
