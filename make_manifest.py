"""Writes MANIFEST.json from properties.jsonl and the check modules."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
T = {
 "C01": "property-based testing: exact linear-algebra oracle, round trips",
 "C02": "property-based testing: congruence and in-cell predicates, metamorphic translations",
 "C03": "property-based testing against brute-force enumeration of periodic images",
 "C04": "property-based testing: bijection with the enumerated cell x motif set",
 "C05": "stateful (history) property-based testing against a list-of-sites model",
 "C06": "property-based round-trip testing",
 "C07": "stateful (history) property-based testing against a dictionary model with alias probes",
 "C08": "stateful (history) property-based testing against a list-of-states model",
 "C09": "property-based round-trip testing of generated results",
 "C10": "property-based testing of generated update rules against an independent interpreter",
 "C11": "differential property-based testing (parallel, serial, interpreter) with schedule skew",
 "C12": "property-based testing of generated rules against a queue model",
 "C13": "property-based testing against brute-force minimum-image distances",
 "C14": "property-based testing against brute-force congruence matching",
 "C15": "property-based testing of generated builder trees: membership and coverage of the outcome set",
 "C16": "property-based testing against set definitions on the torus",
 "C17": "property-based testing against an independent automaton interpreter",
 "C18": "property-based testing: majority and fill predicates on every transition",
 "C19": "property-based testing against exact rational region predicates",
 "C20": "property-based testing: validity predicates over seeded random setups",
 "C21": "property-based testing against a direct scan",
 "C22": "property-based testing against direct counts on an independent replay",
 "C23": "property-based testing: pixel-by-pixel predicate",
 "C24": "property-based testing: injectivity and consistency predicates",
 "C25": "property-based testing: frame-by-frame comparison with step images",
 "C26": "property-based testing: bijection of sites modulo the lattice, round trips",
 "C27": "property-based testing against exact formulas",
 "C29": "property-based testing: recorded cubes and pixels against a cell-by-cell predicate",
 "C30": "metamorphic property-based testing: interrupted and continued runs against one whole run",
 "C31": "metamorphic property-based testing: equal seeds, in this and another process",
 "C32": "fault-injecting property-based testing: raised errors against the undisturbed run",
 "C33": "metamorphic property-based testing: every answer on the duplicate against the original",
 "C34": "stateful (call-sequence) property-based testing: arguments compared with copies",
 "C35": "metamorphic property-based testing: the same coordinates in different forms",
 "C36": "metamorphic property-based testing: two sessions interleaved in one process against each alone in a fresh one",
 "C37": "metamorphic property-based testing: symmetry of the description and of patterns",
 "C28": "stateful (history) property-based testing against a site model",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    if i not in T:
        continue
    src = open(os.path.join(HERE, "pbt", i.lower() + ".py")).read()
    ns = {}
    import ast
    for n in ast.parse(src).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", None) in ("RULE", "ASSUMPTIONS"):
            ns[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append({
        "property": i,
        "quick_cmd": "/opt/venv/bin/python check.py " + i,
        "thorough_cmd": "VERIF_TIER=thorough /opt/venv/bin/python check.py " + i,
        "technique": T[i],
        "level": "exploration",
        "level_note": "Generated search, not a proof: " + ns["RULE"] + ". Assumes: " + "; ".join(ns.get("ASSUMPTIONS") or ["nothing beyond the oracle"]) + ".",
    })
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python check.py --selftest",
     "checks": checks, "not_applicable": [{"property": p["id"], "reason": ""} for p in props if p["id"] not in T],
     "notes": "Pure Python: the checks import /repo/src directly, nothing is built. No hooks are needed in /repo."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
