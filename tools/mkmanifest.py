"""Regenerates MANIFEST.json from properties.jsonl and the modules in props/."""
import json, os, re, ast
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
checks, na = [], []
for p in props:
    f = f"{H}/props/{p['id']}.py"
    if os.path.exists(f):
        ns = {}
        for n in ast.parse(open(f).read()).body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("LEVEL", "LEVEL_NOTE", "TECHNIQUE"):
                ns[n.targets[0].id] = ast.literal_eval(n.value)
        checks.append(dict(property=p["id"], quick_cmd=f"python3 vf/run.py {p['id']} --tier quick",
            thorough_cmd=f"python3 vf/run.py {p['id']} --tier thorough",
            technique=ns.get("TECHNIQUE", "contracts on the real functions; VCs generated from /repo's source by symbolic execution, discharged by z3/cvc5; run-time contract checks as replay and bounded stand-in"),
            level=ns.get("LEVEL", "proof"),
            level_note=ns.get("LEVEL_NOTE", "Obligations generated from /repo's current source hold for all inputs, with floats as reals and library calls by assumed contracts; parts out of reach are evaluated at run time on bounded inputs and listed as bounded in the evidence.")))
    else:
        na.append(dict(property=p["id"], reason="check not built yet"))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
         hooks=dict(guard="none", enable="no hooks: /repo carries only fix: commits", source_commits=[]),
         notes="See DESIGN.md. Fixed defects: known-findings.txt.")
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not yet")
