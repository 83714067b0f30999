"""writes MANIFEST.json from the unit files"""
import ast, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
NA = {"N03": "the claim is numerical convergence of an iterative eigenvalue search in floating point; no contract within reach of a deductive verifier for this code can state or decide it (there is no machine checked semantics of the dense eigenvalue routines of the tensor library, and the guarantee is probabilistic in the initial state)"}
checks, na = [], []
for p in props:
    f = here + "/vcg/units/unit_%s.py" % p["id"]
    if p["id"] in NA:
        na.append(dict(property=p["id"], reason=NA[p["id"]]))
        continue
    if not os.path.exists(f):
        na.append(dict(property=p["id"], reason="the check of this property is not built yet"))
        continue
    t = ast.parse(open(f).read())
    v = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and getattr(n.targets[0], "id", "") in ("LEVEL", "NOTE", "TECHNIQUE"):
            v[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append(dict(property=p["id"], quick_cmd="python3-vt check.py %s --tier quick" % p["id"], thorough_cmd="python3-vt check.py %s --tier thorough" % p["id"],
                       evidence_file="evidence/%s.json" % p["id"], technique=v.get("TECHNIQUE", "contract-based deductive verification of the real functions (verification conditions from the clang AST, SMT); contracts also evaluated on the compiled code"),
                       level=v["LEVEL"], level_note=v["NOTE"]))
m = dict(version=1, setup_cmd="python3-vt tools/setup.py", checks=checks, not_applicable=na)
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
