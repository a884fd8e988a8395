"""MANIFEST.json from properties.jsonl and the harness modules present"""
import json, os, ast
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(os.path.join(V, "tools/not_applicable.json"))) if os.path.exists(os.path.join(V, "tools/not_applicable.json")) else {}
have = {}
for f in sorted(os.listdir(os.path.join(V, "harness"))):
    if f[0] == "c" and f[1:3].isdigit():
        t = ast.parse(open(os.path.join(V, "harness", f)).read())
        for n in t.body:
            if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "BOUNDS":
                have[f[:3].upper()] = eval(compile(ast.Expression(n.value), f, "eval"))
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in have:
        checks.append({"property": p, "quick_cmd": "./check " + p, "thorough_cmd": "VERIF_TIER=thorough ./check " + p,
                       "evidence_file": "evidence/%s.json" % p,
                       "technique": "symbolic execution of the real Python source, assertions decided by z3, counterexamples replayed on the real code",
                       "level": "model_checking", "level_note": "bounded: " + have[p] + ("; also 'wide' cases (reals in [-1e12,1e12]) and 'tiny' ones (in [-2^-30,2^-30])" if p not in ("C14", "C15", "C27") else "") + " and 'large' cases (tens to hundreds of items, 1-3 of them symbolic)"})
    else:
        na.append({"property": p, "reason": NA.get(p, "no check built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "na")
