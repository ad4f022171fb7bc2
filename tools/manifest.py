"""Rewrites MANIFEST.json from properties.jsonl and the checks present."""
import importlib.util, json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
TECH = {
 "hist": "explicit-state exploration (BFS over all operation histories to a depth bound) of the real objects in lockstep with a reference model",
 "input": "bounded exhaustive enumeration of the input/configuration space, every execution of the real code compared with an independent reference model",
 "both": "bounded exhaustive enumeration of inputs/configurations plus BFS over all operation histories of the real objects, in lockstep with a reference model",
}
KIND = dict(T01="hist", T02="both", T03="both", T04="hist", T05="input", T06="input", A01="input", A02="both", A03="both", A04="input", A05="both",
            A06="input", A07="input", A08="input", A09="input", A10="hist", A11="input", W01="input", W02="input", W03="input", W04="hist", W05="hist", W06="input", W07="input",
            M01="input", M02="hist", M03="input", M04="input", M05="both", M06="input", M07="input", P01="hist", P02="hist", P03="input", P04="both", P05="input",
            S01="hist", S02="hist", S03="input", S04="input", S05="both", S06="hist", S07="hist", I01="hist", U01="input", U02="input", U03="input", U04="input", E01="both")
sys.path.insert(0, H)
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    fn = os.path.join(H, "checks", i.lower() + ".py")
    if not os.path.exists(fn):
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
        continue
    src = open(fn).read()
    import ast
    ns = {}
    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") in ("BOUNDS", "ASSUMPTIONS"):
            ns[node.targets[0].id] = eval(compile(ast.Expression(node.value), fn, "eval"))
    note = ("Exhaustive within the stated bounds, on the real code of the working tree: " + ns["BOUNDS"]["quick"] + ". Outside the bounds nothing is claimed. "
            "Trusts: numpy/scipy/obspy/matplotlib and the reference model in the check. Assumes: " + "; ".join(ns["ASSUMPTIONS"]) + ".")
    checks.append(dict(property=i, quick_cmd=f"./run.sh {i} quick", thorough_cmd=f"./run.sh {i} thorough", evidence_file=f"evidence/{i}.json",
                       technique="model checking: " + TECH[KIND[i]], level="model_checking", level_note=note))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="No hooks are needed: the checks drive the public API of the code in /repo's working tree (imported without byte-code caching). "
               "Genuine defects repaired in /repo are listed in known_findings.jsonl.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
