"""Rewrites MANIFEST.json and properties.jsonl from checks/*.py and properties_src.py."""
import ast, glob, json, os, runpy, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = runpy.run_path(os.path.join(V, "tools", "properties_src.py"))
P = src["P"]
NA = runpy.run_path(os.path.join(V, "tools", "not_applicable.py"))["NA"]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
ids = [d["id"] for d in P]
checks, have = [], set()
for path in sorted(glob.glob(os.path.join(V, "checks", "c[0-9][0-9].py"))):
    cid = os.path.basename(path)[:-3].upper()
    assert cid in ids, cid
    have.add(cid)
    tree = ast.parse(open(path).read())
    consts = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("BOUNDS", "OUTSIDE", "ASSUMPTIONS"):
            consts[n.targets[0].id] = ast.literal_eval(n.value)
    note = "Bounded: " + consts["BOUNDS"]
    if consts.get("OUTSIDE"):
        note += " Outside the claim: " + consts["OUTSIDE"]
    if consts.get("ASSUMPTIONS"):
        note += " Assumes: " + "; ".join(consts["ASSUMPTIONS"])
    checks.append(dict(
        property=cid,
        quick_cmd=f"python3-vt -m symx.run {cid}",
        thorough_cmd=f"VERIF_TIER=thorough python3-vt -m symx.run {cid}",
        evidence_file=f"evidence/{cid}.json",
        technique="symbolic execution of the real Python source (regenerated from /repo on every run) with z3 deciding every branch and assertion; counterexamples replayed on the unmodified code",
        level="model_checking",
        level_note=note,
    ))
na = [dict(property=i, reason=NA[i]) for i in ids if i not in have]
m = dict(version=1, setup_cmd="python3-vt -c 'import z3, attr, sortedcontainers'", checks=checks, not_applicable=na,
         notes="No hooks in /repo. See DESIGN.md.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", len(na), "not applicable")
