"""Rewrites the generated part of DESIGN.md (after the marker) from properties.jsonl, the checks,
known_findings.json and tools/not_applicable.py."""

import ast
import json
import pathlib
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT / "tools"))
from not_applicable import NA  # noqa: E402

MARK = "<!-- generated by tools/design.py -->"
VER = {"ASSUMPTIONS": [], "OUTSIDE": "", "BOUNDS": ""}


def consts(path):
    tree = ast.parse(path.read_text())
    out = dict(VER, doc=ast.get_docstring(tree) or "")
    for n in tree.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", None) in VER:
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


def main():
    props = [json.loads(x) for x in (ROOT / "properties.jsonl").read_text().splitlines() if x.strip()]
    fixed = json.loads((ROOT / "known_findings.json").read_text())["fixed"]
    seeds = {}
    for p in sorted((ROOT / "seeded").glob("*/meta.json")):
        m = json.loads(p.read_text())
        seeds.setdefault(m["property"], []).append((p.parent.name, m))
    out = [MARK, "", "## Per property", ""]
    na = []
    for p in props:
        path = ROOT / "checks" / f"{p['id'].lower()}.py"
        if not path.exists():
            na.append(p)
            continue
        c = consts(path)
        out += [f"### {p['id']} {p['title']}", ""]
        rest = c["doc"].split("\n", 1)[1].strip() if "\n" in c["doc"] else ""
        out += [f"*Specified:* {p['statement']}", ""]
        if rest:
            out += [f"*How:* {' '.join(rest.split())}", ""]
        anchors = ", ".join(f"`{m['name']}`" for m in p["anchors"]["mechanism"])
        out += [f"*Real code executed symbolically (entry points):* {anchors} in " + ", ".join("`" + f.replace("hypothesis-python/src/", "") + "`" for f in p["anchors"]["files"]) + ".", ""]
        out += [f"*Bounds:* {c['BOUNDS'].rstrip('.')}.", ""]
        if c["OUTSIDE"]:
            out += [f"*Outside:* {c['OUTSIDE'].rstrip('.')}.", ""]
        if c["ASSUMPTIONS"]:
            out += ["*Assumed:* " + "; ".join(c["ASSUMPTIONS"]).rstrip(".") + ".", ""]
        out += [f"*Beyond tests:* {p['why_tests_cant'].rstrip('.')}.", ""]
        mine = [f for f in fixed if f.startswith(f"fixed: property={p['id']} ")]
        for f in mine:
            commit, text = f.split(" ", 2)[2].split(" ", 1)
            out += [f"*Genuine defect found and repaired* (`{commit}`): {text}.", ""]
        for name, m in seeds.get(p["id"], []):
            out += [f"*Planted:* `seeded/{name}` - needs {m['needs']}; caught by {p['id']}.", ""]
    out += ["## Not applicable", ""]
    for p in na:
        out += [f"* **{p['id']} {p['title']}** - {NA[p['id']]}"]
    f = ROOT / "DESIGN.md"
    head = f.read_text().split(MARK)[0].rstrip()
    f.write_text(head + "\n\n" + "\n".join(out) + "\n")


main()
