#!/usr/bin/env python3-vt
"""Writes DESIGN.md: tools/design_head.md, the per-property sections taken from the catalogue and the checks, tools/design_tail.md,
and the table of planted bugs (tools/planted.json: {seed: checks that report it})."""
import ast, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from tools.catalog_data import PROPS  # noqa: E402


def consts(pid):
    out = {}
    for n in ast.parse(open(os.path.join(ROOT, "props", pid + ".py")).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("EXPLAIN", "ASSUMPTIONS"):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


def main():
    t = lambda f: open(os.path.join(ROOT, "tools", f)).read()
    out = [t("design_head.md")]
    bounds = json.load(open(os.path.join(ROOT, "tools", "bounds.json")))
    for p in PROPS:
        out.append(f"### {p['id']} {p['title']}\n")
        if not os.path.exists(os.path.join(ROOT, "props", p["id"] + ".py")):
            out.append("*Not applicable.* " + p["na"] + "\n")
            continue
        c = consts(p["id"])
        out.append(f"*Technique.* {p.get('tech') or 'normal-form equivalence with a reference definition'}.\n")
        out.append(" ".join(c.get("EXPLAIN", "").split()) + "\n")
        if c.get("ASSUMPTIONS"):
            out.append("*Assumes.* " + "; ".join(c["ASSUMPTIONS"]) + ".\n")
        if p["id"] in bounds:
            out.append("*Bounds and notes.* " + bounds[p["id"]] + "\n")
        out.append("*Beyond tests.* " + p["why"] + "\n")
    out.append(t("design_tail.md"))
    planted = json.load(open(os.path.join(ROOT, "tools", "planted.json")))
    out.append("| planted bug | property | what it breaks | reported by |\n|---|---|---|---|")
    for s in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        f = os.path.join(ROOT, "seeded", s, "meta.json")
        if os.path.exists(f):
            m = json.load(open(f))
            out.append(f"| {s} | {m['property']} | {m['what_it_breaks']} | {', '.join(planted.get(s, [])) or '**missed**'} |")
    with open(os.path.join(ROOT, "DESIGN.md"), "w") as fh:
        fh.write("\n".join(out) + "\n")


main()
