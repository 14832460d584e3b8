#!/usr/bin/env python3-vt
"""Writes properties.jsonl and MANIFEST.json; a property is claimed when props/<id>.py exists."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
Q = "quantfinlib/"
FI, FB, TF, MF = Q + "feature/indicators.py", Q + "feature/bands.py", Q + "feature/transformations.py", Q + "feature/microstructure.py"


def P(id, title, statement, over, qtext, why, files, mech, tech, note):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, tech=tech, note=note)


EXEC = "abstract interpretation to value terms; normal-form equivalence with a reference definition"
from tools.catalog_data import PROPS, NA  # noqa: E402


def main():
    props, checks, na = [], [], []
    for p in PROPS:
        files = [f if f.startswith("quantfinlib") else Q + f for f in p["files"]]
        for f in files:
            assert os.path.exists(os.path.join("/repo", f)), f
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        props.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
                      "quantifier": {"over": p["over"], "text": p["qtext"]},
                      "why_tests_cant": p["why"],
                      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}})
        if os.path.exists(os.path.join(ROOT, "props", p["id"] + ".py")):
            checks.append({"property": p["id"], "quick_cmd": f"python3-vt run.py {p['id']} --tier quick",
                           "thorough_cmd": f"python3-vt run.py {p['id']} --tier thorough",
                           "technique": p.get("tech") or EXEC, "level": "other", "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": p.get("na", "no check has been built for it yet")})
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
        for p in props:
            fh.write(json.dumps(p) + "\n")
    m = {"version": 1, "setup_cmd": "python3-vt -m compileall -q sa props spec run.py", "checks": checks, "not_applicable": na,
         "notes": "Every check parses /repo/quantfinlib on each run and decides from the source; nothing of /repo is imported or executed."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
    print(len(props), "properties", len(checks), "claimed")


main()
