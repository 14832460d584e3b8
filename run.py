#!/usr/bin/env python3-vt
"""run.py <property> [--tier quick|thorough] : decide one property from /repo's source."""
import argparse, importlib, json, os, sys, time
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sa.check import Ctx, REFUTED, PROVED, UNDECIDED  # noqa: E402


def known_findings(pid):
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith(f"known: property={pid} "):
                key, _, txt = line[len(f"known: property={pid} "):].partition(" :: ")
                out.append((key.strip(), txt.strip()))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--noev", action="store_true", help="do not write evidence (development)")
    a = ap.parse_args()
    t0 = time.time()
    ctx = Ctx(a.pid, a.repo, a.tier)
    mod = importlib.import_module("props." + a.pid)
    mod.check(ctx)
    wall = time.time() - t0
    kf = known_findings(a.pid)
    viol, known = [], []
    for o in ctx.obs:
        if o["status"] != REFUTED:
            continue
        key = f"{o['rule']}@{o['construct']}"
        hit = [k for k in kf if k[0] == key]
        (known if hit else viol).append((key, o, hit[0][1] if hit else ""))
    n = {s: sum(1 for o in ctx.obs if o["status"] == s) for s in (PROVED, REFUTED, UNDECIDED)}
    ev = {
        "property": a.pid, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
        "coverage": {
            "explanation": getattr(mod, "EXPLAIN", mod.__doc__ or "").strip(),
            "obligations": len(ctx.obs), "discharged": n[PROVED], "refuted": n[REFUTED], "undecided": n[UNDECIDED],
            "functions_analysed": sorted(ctx._session.I.functions_seen) if ctx._session else [],
            "calls_interpreted": ctx._session.I.calls_seen if ctx._session else 0,
            "files_parsed": len(ctx._pkg.files) if ctx._pkg else 0,
            "rules": sorted({o["rule"] for o in ctx.obs}),
            **ctx.counts,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "obligations": ctx.obs,
        "violations": len(viol),
        "violation_reports": [{"key": k, **o} for k, o, _ in viol],
        "known_findings": [{"key": k, **o} for k, o, _ in known],
        "wall_s": round(wall, 3),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not a.noev:
        with open(os.path.join(HERE, "evidence", f"{a.pid}.json"), "w", encoding="utf-8") as fh:
            json.dump(ev, fh, indent=1)
    for k, o, txt in known:
        print(f"KNOWN-FINDING: property={a.pid} {k} {txt}")
    print(f"{a.pid}: {n[PROVED]} proved, {n[REFUTED]} refuted, {n[UNDECIDED]} undecided in {wall:.1f} s")
    if a.v:
        for o in ctx.obs:
            if o["status"] != PROVED:
                print("  ", o["status"], o["rule"], o["construct"], "|", o["detail"][:600], "|", o["loc"])
    if viol:
        rp = os.path.join(HERE, "evidence", f"replay_{a.pid}.json")
        with open(rp if not a.noev else os.devnull, "w", encoding="utf-8") as fh:
            json.dump([{"key": k, **o} for k, o, _ in viol], fh, indent=1)
        for k, o, _ in viol:
            print(f"  {o['rule']} violated at {o['construct']} [{o['loc']}]: {o['detail'][:400]}")
        print(f"VIOLATION property={a.pid} replay={rp}")
        return 1
    if not ctx.obs:
        print("no obligation could be generated")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
