#!/usr/bin/env python3
"""Decides one property of /repo's current source.

    check.py --property C07 [--tier quick|thorough] [--repo /repo] [--only ID-SUBSTRING]
    check.py --replay evidence/replay/C07-0.json

Exit 0: no violation (known findings are printed); exit 1: violation; exit 2:
the source no longer contains what the property talks about, or an internal error.
"""
import argparse
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
KNOWN = os.path.join(HERE, "known-findings.txt")


def load_known():
    """known: property=<id> key=<rule|file|function|message>  -- see DESIGN.md"""
    out = []
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            if ln.startswith("known:"):
                head, _, key = ln[6:].partition(" key=")
                prop = head.strip().split("=", 1)[1]
                key, _, note = key.partition(" -- ")
                out.append((prop, key.strip(), note.strip()))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--only", default="")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=os.cpu_count() or 4)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay:
        r = json.load(open(a.replay))
        a.property, a.only = r["property"], r.get("case_id", "")
    prop = a.property
    from sa import driver
    t0 = time.time()
    try:
        res = driver.decide(prop, a.tier, a.repo, a.only, a.jobs)
    except driver.Missing as e:
        print(f"ERROR: {e}")
        return 2
    known = load_known()
    used = set()
    viol, kf = [], []
    for f in res.findings:
        k = next((k for k in known if k[0] == prop and k[1] == f["key"]), None)
        if k:
            if k not in used:
                used.add(k)
                kf.append((k, f))
        else:
            viol.append(f)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ev = dict(property=prop, tier=a.tier if a.tier in ("quick", "thorough") else "quick", seed=seed,
              level="other", coverage=res.coverage, assumptions=res.assumptions,
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    ev["coverage"]["known_findings_reported"] = [k[1] for k, _ in kf]
    if not a.only:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fp:
            json.dump(ev, fp, indent=1)
    for k, f in kf:
        print(f"KNOWN-FINDING: property={prop} {f['file']}:{f['line']} {f['func']}: {k[2] or f['msg']}")
    if viol:
        rd = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        for n, f in enumerate(viol):
            path = os.path.join(rd, f"{prop}-{n}.json")
            with open(path, "w") as fp:
                json.dump(dict(f, property=prop), fp, indent=1)
            print(f"{f['file']}:{f['line']}: {f['func']}: [{f['rule']}] {f['msg']}")
            print(f"    in {f['case']}" + (f" when {f['cond']}" if f.get("cond") else ""))
            for c in f.get("chain", ())[:12]:
                print(f"    via {c}")
            print(f"VIOLATION property={prop} replay={path}")
    c = res.coverage
    print(f"{prop}: {len(viol)} violation(s), {len(kf)} known; " + res.summary + f"; {ev['wall_s']} s")
    if a.v:
        for u in res.undetermined[:40]:
            print("  undetermined:", u)
    return 1 if viol else 0


if __name__ == "__main__":
    sys.exit(main())
