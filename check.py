#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--root DIR]: decide one property from the source in /repo."""
import argparse
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.setrecursionlimit(20000)


def known_findings(prop):
    out = {}
    with open(os.path.join(HERE, "known-findings.txt")) as f:
        for line in f:
            line = line.strip()
            if line.startswith(f"known: property={prop} key="):
                rest = line[len(f"known: property={prop} key=") :]
                key, _, text = rest.partition(" :: ")
                out[key.strip()] = text.strip()
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=("quick", "thorough"))
    ap.add_argument("--root", default=os.environ.get("VERIF_ROOT", "/repo"))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    mod = importlib.import_module("props." + a.property.lower())
    rep = mod.check(a.root, a.tier)
    wall = time.time() - t0
    known = known_findings(a.property)
    groups = {}
    for f in rep.findings:
        groups.setdefault(f[0], []).append(f)
    bad = []
    for key in sorted(groups):
        fs = groups[key]
        if key in known:
            print(f"KNOWN-FINDING: property={a.property} {key}: {known[key]}")
            continue
        bad.append((key, fs))
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(a.property + "-"):
            os.unlink(os.path.join(rdir, f))
    for i, (key, fs) in enumerate(bad):
        if i >= 25 and not a.v:
            break
        path = os.path.join(rdir, f"{a.property}-{i}.txt")
        f0 = fs[0]
        with open(path, "w") as out:
            out.write(f"property {a.property}: {key}\n{f0[1]}\nat {f0[2]} in {f0[3]}\n{len(fs)} path(s) of this kind\n\n")
            out.write("\n".join(f0[4]) + "\n")
        print(f"VIOLATION property={a.property} replay={path}")
        print(f"  {key}: {f0[1]} at {f0[2]} in {f0[3]} ({len(fs)} paths)")
    ev = {
        "property": a.property,
        "tier": a.tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "other",
        "coverage": rep.cov,
        "assumptions": rep.assumptions,
        "wall_s": round(wall, 2),
        "violations": len(bad),
    }
    with open(os.path.join(HERE, "evidence", f"{a.property}.json"), "w") as out:
        json.dump(ev, out, indent=1)
        out.write("\n")
    c = {k: v for k, v in rep.cov.items() if isinstance(v, int)}
    print(f"{a.property} {a.tier}: {len(bad)} violation(s), {len(groups) - len(bad)} known; {c}; {wall:.1f}s")
    if a.v:
        print(json.dumps(rep.cov.get("incomplete", [])[:60], indent=0))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
