#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "path-sensitive abstract interpretation of the package source (heap/typestate analysis)"
NOTE = ("Static: the abstract interpreter explores every path of every listed entry point from every listed abstract pre-state over finite symbolic domains, without running the code and without a solver. "
        "Bounded in config shape and argument kinds; trusts the transfer functions for built-ins/stdlib and the stated contract of the grammar. Evidence lists obligations, discharged ones and incomplete ones.")
P = []


def prop(id, title, statement, over, text, why, files, mech, tech=AI, note=NOTE, state=None, observe=None, claimed=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note, state=state, observe=observe, claimed=claimed, reason=reason))


exec(open(os.path.join(HERE, "tools", "table.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}
            if p["state"]:
                a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            if p["observe"]:
                a["observe_at"] = p["observe"]
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "python3 -m py_compile check.py lib/sa/*.py lib/props/*.py",
        "checks": [
            {"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} --tier quick", "thorough_cmd": f"python3 check.py {p['id']} --tier thorough", "technique": p["tech"], "level": "other", "level_note": p["note"]}
            for p in P if p["claimed"]
        ],
        "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in P if not p["claimed"]],
        "notes": "Known findings and repaired defects: known-findings.txt. Design and limits: DESIGN.md. The tables are generated by tools/mk.py from tools/table.py.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
