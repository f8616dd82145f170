"""Turning a sweep over scenarios into a report."""
from sa.sweep import Scn, sweep
from check_report import Report

ASSUME = [
    "The analysed program is the package text under /repo/omegaconf plus the small client text lib/client/client.py; neither is executed.",
    "Transfer functions for Python built-ins and the standard library (lib/sa/models.py, ext.py) are trusted; paths on which a value became unknown to the analysis are counted as imprecise and never reported.",
    "The grammar (parse and parse-tree visiting) is replaced by its contract: an interpolation text fails to parse, or evaluates to what it names through the two callbacks.",
    "Configs are bounded in shape (the set-ups named in the samples); leaf values, container contents (map / none / missing / interpolation), keys and argument values are symbolic over the listed domains.",
]


def run(root, tier, scns, judge, rule, explanation, steps=(1_000_000, 12_000_000), budget=(700, 3000), assume=()):
    rep = Report(rule, explanation)
    q = tier == "quick"
    lab, rs = sweep(root, scns, judge, max_steps=steps[0] if q else steps[1], budget_s=budget[0] if q else budget[1])
    funcs = set()
    inc = []
    tot = dict(outs=0, normal=0, raising=0, imprecise=0, steps=0)
    for r in rs:
        funcs |= r["funcs"]
        for k in tot:
            tot[k] += r[k]
        if not r["complete"]:
            inc.append([r["id"], r["why"]])
        elif r["imprecise"]:
            inc.append([r["id"], f"{r['imprecise']} of {r['outs']} paths imprecise: {r['why']}"])
        rep.findings.extend(r["findings"])
    done = {r["id"] for r in rs}
    for s in scns:
        if s.id not in done:
            inc.append([s.id, "time budget"])
    rep.cov.update(
        obligations=len(scns),
        discharged=sum(1 for r in rs if r["complete"] and not r["imprecise"] and not r["findings"]),
        final_states=tot["outs"],
        normal_returns=tot["normal"],
        exceptional_exits=tot["raising"],
        imprecise_states=tot["imprecise"],
        expression_evaluations=tot["steps"],
        functions_analysed=len([f for f in funcs if not f.startswith("client.")]),
        samples=[s.id for s in scns[:: max(1, len(scns) // 12)]][:14],
        functions=sorted(f for f in funcs if not f.startswith("client."))[:400],
        incomplete=inc,
    )
    if len(rs) == 0 or tot["outs"] == 0:
        rep.cov["explanation"] += " NOTHING WAS DECIDED ON THIS RUN: the analysed code could not be interpreted."
    rep.assumptions = list(ASSUME) + list(assume)
    return rep
