"""C21: conversion to plain containers and objects keeps the contents and leaves no config behind."""
from . import common
from .c20 import Fail, REF, evaluate, val
from .catalog import *
from sa.interp import ClassInfo
from sa.sweep import Scn

def otype(lab, n, st):
    md = st.init[st.res(st.init[n.i].attrs["_metadata"]).i]
    t = st.res(md.attrs.get("object_type", NONE))
    return t if isinstance(t, Cls) and lab.clsname(n, st) == "DictConfig" and getattr(t.c, "is_dc", False) else None


def text(v):
    return v == A_INTERP or isinstance(v, K) and isinstance(v.v, str) and "${" in v.v


def raw(lab, n, st):
    """a union node is what it holds"""
    while lab.clsname(n, st) == "UnionNode":
        c = st.res(st.init[n.i].attrs["_content"])
        if not isinstance(c, R):
            return n, c
        n = c
    o = st.init[n.i]
    return n, st.res(o.attrs["_val"]) if "_val" in o.attrs else st.res(o.attrs["_content"])


class Opt:
    def __init__(self, resolve, throw, enum, mode):
        self.resolve, self.throw, self.enum, self.mode = resolve, throw, enum, mode


def options(c, s):
    k, v = s.res(c.k), s.res(c.v)
    t, e = k == TRUE, v == TRUE
    return {
        "t_plain": Opt(False, t, e, "dict"),
        "t_resolve": Opt(True, t, e, "dict"),
        "t_default": Opt(False, False, False, "dict"),
        "t_dc": Opt(False, t, e, "dc"),
        "t_inst": Opt(False, t, e, "inst"),
        "t_object": Opt(True, True, False, "inst"),
    }[c.sc.op]


def expect(lab, root, n, st, o, sink):
    """-> the expected plain form: ("v", value) / ("d", [(key, form)]) / ("l", [form]) / ("o", class, [(field, form)]) / ("same", node) / ("conv", class) / ("any",)

    sink collects the reasons for which the conversion has to fail."""
    host = n
    n, c = raw(lab, n, st)
    if isinstance(c, S):
        # nothing on this path looked at the value
        dom = st.dom(c)
        if o.throw and MISS in dom or o.resolve and any(text(e) for e in dom):
            sink.append(("unseen", n))
        if any(isinstance(e, R) for e in dom):
            return ("any",)
        return ("v", c)
    if c == MISS:
        if o.throw:
            sink.append(("missing", n))
        return ("v", MISS)
    if c == NONE:
        return ("v", NONE)
    if text(c):
        if not o.resolve:
            return ("v", c)
        if not isinstance(c, K):
            sink.append(("maybe", n))
            return ("any",)
        try:
            if host != n:
                raise Maybe
            r = evaluate(lab, root, n, st)
        except Fail as e:
            sink.append(("inter", n) if str(e) != "InterpolationToMissingValueError" else ("tomiss", n))
            return ("any",)
        if r[0] == "str":
            return ("str",)
        if r[0] == "typed":
            sink.append(("maybe", n))
            return ("any",)
        if "_val" in st.init[r[1].i].attrs and otype(lab, n, st) is None and lab.clsname(n, st) in ("DictConfig", "ListConfig"):
            sink.append(("maybe", n))
            return ("any",)
        return expect(lab, root, r[1], st, o, sink)
    if "_val" in st.init[n.i].attrs:
        if o.enum and name_of(c, st) is not None:
            return ("v", K(name_of(c, st)))
        return ("v", c)
    co = st.init[c.i]
    if co.kind == "list":
        return ("l", [expect(lab, root, st.res(b), st, o, sink) for b in co.xs])
    ot = otype(lab, n, st)
    if ot is not None and o.mode == "dc":
        return ("same", n)
    if ot is not None and o.mode == "inst":
        o = Opt(True, True, False, "inst")
        fs = []
        noinit = {f[0] for f in ot.c.fields if not lab.m.dc_init(f, st)}
        for a, b in co.ents:
            a, b = st.res(a), st.res(b)
            mine = []
            e = expect(lab, root, b, st, o, mine)
            if a.v in noinit and [x for x in mine if x[1] == raw(lab, b, st)[0]] == mine and mine and mine[0][0] in ("missing", "unseen"):
                if mine[0][0] == "missing":
                    continue  # a missing value of a field that is not an argument of __init__ stays unset
            sink.extend(mine)
            fs.append((a.v, e))
        return ("o", ot, fs)
    ents = []
    for a, b in co.ents:
        a = st.res(a)
        if o.enum and name_of(a, st) is not None:
            a = K(name_of(a, st))
        ents.append((a, expect(lab, root, st.res(b), st, o, sink)))
    return ("d", ents)


class Maybe(Exception):
    pass


def name_of(v, st):
    """the name of an enum member value"""
    o = st.init.get(v.i) or st.heap.get(v.i) if isinstance(v, R) else None
    if o is None or o.kind != "inst" or "_name_" not in o.attrs:
        return None
    return st.res(o.attrs["_name_"]).v


def differs(lab, exp, v, st, where):
    """-> what is wrong with an actual result, or None"""
    v = st.res(v)
    kind = exp[0]
    if kind == "any":
        return leftover(lab, v, st, where)
    if kind == "str":
        vals = st.dom(v) if isinstance(v, S) else (v,)
        return None if all(isinstance(e, K) and isinstance(e.v, str) or getattr(e, "pytype", None) is str for e in vals) else f"{where} is {lab.show(v, st)} instead of a text"
    if kind == "same":
        return None if v == exp[1] else f"{where} is not the DictConfig of the structured config"
    if kind == "v":
        if v == exp[1]:
            return None
        return f"{where} is {lab.show(v, st)} instead of {lab.show(exp[1], st)}"
    o = st.heap.get(v.i) if isinstance(v, R) else None
    if o is None:
        return f"{where} is {lab.show(v, st)} instead of a container"
    if kind == "o":
        if o.kind != "inst" or o.cls[0] is not exp[1].c:
            return f"{where} is not an instance of {exp[1].c.name}"
        for f, e in exp[2]:
            if e == ("v", MISS):
                continue
            if f not in o.attrs:
                return f"{where}.{f} is not set"
            d = differs(lab, e, o.attrs[f], st, f"{where}.{f}")
            if d:
                return d
        return None
    if o.kind != ("dict" if kind == "d" else "list"):
        return f"{where} is a {o.kind} ({lab.show(v, st)}) instead of a {'dict' if kind == 'd' else 'list'}"
    if kind == "l":
        if len(o.xs) != len(exp[1]):
            return f"{where} has {len(o.xs)} elements instead of {len(exp[1])}"
        for i, (e, x) in enumerate(zip(exp[1], o.xs)):
            d = differs(lab, e, x, st, f"{where}[{i}]")
            if d:
                return d
        return None
    got = [(st.res(a), b) for a, b in o.ents]
    if [a for a, _ in got] != [a for a, _ in exp[1]]:
        return f"{where} has keys {[lab.show(a, st) for a, _ in got]} instead of {[lab.show(a, st) for a, _ in exp[1]]}"
    for (a, e), (_, x) in zip(exp[1], got):
        d = differs(lab, e, x, st, f"{where}[{lab.show(a, st)}]")
        if d:
            return d
    return None


def leftover(lab, v, st, where):
    """a result that still contains config nodes or unresolved texts"""
    if isinstance(v, R):
        if lab.isnode(v, st):
            return f"{where} is a config node"
        o = st.heap.get(v.i)
        for x in (o.xs if o.kind == "list" else [b for _, b in o.ents] if o.kind == "dict" else ()):
            d = leftover(lab, st.res(x), st, where)
            if d:
                return d
    elif isinstance(v, K) and isinstance(v.v, str) and "${" in v.v:
        return f"{where} is the unresolved text {v.v}"
    return None


def judge(c, t, v, s):
    lab = c.lab
    o = options(c, s)
    sink = []
    try:
        exp = expect(lab, c.root, c.tgt, s, o, sink)
    except Maybe:
        return
    must = [x for x in sink if x[0] in ("missing", "inter") or t == "n" and x[0] == "unseen"]
    may = [x for x in sink if x not in must]
    if t == "x":
        x = lab.excname(v, s)
        sup = set(lab.excnames(v, s))
        if not must and not may:
            yield "fails", f"the conversion raises {x} although every element can be converted", None
        elif not may and {a for a, _ in must} == {"missing"} and "MissingMandatoryValue" not in sup:
            yield "error", f"the conversion of a missing value raises {x} instead of MissingMandatoryValue", None
        elif not sup & {"MissingMandatoryValue", "InterpolationResolutionError", "ValidationError"}:
            yield "error", f"the conversion raises {x}", None
        return
    if must:
        yield "passes", "the conversion succeeds although " + {"missing": "a missing value was to be rejected", "inter": "an interpolation cannot be resolved", "unseen": "a value that may be missing or an interpolation is not looked at"}[must[0][0]], None
        return
    d = differs(lab, exp, v, s, "result")
    if d:
        yield "content", d, None


def scenarios(tier):
    q = tier == "quick"
    out = []
    B = (TRUE, FALSE)
    OPS = ("t_plain", "t_resolve", "t_default", "t_dc", "t_inst", "t_object")
    LIT = ("${nokey}",)
    rec = {"recursion": 400, "maxrec": 16}

    def add(su, p, op, tag, **ex):
        ks, vs = (B, ("bool", "false")) if op in ("t_plain", "t_resolve", "t_dc", "t_inst") else ((NONE,), ("none",))
        if ex.get("lits") is not None and op in ("t_resolve", "t_object", "t_inst"):
            ex = dict(rec, **ex)
        out.append(Scn(su, p, op, ks, vs, tag=tag, leaves=False, cont=(), extra=ex))

    for su, ps, n in (("s_conv", ((), ("d",), ("l",)), 8), ("s_conv_obj", ((), ("o",), ("l",), ("n",), ("d",)), 19), ("s_conv_conts", ((), ("d",), ("l",)), 9), ("s_struct", ((), ("lst",)), 7), ("s_conts", ((),), 6), ("s_leafs", ((),), 12), ("s_keyed", ((),), 4)):
        for op in OPS:
            for p in ps:
                for i in range(1, n + 1, 2):
                    add(su, p, op, f"leaf{i}", lits=LIT, only=(i, i + 1))
                if p and su != "s_conv":
                    continue
    for su, ps, specials in (
        ("s_conv_conts", ((), ("d",)), (("d",), ("d", "s"), ("l",), ("l", 1), ("o",), ("t",), ("tl",))),
        ("s_conv_obj", ((), ("o",)), (("o",), ("o", "a"), ("o", "la"), ("l",), ("l", 0), ("d", "o"), ("n", "sub"))),
        ("s_struct", ((),), (("addr",), ("lst",), ("dct",))),
    ):
        for op in OPS:
            for p in ps:
                for sp in specials:
                    if sp[: len(p)] == p:
                        add(su, p, op, "sp-" + ".".join(map(str, sp)), lits=LIT, only=(1,), special=sp)
    for op in OPS:
        add("s_conv_special", (), op, "fixed")
        add("s_conv_special", ("nd",), op, "fixed")
        add("s_conv_special", ("l",), op, "fixed")
        for i in (1, 2, 3, 5, 6):
            add("s_conv_inter", (), op, f"fix{i}", lits=LIT, only=(i,))
        for p in (("id",), ("ls",), ("d",)):
            add("s_conv_inter", p, op, "fixed", lits=LIT, only=(1,))
    return out


def check(root, tier):
    return common.run(
        root, tier, scenarios(tier), judge,
        rule="for every final state of to_container / to_object: the result equals the plain form computed from the heap of the pre-state (same keys in the same order, same values, texts of interpolations kept or replaced by what they lead to, enum members as names if asked for, structured configs as objects if asked for), contains no config node; a missing value makes the call fail exactly when that was asked for, an unresolvable interpolation exactly when resolving",
        explanation="Path-sensitive abstract interpretation of the conversions; the expected plain form is computed by the checker on the abstract heap.",
    )
