"""C20: an interpolation gives what its chain of references leads to, or fails cleanly."""
import re

from . import common
from .catalog import *
from .c08 import child
from sa.sweep import Scn

READS = ("r_getitem", "r_getattr", "r_get", "r_select", "r_in")
LITS = {
    "top": ("${a}", "${b}", "${c}", "${d.x}", "${nokey}"),
    "deep": ("${a}", "${d}", "${d.x}", "${.y}", "${..a}", "${l.0}", "${a.x}"),
    "text": ("${a}", "p${b}", "${b}${c}", "${d.y}"),
}
NEST = {
    "up": ("${a}", "${a.b}", "${a.b.c}", "${..l}", "${t}"),
    "rel": ("${.e}", "${..c.e}", "${...l.0}", "${....t}", "${.....t}"),
    "thru": ("${a.b.c.d}", "${a.l.1.m}", "${a.b.c}", "${a.b.x.d}", "${t}"),
}
REF = re.compile(r"\$\{(\.*)([\w.]*)\}")


TYP = {"IntegerNode": int, "FloatNode": float, "StringNode": str}


class Fail(Exception):
    pass


def val(lab, n, st):
    o = st.init[n.i]
    v = st.res(o.attrs["_val"]) if "_val" in o.attrs else st.res(o.attrs["_content"])
    return v


def parent(st, n):
    p = st.res(st.init[n.i].attrs.get("_parent", NONE))
    return p if isinstance(p, R) else None


def lookup(lab, root, n, dots, path, st, stack):
    """node a reference inside node n leads to (the last element not yet resolved)"""
    cont = root if not dots else parent(st, n)
    for _ in range(max(0, len(dots) - 1)):
        cont = parent(st, cont)
        if cont is None:
            raise Fail("InterpolationKeyError")
    parts = path.split(".")
    for j, p in enumerate(parts):
        k = K(int(p)) if lab.clsname(cont, st) == "ListConfig" and p.isdigit() else K(p)
        nd = child(lab, cont, k, st)
        if nd is None and lab.clsname(cont, st) == "ListConfig" and not p.isdigit():
            raise Fail("InterpolationResolutionError")
        if nd is None:
            raise Fail("InterpolationKeyError")
        if val(lab, nd, st) == MISS:
            raise Fail("InterpolationToMissingValueError")
        if j == len(parts) - 1:
            return nd
        r = evaluate(lab, root, nd, st, stack, False)
        if r[0] != "node" or "_val" in st.init[r[1].i].attrs or lab.clsname(nd, st) in TYP:
            raise Fail("InterpolationResolutionError")
        cont = r[1]


def ancestors(st, n):
    out = []
    while n is not None:
        out.append(n)
        n = parent(st, n)
    return out


def evaluate(lab, root, n, st, stack=(), push=True):
    """-> ("node", node, value) / ("str",) / ("typed", class); raises Fail

    A typed node on the way converts the value it passes on, or rejects it."""
    v = val(lab, n, st)
    if not (isinstance(v, K) and isinstance(v.v, str) and "${" in v.v):
        return "node", n, v
    if len(stack) > 40:
        raise Fail("InterpolationResolutionError")
    if n in stack:
        raise Fail("InterpolationResolutionError")
    stack = stack + (n,)
    refs = REF.findall(v.v)
    res = None
    for dots, path in refs:
        t = lookup(lab, root, n, dots, path, st, stack)
        if t in ancestors(st, parent(st, n)):
            raise Fail("InterpolationResolutionError")
        res = evaluate(lab, root, t, st, stack)
        if res[0] == "node" and res[1] in ancestors(st, parent(st, n)):
            raise Fail("InterpolationResolutionError")  # the value would contain itself
    if not REF.fullmatch(v.v):
        res = ("str",)
    return ("typed", lab.clsname(n, st)) if lab.clsname(n, st) in TYP else res


def expected(lab, root, n, st):
    try:
        return evaluate(lab, root, n, st)
    except Fail as e:
        return ("fails", str(e))
    except RecursionError:
        return ("fails", "InterpolationResolutionError")


def fits(lab, v, exp, st):
    if exp[0] == "str":
        return all(isinstance(e, K) and isinstance(e.v, str) or getattr(e, "pytype", None) is str for e in (st.dom(v) if isinstance(v, S) else (v,)))
    if exp[0] == "typed":
        vals = st.dom(v) if isinstance(v, S) else (v,)
        return all(e == NONE or e == MISS or (type(e.v) if isinstance(e, K) else getattr(e, "pytype", None)) is TYP[exp[1]] for e in vals)
    n, c = exp[1], exp[2]
    return v == n or v == c or v == NONE and c == NONE


def judge(c, t, v, s):
    lab, op = c.lab, c.sc.op
    k = s.res(c.k)
    x = lab.excname(v, s) if t == "x" else None
    sup = set(lab.excnames(v, s)) if t == "x" else set()

    def text(n):
        return lab.show(val(lab, n, s), s)

    if op in READS:
        n = child(lab, c.tgt, k, s)
        if n is None:
            return
        exp = expected(lab, c.root, n, s)
        own = val(lab, n, s)
        if op == "r_in":
            want = own != MISS
            if t == "x" or s.res(v) != K(want):
                yield "in", f"membership of {lab.show(k, s)} = {text(n)} " + (f"raises {x}" if t == "x" else f"is {lab.show(v, s)}"), None
            return
        if own == MISS:
            if op in ("r_get", "r_select"):
                if t == "x" or s.res(v) != NONE:
                    yield "missing", f"{op[2:]} of a missing value is not None", None
            elif t == "n" or "MissingMandatoryValue" not in sup:
                yield "missing", f"{op[2:]} of a missing value does not raise MissingMandatoryValue", None
            return
        if exp[0] == "fails":
            if t == "n":
                yield "dangling", f"{op[2:]} of {lab.show(k, s)} = {text(n)} gives {lab.show(v, s)} although its reference chain cannot be resolved", None
            elif exp[1] not in sup and "InterpolationResolutionError" not in sup:
                yield "error", f"{op[2:]} of {lab.show(k, s)} = {text(n)} raises {x} instead of {exp[1]}", None
            elif exp[1] not in sup:
                yield "class", f"{op[2:]} of {lab.show(k, s)} = {text(n)} raises {x} instead of {exp[1]}", None
            return
        if t == "x":
            if exp[0] == "typed" and "InterpolationResolutionError" in sup:
                return
            yield "unresolved", f"{op[2:]} of {lab.show(k, s)} = {text(n)} raises {x} although its reference chain leads to a value", None
        elif not fits(lab, s.res(v), exp, s):
            yield "value", f"{op[2:]} of {lab.show(k, s)} = {text(n)} gives {lab.show(v, s)}, its reference chain leads to {lab.show(exp[2], s) if exp[0] == 'node' else exp[0]}", None
        return
    # whole-config operations
    fails = [n for n in leaves(lab, c.tgt, s) if expected(lab, c.root, n, s)[0] == "fails"]
    hard = [n for n in fails if expected(lab, c.root, n, s)[1] != "InterpolationToMissingValueError"]
    typed = any(expected(lab, c.root, n, s)[0] == "typed" for n in leaves(lab, c.tgt, s))
    if op == "r_to_container_resolve":
        if t == "x":
            if not fails and not typed:
                yield "convert", f"conversion with resolve raises {x} although every reference can be resolved", None
            elif "InterpolationResolutionError" not in sup:
                yield "error", f"conversion with resolve raises {x}", None
        elif hard:
            yield "dangling", f"conversion with resolve succeeds although {text(hard[0])} cannot be resolved", None
    elif op == "m_resolve":
        if t == "x":
            if not hard and not typed:
                yield "resolve", f"resolve raises {x} although every reference can be resolved", None
            return
        if hard:
            yield "dangling", f"resolve succeeds although {text(hard[0])} cannot be resolved", None
            return
        for n in leaves(lab, c.tgt, s):
            if n.i not in s.heap:
                continue
            for e in (s.dom(s.res(s.heap[n.i].attrs["_val"])) if isinstance(s.res(s.heap[n.i].attrs["_val"]), S) else (s.res(s.heap[n.i].attrs["_val"]),)):
                if isinstance(e, K) and isinstance(e.v, str) and "${" in e.v and n.i in lab.reach(s, [c.tgt]):
                    yield "left", f"after resolve an interpolation {e.v} is left", None
                    return
            exp = expected(lab, c.root, n, s)
            now = s.res(s.heap[n.i].attrs["_val"])
            if exp[0] == "node" and "_val" in s.init[exp[1].i].attrs and n.i in lab.reach(s, [c.tgt]) and now != exp[2]:
                yield "value", f"resolve gives {lab.show(now, s)} for {text(n)}, its reference chain leads to {lab.show(exp[2], s)}", None
                return


def leaves(lab, root, st):
    out = []

    def go(n):
        o = st.init.get(n.i)
        if o is None:
            return
        if "_val" in o.attrs:
            out.append(n)
            return
        c = st.res(o.attrs.get("_content", NONE))
        co = st.init.get(c.i) if isinstance(c, R) else None
        if co is None:
            return
        for b in [b for _, b in co.ents] if co.kind == "dict" else co.xs if co.kind == "list" else ():
            b = st.res(b)
            if isinstance(b, R):
                go(b)

    go(root)
    return out


def scenarios(tier):
    out = []
    rec = {"recursion": 400, "maxrec": 16}
    for su in ("s_graph", "s_graph_typed"):
        for name, lits in LITS.items():
            ex = dict(rec, lits=lits)
            for op in READS:
                for p, ks in (((), ("a", "b")), (("d",), ("x",) if su == "s_graph" else ("x", "y")), (("l",), (0,))):
                    if p and name != "deep" or op == "r_select" and p == ("l",) or p == ("l",) and op in ("r_getattr", "r_in"):
                        continue
                    out.append(Scn(su, p, op, tuple(K(x) for x in ks), ("none",), tag=name, extra=ex, leaves=False, cont=()))
            for op in ("r_to_container_resolve", "m_resolve"):
                if name == "text":
                    continue
                for p in ((), ("d",)):
                    out.append(Scn(su, p, op, (NONE,), ("none",), tag=name, extra=dict(ex, only=2 if not p else 3), leaves=False, cont=()))
    for name, lits in NEST.items():
        for p, ks in ((("a", "b", "c"), ("d",)), (("a", "l", 1), ("m",)), (("a", "l"), (0,)), ((), ("t",))):
            for op in READS:
                if p == ("a", "l") and op in ("r_getattr", "r_in", "r_select"):
                    continue
                for cont in (("a", "b"), ("a", "b", "c"), ("a", "l", 1), ("a", "l"), ()):
                    # a missing container on the way
                    if cont and cont == p[: len(cont)] or cont and name == "rel":
                        continue
                    out.append(Scn("s_graph_deep", p, op, tuple(K(x) for x in ks), ("none",), tag=name + ("-miss-" + ".".join(map(str, cont)) if cont else ""), extra=dict(rec, lits=lits, missing=cont), leaves=False, cont=()))
        for op in ("r_to_container_resolve", "m_resolve"):
            out.append(Scn("s_graph_deep", (), op, (NONE,), ("none",), tag=name, extra=dict(rec, lits=lits, only=3), leaves=False, cont=()))
    return out


def check(root, tier):
    return common.run(
        root, tier, scenarios(tier), judge,
        rule="for configs whose leaves hold, in every combination, an ordinary value, None, a missing value or interpolations referring to each other (absolute, relative, nested, through lists, inside text, dangling, cyclic): reading a leaf gives the very value its reference chain leads to, or fails with an InterpolationResolutionError (key error for a dangling reference, to-missing error for a missing target); in-place resolve and resolving conversion agree",
        explanation="Path-sensitive abstract interpretation with leaf contents symbolic over a finite set of reference texts; the reference evaluator of the checker runs on the heap of the pre-state.",
    )
