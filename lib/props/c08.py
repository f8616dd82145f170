"""C08: every way of reading an element follows one protocol for ordinary, None, missing, interpolated and absent values."""
import re

from . import common
from .catalog import *
from sa.sweep import Scn

DKEYS = ("v", "n", "m", "i", "ib", "im", "ni", "d", "dn", "dm", "di", "db", "l", "ln", "lm", "li", "t", "tm", "ti", "ts", "tb", "nokey", "z", "e", "f", "de", "le", "dim", "lim", "din", "lb", "ii", "iib", "iim", "rel", "up", "dx", "lx", "i2m", "ie", "iz", "tz", "tf", "tn", "ty", "tym", "ten", "tem")
SKEYS = ("v", "n", "m", "i", "ib", "im", "ni", "d", "dn", "dm", "di", "u", "um", "un", "ui", "lm", "ln", "nokey")
OPS = ("r_getitem", "r_getattr", "r_get", "r_get_default", "r_in", "r_is_missing", "r_is_interpolation", "r_select", "r_select_d", "r_select_tom", "r_select_quiet", "r_pop", "r_pop_default", "r_setdefault")
LOPS = ("r_getitem", "r_get", "r_get_default", "r_is_missing", "r_is_interpolation", "r_pop")
REF = re.compile(r"\$\{(\.*)([\w.]+)\}")


def content(lab, n, st):
    """-> kind of a node in the pre-state: value / none / missing / interp, and its raw content"""
    o = st.init[n.i]
    c = st.res(o.attrs["_val"]) if "_val" in o.attrs else st.res(o.attrs["_content"])
    if c == NONE:
        return "none", c
    if isinstance(c, R) and c.i in st.init and lab.isnode(c, st):
        return content(lab, c, st)
    if isinstance(c, K) and isinstance(c.v, str):
        if c.v == "???":
            return "missing", c
        if "${" in c.v:
            return "interp", c
    return "value", c


def child(lab, cont, k, st):
    """the node stored under a key in the pre-state, or None"""
    co = st.res(st.init[cont.i].attrs["_content"])
    o = st.init.get(co.i) if isinstance(co, R) else None
    if o is None:
        return None
    if o.kind == "dict":
        for a, b in o.ents:
            if st.res(a) == k:
                return st.res(b)
    elif o.kind == "list" and isinstance(k, K) and isinstance(k.v, int) and -len(o.xs) <= k.v < len(o.xs):
        return st.res(o.xs[k.v])
    return None


def parent(st, n):
    p = st.res(st.init[n.i].attrs.get("_parent", NONE))
    return p if isinstance(p, R) else None


def index(lab, cont, p, st):
    return K(int(p)) if lab.clsname(cont, st) == "ListConfig" and p.isdigit() else K(p)


def resolve(lab, root, cont, k, st, seen=()):
    """-> (kind of what is stored, outcome): outcome = ("value", node or content) / ("none",) / ("missing",) / ("fails", class name)"""
    n = child(lab, cont, k, st)
    if n is None:
        return "absent", ("absent",)
    kind, c = content(lab, n, st)
    if kind != "interp":
        return kind, ("value", n, c) if kind == "value" else (kind,)
    if n.i in seen:
        return kind, ("fails", ("InterpolationResolutionError",))
    dots, path = REF.fullmatch(c.v).groups()
    at = root
    if dots:
        at = cont
        for _ in dots[1:]:
            at = parent(st, at)
            if at is None:
                return kind, ("fails", ("InterpolationKeyError",))
    *pre, last = path.split(".")
    for p in pre:
        sub = child(lab, at, index(lab, at, p, st), st)
        if sub is None:
            return kind, ("fails", ("InterpolationKeyError",))
        _, r = resolve(lab, root, at, index(lab, at, p, st), st, seen + (n.i,))
        if r[0] == "missing":
            return kind, ("fails", ("InterpolationToMissingValueError",))
        if r[0] != "value" or "_val" in st.init[r[1].i].attrs:
            return kind, ("fails", ("InterpolationResolutionError",))
        at = r[1]
    if child(lab, at, index(lab, at, last, st), st) is None:
        return kind, ("fails", ("InterpolationKeyError",))
    k2, out = resolve(lab, root, at, index(lab, at, last, st), st, seen + (n.i,))
    if out[0] == "missing":
        return kind, ("fails", ("InterpolationToMissingValueError",))
    if out[0] == "value":
        # a typed leaf converts or refuses what it refers to
        cls = lab.clsname(n, st)
        tgt = out[1]
        if cls == "StringNode":
            return kind, ("str",) if "_val" in st.init[tgt.i].attrs else ("fails", ("InterpolationValidationError",))
        if cls == "IntegerNode" and "_val" not in st.init[tgt.i].attrs:
            return kind, ("fails", ("InterpolationValidationError",))
    return kind, out


def same(lab, v, out, st):
    v = st.res(v)
    if out[0] == "none":
        return v == NONE
    if out[0] == "str":
        return not isinstance(v, K) or isinstance(v.v, str)
    n, c = out[1], out[2]
    if v == n or v == c:
        return True
    return isinstance(v, R) and v.i in st.heap and lab.isnode(v, st) and "_val" not in st.get(v).attrs and st.res(st.get(v).attrs["_content"]) == c


def judge(c, t, v, s):
    lab, op = c.lab, c.sc.op
    k = s.res(c.k)
    if not isinstance(k, K):
        return
    kind, out = resolve(lab, c.root, c.tgt, k, s)
    x = lab.excname(v, s) if t == "x" else None
    sup = set(lab.excnames(v, s)) if t == "x" else set()
    show = f"key {lab.show(k, s)} ({kind})"

    def bad(what):
        got = f"raises {x}" if t == "x" else f"gives {lab.show(v, s)}"
        return "protocol", f"{op[2:]} of {show}: {got}, expected {what}", None

    lst = lab.clsname(c.tgt, s) == "ListConfig"
    if op == "r_is_interpolation":
        if kind == "absent":
            return
        if t == "x" or s.res(v) != K(kind == "interp"):
            yield bad(str(kind == "interp"))
        return
    if op == "r_is_missing":
        if kind == "absent" and lst:
            return
        if t == "x" or s.res(v) != K(kind == "missing"):
            yield bad(str(kind == "missing"))
        return
    if op == "r_in":
        want = kind not in ("absent", "missing")
        if t == "x" or s.res(v) != K(want):
            yield bad(str(want))
        return
    DEFAULT = s.res(c.v)
    dflt = {"r_get_default": DEFAULT, "r_get": NONE, "r_pop_default": DEFAULT, "r_select": NONE, "r_select_d": DEFAULT, "r_select_quiet": NONE, "r_select_tom": NONE, "r_setdefault": DEFAULT}.get(op)
    if lst and op == "r_pop":
        dflt = NONE if kind == "missing" else None
    sel = op.startswith("r_select")
    if kind == "absent":
        closed = lab.clsname(c.tgt, s) == "DictConfig" and (lab.effective_flag(c.tgt, "struct", s, True) == TRUE or c.sc.setup == "s_acc_struct")
        if op == "r_setdefault" and closed or op in ("r_pop", "r_pop_default") and closed:
            if t != "x":
                yield bad("an error (the mapping is closed)")
            return
        if op == "r_setdefault" and "ValidationError" in sup and c.sc.setup in ("s_acc_ed", "s_acc_edd"):
            return  # the default is not of the declared type
        if sel and closed and op != "r_select_quiet":
            return  # not stated
        if dflt is not None and not (lst and not sel):
            if t == "x" or s.res(v) != dflt:
                yield bad("the default")
            return
        want = {"ConfigAttributeError"} if op == "r_getattr" else {"ConfigKeyError", "KeyError", "IndexError", "ConfigIndexError"}
        if t == "n" or not want & sup:
            yield bad("a key or attribute error")
        return
    if op in ("r_pop", "r_pop_default"):
        closed = lab.effective_flag(c.tgt, "struct", s, True) == TRUE or c.sc.setup == "s_acc_struct"
        if closed:
            if t != "x":
                yield bad("an error (the mapping is closed)")
            return
    if kind == "missing":
        if op == "r_select_tom":
            if t == "n" or "MissingMandatoryValue" not in sup:
                yield bad("MissingMandatoryValue")
        elif op == "r_setdefault" and "ValidationError" in sup:
            pass  # the default is not of the declared type
        elif dflt is not None:
            if t == "x" or s.res(v) != dflt:
                yield bad("the default")
        elif t == "n" or "MissingMandatoryValue" not in sup:
            yield bad("MissingMandatoryValue")
        return
    if out[0] == "fails":
        if op == "r_select_quiet":
            if "InterpolationToMissingValueError" in out[1]:
                return
            if t == "x" or s.res(v) != NONE:
                yield bad("None")
            return
        if t == "n" or "InterpolationResolutionError" not in sup:
            yield bad("an interpolation resolution error")
        elif not set(out[1]) & sup:
            yield bad(out[1][0])
        return
    if t == "x" or not same(lab, v, out, s):
        yield bad("None" if out[0] == "none" else "the value")


TARGETS = (
    ("s_acc", (), DKEYS, OPS),
    ("s_acc_struct", (), SKEYS, OPS),
    ("s_acc_list", ("l",), tuple(range(12)) + (-1, -12, 12, -13), LOPS),
    ("s_acc_ed", ("c",), ("v", "z", "n", "m", "i", "ib", "im", "ni", "nokey"), OPS),
    ("s_acc_edd", ("c",), ("v", "e", "n", "m", "i", "ib", "im", "nokey"), OPS),
    ("s_acc_ik", ("c",), tuple(range(9)), tuple(o for o in OPS if o != "r_getattr" and not o.startswith("r_select"))),
    ("s_acc_el", ("c",), tuple(range(8)) + (-1, -8, 8), LOPS),
)


def scenarios(tier):
    out = []
    for su, p, ks, ops in TARGETS:
        preps = [("plain", []), ("struct", [("set_struct", (), TRUE)]), ("ro", [("set_ro", ())]), ("falsy", [])]
        for tag, prep in preps:
            if tag == "struct" and su not in ("s_acc", "s_acc_ed"):
                continue
            for op in ops:
                if tag == "ro" and op in ("r_pop", "r_pop_default", "r_setdefault"):
                    continue
                if tag == "falsy" and op not in ("r_pop_default", "r_get_default", "r_select_d", "r_setdefault"):
                    continue
                for i, kk in enumerate(chunks([K(x) for x in ks], 6)):
                    out.append(Scn(su, p, op, kk, ("false",) if tag == "falsy" else ("dflt",), prep, tag=f"{tag}{i}", leaves=0, cont=()))
    return out


def check(root, tier):
    return common.run(
        root, tier, scenarios(tier), judge,
        rule="for every key of configs whose elements are ordinary, None, missing, interpolated (to a value, to None, to a missing value, dangling) or absent - leaves, typed leaves, unions and containers alike - the result of every reading operation equals the protocol table computed from the stored node",
        explanation="Path-sensitive abstract interpretation of every reading operation; the protocol table is evaluated by the checker on the heap of the pre-state.",
    )
