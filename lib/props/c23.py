"""C23: merging combines configs key by key, the later source winning."""
from . import common
from .c20 import Fail, evaluate
from .c21 import otype, raw, text
from .c22 import compared
from .catalog import *
from sa.sweep import Scn

ANY = ("any",)
REPLACE, EXTEND, UNIQUE = "replace", "extend", "unique"


class F:
    """what a node holds: kind leaf (any special or ordinary value), d (mapping), l (list), any"""

    def __init__(self, kind, val=None, ents=(), xs=(), cls="AnyNode", typed=False, struct=False, node=None, cont=False):
        self.kind, self.val, self.ents, self.xs, self.cls, self.typed, self.struct, self.node, self.cont = kind, val, list(ents), list(xs), cls, typed, struct, node, cont

    def copy(self, **kw):
        f = F(self.kind, self.val, self.ents, self.xs, self.cls, self.typed, self.struct, self.node, self.cont)
        for k, v in kw.items():
            setattr(f, k, v)
        return f


def md(st, h, n, name):
    return st.res(h[st.res(h[n.i].attrs["_metadata"]).i].attrs.get(name, NONE))


def form(lab, n, st, h, plain=False):
    """the form of a node in a heap"""
    cls = st.get(n).cls[0].name if n.i in st.heap else h[n.i].cls[0].name
    c = st.res(h[n.i].attrs["_val"]) if "_val" in h[n.i].attrs else st.res(h[n.i].attrs["_content"])
    if cls == "UnionNode":
        if isinstance(c, R):
            f = form(lab, c, st, h)
            return F("leaf", f.val, cls="AnyNode" if plain else "UnionNode", typed=not plain, node=n)
        return F("leaf", c, cls="AnyNode" if plain else "UnionNode", typed=not plain, node=n)
    if "_val" in h[n.i].attrs:
        return F("leaf", c, cls="AnyNode" if plain else cls, typed=not plain and cls != "AnyNode", node=n)
    any_ = lambda v: v == K("typing.Any") or "Any" in repr(v)
    typed = not plain and not (any_(md(st, h, n, "ref_type")) and any_(md(st, h, n, "element_type")))
    struct = not plain and otype_in(lab, n, st, h) is not None
    if isinstance(c, S):
        return F("any", node=n)
    if not isinstance(c, R):
        return F("leaf", c, cls="AnyNode" if plain else cls, typed=typed, struct=struct, node=n, cont=not plain)
    o = h[c.i]
    if o.kind == "dict":
        return F("d", ents=[(st.res(a), form(lab, st.res(b), st, h, plain)) for a, b in o.ents], cls="DictConfig", typed=typed or struct, struct=struct, node=n, cont=True)
    return F("l", xs=[form(lab, st.res(b), st, h, plain) for b in o.xs], cls="ListConfig", typed=typed, node=n, cont=True)


def otype_in(lab, n, st, h):
    t = md(st, h, n, "object_type")
    return t if isinstance(t, Cls) and getattr(t.c, "is_dc", False) else None


class Merge:
    def __init__(self, lab, root, st, mode):
        self.lab, self.root, self.st, self.mode = lab, root, st, mode
        self.must = []  # reasons for which the merge has to fail
        self.may = []  # reasons for which it may fail

    def container(self, a, b):
        if a.kind == "any" or b.kind == "any":
            self.may.append("special")
            return F("any")
        if (a.cls == "DictConfig") != (b.cls == "DictConfig"):
            self.must.append("a mapping is merged with a list")
            return F("any")
        return self.map(a, b) if a.cls == "DictConfig" else self.list(a, b)

    def map(self, a, b):
        if b.kind == "leaf":
            if b.val == MISS:
                if b.typed:
                    self.may.append("typed")
                    return F("any")
                return a
            if b.val == NONE and a.typed or b.typed:
                self.may.append("optional")
            return b.copy(cont=True)
        if a.kind == "leaf":
            if a.typed:
                self.may.append("typed")
                return F("any")
            a = F("d", cls="DictConfig", cont=True)
        elif b.struct and not a.struct and a.typed:
            self.may.append("typed")
        out = list(a.ents)
        pos = {k: i for i, (k, _) in enumerate(out)}
        for k, bn in b.ents:
            if k in pos:
                out[pos[k]] = (k, self.element(out[pos[k]][1], bn))
            else:
                if a.typed:
                    self.may.append("new key")
                pos[k] = len(out)
                out.append((k, bn))
        return F("d", ents=out, cls="DictConfig", typed=a.typed or b.struct, struct=a.struct or b.struct, cont=True)

    def element(self, a, b):
        if a.kind == "any" or b.kind == "any":
            self.may.append("special")
            return F("any")
        miss = b.kind == "leaf" and b.val == MISS
        if a.cont:
            if b.cont:
                if a.kind == "leaf" and text(a.val) and not miss:
                    t = self.target(a)
                    if t is None or t.kind == "any":
                        self.may.append("interpolation")
                        return F("any")
                    a = t if t.cont else a.copy(val=NONE)
                return self.container(a, b)
            if miss:
                return a
            if a.typed:
                self.may.append("typed")
            return b
        if a.val is not None and text(a.val) and b.cont:
            t = self.target(a)
            if t is None:
                self.may.append("interpolation")
                return F("any")
            if t.cont and miss:
                self.may.append("interpolation")
                return F("any")
            if t.cont:
                return self.container(t, b)
        if b.cont:
            if a.typed or miss or b.typed:
                self.may.append("typed")
            return F("any") if miss else b
        if miss:
            if b.typed:
                self.may.append("typed")
            return a
        if a.cls == "AnyNode":
            return b
        if a.typed:
            if b.val == NONE or b.cls != a.cls:
                self.may.append("typed")
            if b.cls != a.cls and not (b.val in (NONE,) or text(b.val)):
                return F("any")
        return a.copy(val=b.val)

    def target(self, a):
        """what an interpolation in the target refers to, if it is a container"""
        if not isinstance(a.val, K) or a.node is None:
            return None
        try:
            r = evaluate(self.lab, self.root, a.node, self.st)
        except Fail:
            return F("leaf", NONE)
        if r[0] != "node":
            return F("leaf", NONE)
        return form(self.lab, r[1], self.st, self.st.init)

    def list(self, a, b):
        if b.kind == "leaf":
            if b.val == MISS:
                return a
            if a.typed or b.typed:
                self.may.append("typed")
            return b
        if a.typed:
            self.may.append("typed")
            if not b.typed:
                b = b.copy(typed=True, xs=[x if x.kind == "leaf" and x.val in (NONE, MISS) or x.kind == "leaf" and x.cls != "AnyNode" else F("any") for x in b.xs])
        if a.kind == "leaf" or self.mode == REPLACE:
            return b.copy(typed=a.typed)
        if self.mode == EXTEND:
            return F("l", xs=a.xs + b.xs, cls="ListConfig", cont=True)
        xs = list(a.xs)
        for x in b.xs:
            eqs = [self.same(y, x) for y in xs]
            if True in eqs:
                continue
            if None in eqs:
                return F("any")
            xs.append(x)
        return F("l", xs=xs, cls="ListConfig", cont=True)

    def same(self, a, b):
        if "any" in (a.kind, b.kind):
            return None
        if a.kind != "leaf" or b.kind != "leaf":
            if a.kind != b.kind and "any" not in (a.kind, b.kind):
                o = a if a.kind == "leaf" else b
                return False if not text(o.val) else None
            return None
        if text(a.val) or text(b.val):
            return None
        if (a.val == MISS) != (b.val == MISS):
            return False
        return compared(a.val, b.val, self.st)


def differs(lab, exp, got, st, where):
    if exp.kind == "any" or got.kind == "any":
        return None
    if exp.kind != got.kind:
        return f"{where} is a {'mapping' if got.kind == 'd' else 'list' if got.kind == 'l' else 'value ' + lab.show(got.val, st)} instead of a {'mapping' if exp.kind == 'd' else 'list' if exp.kind == 'l' else 'value ' + lab.show(exp.val, st)}"
    if exp.kind == "leaf":
        if exp.val == got.val:
            return None
        return f"{where} is {lab.show(got.val, st)} instead of {lab.show(exp.val, st)}"
    if exp.kind == "l":
        if len(exp.xs) != len(got.xs):
            return f"{where} has {len(got.xs)} elements instead of {len(exp.xs)}"
        for i, (e, g) in enumerate(zip(exp.xs, got.xs)):
            d = differs(lab, e, g, st, f"{where}[{i}]")
            if d:
                return d
        return None
    ke, kg = [k for k, _ in exp.ents], [k for k, _ in got.ents]
    if ke != kg:
        return f"{where} has keys {[lab.show(k, st) for k in kg]} instead of {[lab.show(k, st) for k in ke]}"
    for (k, e), (_, g) in zip(exp.ents, got.ents):
        d = differs(lab, e, g, st, f"{where}.{lab.show(k, st)}")
        if d:
            return d
    return None


def pairs(lab, c, s):
    co = s.init[s.res(s.init[c.root.i].attrs["_content"]).i]
    d = {s.res(a): s.res(b) for a, b in co.ents}
    return d[K("l")], d[K("r")]


def judge(c, t, v, s):
    lab, op = c.lab, c.sc.op
    na, nb = pairs(lab, c, s)
    a, b = form(lab, na, s, s.init), form(lab, nb, s, s.init, plain=op == "g_plain")
    m = Merge(lab, c.root, s, {"g_ext": EXTEND, "g_unique": UNIQUE}.get(op, REPLACE))
    if op == "g_plain" and b.kind == "leaf":
        return  # a special config converts to None or a text, which is no config
    if op == "g_empty":
        exp = b
        if b.typed or b.kind == "leaf":
            m.may.append("typed")
            if b.kind == "leaf":
                exp = F("any")
    elif op == "g_self":
        exp = m.container(b, b)
    elif op == "g_three":
        exp = m.container(m.container(a, b), a)
    else:
        exp = m.container(a, b)
    if t == "x":
        x = lab.excname(v, s)
        sup = set(lab.excnames(v, s))
        if not m.must and not m.may:
            yield "fails", f"the merge raises {x} although the configs can be merged", None
        elif not sup & {"OmegaConfBaseException", "TypeError", "ValueError"} and not "AttributeError" in sup:
            yield "error", f"the merge raises {x}", None
        elif x in ("AttributeError", "AssertionError", "TypeError"):
            yield "error", f"the merge raises a bare {x}", None
        return
    if m.must and not m.may:
        yield "passes", "the merge succeeds although " + m.must[0], None
        return
    r = s.res(v)
    if not lab.isnode(r, s):
        yield "result", "the merge does not give a config", None
        return
    d = differs(lab, exp, form(lab, r, s, s.heap), s, "result")
    if d:
        yield "content", d, None


def scenarios(tier):
    out = []
    rec = {"recursion": 400, "maxrec": 16}
    OPS = ("g_merge", "g_with", "g_plain", "g_ext", "g_unique", "g_three", "g_empty", "g_self", "g_unsafe")
    LIT = ("${t}", "${m}")
    for su, sets in (
        ("s_mg_leaf", ((3, 4), (4, 5), (4, 6), (3, 6))),
        ("s_mg_kinds", ((3, 6), (4, 7), (5, 8), (3, 4), (6, 7))),
        ("s_mg_nest", ((4, 7), (4, 8), (3, 9), (5, 10))),
        ("s_mg_list", ((3, 5), (4, 5), (5, 6), (3, 7))),
        ("s_mg_mixed", ((2, 4), (3, 5))),
        ("s_mg_mixed2", ((2, 3),)),
        ("s_mg_toplist", ((3, 5), (4, 5), (5, 6), (3, 6))),
        ("s_mg_struct", ((4, 9), (6, 10), (9, 10), (7, 11), (8, 12))),
        ("s_mg_structs", ((3, 6), (4, 7), (5, 6))),
        ("s_mg_onto", ((3, 6), (4, 5), (3, 5))),
        ("s_mg_typed", ((4, 5), (3, 5), (4, 6))),
        ("s_mg_keys", ((2, 5), (3, 5), (4, 6), (2, 7))),
        ("s_mg_union", ((3, 5), (2, 4), (4, 5), (2, 3))),
    ):
        for op in OPS:
            for only in sets:
                out.append(Scn(su, (), op, (NONE,), ("none",), tag="l" + "-".join(map(str, only)), leaves=False, cont=(), extra=dict(rec, lits=LIT, only=only)))
    for su, specials in (
        ("s_mg_special", (("l", "a"), ("r", "a"), ("l", "b"), ("r", "b"), ("l",), ("r",))),
        ("s_mg_slist", (("l", "a"), ("r", "a"), ("l", "b"), ("r", "b"))),
        ("s_mg_list", (("l", "a"), ("r", "a"), ("r", "c"), ("l", "b"))),
        ("s_mg_nest", (("l", "a"), ("l", "a", "s"), ("r", "a"), ("r", "a", "s"), ("r", "y"))),
        ("s_mg_mixed", (("l", "a"), ("r", "a"), ("l", "b"), ("r", "b"))),
        ("s_mg_mixed2", (("l", "b"), ("r", "b"))),
        ("s_mg_kinds", (("l", "a"), ("r", "b"), ("l", "c"))),
        ("s_mg_toplist", (("l",), ("r",))),
        ("s_mg_struct", (("l", "addr"), ("r", "addr"), ("r", "lst"), ("r", "dct"))),
    ):
        for op in OPS:
            for sp in specials:
                for lit in ("${m}", "${nokey}"):
                    out.append(Scn(su, (), op, (NONE,), ("none",), tag="sp-" + ".".join(sp) + ("-" + lit[2:-1]), leaves=False, cont=(), extra=dict(rec, lits=LIT, only=(1,), special=sp, spectext=lit)))
    return out


def check(root, tier):
    return common.run(
        root, tier, scenarios(tier), judge,
        rule="in every final state of a merge the resulting tree equals the tree computed from the sources in the pre-state: the keys of the first, then the new keys of the later ones; mappings merged key by key; a missing value leaves what is there; any other content of the later source replaces the earlier one; lists replaced, extended or extended by new elements as asked; a mapping is never merged with a list; a merge fails only if kinds or declared types conflict",
        explanation="Path-sensitive abstract interpretation of the merge entry points on pairs of configs with symbolic leaves and special containers; the expected tree is computed by the checker on the abstract heap.",
    )
