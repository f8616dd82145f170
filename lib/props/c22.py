"""C22: comparison is an equivalence of contents and != is its exact negation."""
from . import common
from .c20 import Fail, evaluate, val
from .catalog import *
from sa.sweep import Scn

SETUPS_EQ = ("s_eq_dict", "s_eq_list", "s_eq_typed", "s_eq_keys", "s_eq_more", "s_eq_len", "s_eq_kind", "s_eq_obj", "s_eq_union", "s_eq_rel", "s_eq_rell", "s_eq_objmore", "s_eq_objless", "s_eq_objs", "s_eq_ik", "s_eq_ik2", "s_eq_ek", "s_eq_nonopt", "s_eq_nonopt2", "s_eq_misc", "s_eq_more_l", "s_eq_deep", "s_eq_deepkind", "s_eq_struct", "s_eq_ro")


# leaves (by position) that are symbolic together, where all of them at once are too many
ONLY = {
    ("s_eq_dict", "inter"): ((1, 2, 5), (1, 3, 4), (2, 3, 4)),
    ("s_eq_list", "inter"): ((1, 2, 4), (1, 3, 5), (2, 3, 5)),
    ("s_eq_typed", "inter"): ((1, 2, 4), (1, 3, 5)),
    ("s_eq_obj", "inter"): ((1, 2, 4), (1, 3, 5)),
    ("s_eq_rel", "inter"): ((1, 3), (1, 2), (1, 3, 4)),
    ("s_eq_rell", "inter"): ((1, 3), (1, 2), (1, 3, 4)),
    ("s_eq_ek", "inter"): ((1, 2, 4), (1, 3, 5)),
    ("s_eq_misc", "inter"): ((1, 2, 4), (1, 3, 5)),
    ("s_eq_deep", "inter"): ((1, 2, 4), (1, 3, 5)),
    ("s_eq_ro", "inter"): ((1, 2, 4), (1, 3, 5)),
    ("s_eq_rel", "plain"): (None, (1, 3), (2, 3), (2, 4)),
    ("s_eq_rell", "plain"): (None, (1, 3), (2, 3), (2, 4)),
    ("s_eq_deep", "plain"): (None, (2, 3, 4), (2, 3, 5)),
    ("s_eq_dict", "plain"): (None, (2, 3, 5), (2, 3, 4)),
    ("s_eq_list", "plain"): (None, (2, 3, 4), (2, 3, 5)),
}


class Unknown(Exception):
    pass


def kids(lab, n, st):
    """[(key, child)] of a container of the pre-state, None for special contents"""
    c = st.res(st.init[n.i].attrs["_content"])
    o = st.init.get(c.i) if isinstance(c, R) else None
    if o is None:
        return None
    if o.kind == "dict":
        return [(st.res(a), st.res(b)) for a, b in o.ents]
    return [(K(i), st.res(b)) for i, b in enumerate(o.xs)]


def unwrap(lab, n, st):
    while lab.clsname(n, st) == "UnionNode":
        c = st.res(st.init[n.i].attrs["_content"])
        if not isinstance(c, R):
            raise Unknown
        n = c
    return n


def compared(x, y, st):
    """True / False / None: what the path knows about the equality of two values"""
    if x == y:
        return True
    if isinstance(x, K) and isinstance(y, K):
        return bool(x.v == y.v)
    for k in (("eq", x, y), ("eq", y, x)):
        if k in st.facts:
            return st.facts[k]
    dx = st.dom(x) if isinstance(x, S) else (x,)
    dy = st.dom(y) if isinstance(y, S) else (y,)

    def cls(e):
        t = e.pytype if hasattr(e, "pytype") else type(e.v) if isinstance(e, K) else None
        return "num" if t in (int, float, bool) else t

    if not {cls(e) for e in dx} & {cls(e) for e in dy}:
        return False
    return None


def same(lab, root, a, b, st, plain):
    """three-valued equality of two nodes"""
    a, b = unwrap(lab, a, st), unwrap(lab, b, st)
    la, lb = "_val" in st.init[a.i].attrs, "_val" in st.init[b.i].attrs
    if la or lb:
        va = val(lab, a, st)
        vb = val(lab, b, st)
        if va == MISS or vb == MISS:
            return va == vb
        ra, rb = (x if x != MISS and "${" not in str(getattr(x, "v", "")) else None for x in (va, vb))
        if ra is None or rb is None:
            if any(r is None and lab.clsname(x, st) != "AnyNode" for r, x in ((ra, a), (rb, b))):
                raise Unknown  # converted to the type of the node
            try:
                ea, eb = evaluate(lab, root, a, st), evaluate(lab, root, b, st)
            except Fail:
                raise Unknown
            if ea[0] != "node" or eb[0] != "node":
                raise Unknown
            na, nb = ea[1], eb[1]
            if ("_val" in st.init[na.i].attrs) != ("_val" in st.init[nb.i].attrs):
                return False
            if "_val" not in st.init[na.i].attrs:
                return same(lab, root, na, nb, st, plain)
            va, vb = ea[2], eb[2]
        elif la != lb:
            return compared(va, vb, st) if vb == NONE or va == NONE else False
        return compared(va, vb, st)
    ka, kb = kids(lab, a, st), kids(lab, b, st)
    if ka is None or kb is None:
        raise Unknown
    if lab.clsname(a, st) != lab.clsname(b, st) or len(ka) != len(kb):
        return False
    out = True
    db = dict(kb)
    for k, x in ka:
        if k not in db:
            return False
        r = same(lab, root, x, db[k], st, plain)
        if r is False:
            return False
        if r is None:
            out = None
    return out


def judge(c, t, v, s):
    lab, op = c.lab, c.sc.op
    if t == "x":
        yield "raises", f"a comparison raises {lab.excname(v, s)}", None
        return
    r = [s.res(x) for x in s.res(v).xs]
    if any(x not in (TRUE, FALSE) for x in r):
        yield "kind", "a comparison does not answer True or False", None
        return
    if r[0] != r[1]:
        yield "symmetry", f"a == b is {lab.show(r[0], s)} but b == a is {lab.show(r[1], s)}", None
    if r[2] == r[0] or r[3] == r[1]:
        yield "negation", "!= is not the negation of ==", None
    from .c08 import child

    a, b = child(lab, c.root, K("l"), s), child(lab, c.root, K("r"), s)
    if op == "q_eq_n":
        a, b = child(lab, a, K("n"), s), child(lab, b, K("n"), s)
    try:
        want = same(lab, c.root, a, a if op == "q_self" else b, s, op == "q_plain")
    except Unknown:
        return
    if r[0] == TRUE and want is not True:
        yield "equal", "configs with different contents compare equal" if want is False else "configs compare equal although not all of their contents were compared", None
    elif r[0] == FALSE and want is True:
        yield "unequal", "configs with equal contents compare unequal", None


def scenarios(tier):
    out = []
    for su in SETUPS_EQ:
        for op in ("q_eq", "q_self", "q_plain", "q_detached", "q_eq_n"):
            if op == "q_eq_n" and "_rel" not in su:
                continue
            if op in ("q_plain", "q_detached") and su.startswith("s_eq_obj"):
                continue
            for name, lits in (("plain", ()), ("inter", ("${..z}",) if "_rel" in su else ("${t}",))):
                if name == "inter" and op in ("q_plain", "q_detached"):
                    continue
                for only in ONLY.get((su, name), (None,)):
                    if (su, name) in ONLY and name == "plain" and (only is None if op == "q_plain" else only and not (op in ("q_eq", "q_eq_n") and "_rel" in su)):
                        continue
                    out.append(Scn(su, (), op, (NONE,), ("none",), tag=name + ("" if only is None else "-" + "".join(map(str, only))), extra={"recursion": 400, "maxrec": 16, "lits": lits, "only": only}, leaves=False, cont=()))
    return out


def check(root, tier):
    return common.run(
        root, tier, scenarios(tier), judge,
        rule="on every path of a comparison of two configs, or of a config and a plain container: == answers the same both ways, != answers the contrary, no exception; the answer is True exactly if both have the same kind, the same keys (or length) and pairwise equal resolved elements (a missing value equals only a missing value), and a True answer is given only after every pair of elements was compared",
        explanation="Path-sensitive abstract interpretation; the path condition (which symbolic leaves were found equal or different) decides what the answer has to be.",
    )
