"""C11: mapping keys are validated and normalised the same way on every path."""
from . import common
from .catalog import *
from sa.scen import typing_problems
from sa.sweep import Scn

READS = ("k_roundtrip", "k_get", "k_in", "k_pop")
WRITES = ("m_setitem", "m_setdefault", "m_update", "m_merge_with_key", "m_pop", "m_delitem", "m_pop_default", "k_literal", "k_merge_new")
KEYS = (K("k"), A_STR, A_INT, NONE, TRUE, K(1.5), K(b"b"), K("RED"), K("GREEN"), K(2), K(1), K(0), FALSE, K(b"k"), K("Color.GREEN"))
PRESENT = {"i": (1,), "f": (1.5,), "b": (True,), "by": (b"k",), "s": ("k",), "any": ("k", 1), "e": ("RED",)}
OLD = {"i": {1: 1}, "f": {1.5: 1}, "b": {True: 1}, "by": {b"k": 1}, "s": {"k": 1}, "any": {"k": 1, 1: 2}, "e": {"RED": 1}}


def norm(d, k, lab, s):
    """-> True/False/None (valid / invalid / depends), normal form"""
    t = k.pytype if not isinstance(k, (K, R)) else type(k.v) if isinstance(k, K) else None
    val = k.v if isinstance(k, K) else None
    if t is None and isinstance(k, R):
        return (d in ("any", "e")), "enum"
    if t is type(None):
        return False, None
    if d == "any":
        return t in (str, int, float, bool, bytes), val
    if d == "i":
        return t in (int, bool), val
    if d == "f":
        return t is float, val
    if d == "b":
        if t is int and val is None:
            return None, None
        return t is bool or t is int and val in (0, 1), val
    if d == "by":
        return t is bytes, val
    if d == "s":
        return t is str, val
    if d == "e":
        if t is str:
            return (None, None) if val is None else (val in ("RED", "GREEN", "Color.GREEN"), val.replace("Color.", ""))
        if t is int:
            return (None, None) if val is None else (val in (1, 2), {1: "RED", 2: "GREEN"}.get(val))
        return False, None


def judge(c, t, v, s):
    lab, sc = c.lab, c.sc
    d = sc.path[0]
    site = lab.site(s, lab.changed(s, c.init_ids))
    for where, kind, msg in typing_problems(lab, c.root if not sc.op.startswith("k_literal") else v if t == "n" else c.root, s):
        if kind == "key":
            yield "key", msg, site
            return
    k = s.res(c.k)
    for e in s.dom(k) if isinstance(k, S) else (k,):
        ok, nf = norm(d, e, lab, s)
        if ok is None:
            continue
        name = lab.show(e, s) if not isinstance(e, (K, R)) else lab.show(e, s) if isinstance(e, K) else "a member"
        if t == "x":
            x = lab.excname(v, s)
            if x == "KeyValidationError":
                if ok:
                    yield "rejected", f"key {name} is rejected by a mapping that accepts it elsewhere", site
            elif not ok and sc.op not in ("k_in",):
                yield "error", f"key {name} is refused with {x} instead of a key validation error", site
            elif ok and sc.op in READS:
                yield "error", f"key {name} is valid but the call raises {x}", site
            continue
        if sc.op == "k_in":
            want = ok and (nf in PRESENT[d])
            if isinstance(e, K) and s.res(v) != K(bool(want)):
                yield "in", f"membership of key {name} is {lab.show(v, s)}", site
            continue
        if not ok:
            yield "accepted", f"key {name} is accepted although the mapping does not support it", site
            continue
        if sc.op == "k_roundtrip":
            if [s.res(x) for x in s.res(v).xs[:4]] != [TRUE, K(5), K(5), K(5)]:
                yield "roundtrip", f"after storing 5 under {name} it is read back as {[lab.show(x, s) for x in s.res(v).xs]}", site
        elif sc.op in ("k_get", "k_pop") and isinstance(e, K):
            want = OLD[d].get(nf, 77)
            if s.res(v) != K(want):
                yield "lookup", f"lookup of key {name} gives {lab.show(v, s)}, expected {want}", site


def scenarios(tier):
    out = []
    for d in PRESENT:
        for op in READS + WRITES:
            for i, kk in enumerate(chunks(KEYS, 8)):
                out.append(Scn("s_keyed", (d,), op, kk, ("int",), tag=f"k{i}", cont=(), leaves=False))
    return out


def check(root, tier):
    return common.run(
        root, tier, scenarios(tier), judge,
        rule="on every path through item access, get, membership, pop, deletion, setdefault, update, merge and construction of a mapping with a declared key type: a key is either valid, and then found under its normal form by every other entry point, or invalid, and then refused with a key validation error (membership answers no); no final state contains a key outside the supported or declared key types",
        explanation="Path-sensitive abstract interpretation of every keyed entry point over mappings of each key type and keys of each kind; results and stored keys are compared with the key table.",
    )
