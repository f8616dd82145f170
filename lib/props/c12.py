"""C12: a copy (deepcopy, copy, unpickled pickle) is the same config in every respect."""
from . import common
from .catalog import *
from sa.scen import owned
from sa.sweep import Scn

META = ("ref_type", "object_type", "optional", "key", "flags", "key_type", "element_type", "flags_root", "resolver_cache")
SKIP = ("_content", "_val", "_metadata", "_parent", "_flags_cache")
TGT = {
    "s_dict": {(): "d", ("b",): "d", ("c",): "l", ("c", 1): "d"},
    "s_list": {(): "l", (1,): "d", (2,): "l"},
    "s_struct": {(): "d", ("addr",): "d", ("lst",): "l", ("dct",): "d"},
    "s_typed_dict": {("t",): "d", (): "d"},
    "s_typed_list": {("t",): "l"},
    "s_dict_of_user": {("t",): "d"},
    "s_empty": {("d",): "d", ("l",): "l", (): "d"},
    "s_leafs": {(): "d"},
    "s_conts": {(): "d", ("li",): "l", ("lu",): "l", ("de",): "d", ("dd",): "d"},
    "s_keyed": {(): "d", ("e",): "d", ("by",): "d"},
    "s_objs": {(): "d"},
}
COPIES = ("r_deepcopy", "r_copycopy", "r_copy", "r_pickle")


def attrs(lab, v, st, init, path="$", seen=None, out=None):
    """further attributes of every node, by position"""
    out = {} if out is None else out
    h = st.init if init else st.heap
    v = st.res(v)
    if not isinstance(v, R) or v.i not in h or v.i in (seen or ()):
        return out
    seen = (seen or ()) + (v.i,)
    o = h[v.i]
    if o.kind == "dict":
        for j, (_, b) in enumerate(o.ents):
            attrs(lab, b, st, init, f"{path}.{j}", seen, out)
    elif o.kind == "list":
        for j, b in enumerate(o.xs):
            attrs(lab, b, st, init, f"{path}.{j}", seen, out)
    elif o.kind == "inst" and lab.isnode(v, st):
        out[path] = tuple((a, lab.tree(b, st, init)) for a, b in sorted(o.attrs.items()) if a not in SKIP)
        attrs(lab, o.attrs.get("_content", NONE), st, init, path, seen, out)
    return out


def differ(a, b, path="$"):
    """first place where two trees differ"""
    if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == b[:1] and len(a) == len(b):
        if a and a[0] == "node" and a[1] != b[1]:
            return path, f"is a {b[1]} instead of a {a[1]}"
        for x, y in zip(a, b):
            if x != y:
                p = path
                if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], K) and x[0] == (y[0] if isinstance(y, tuple) and y else None):
                    p = f"{path}.{x[0].v}"
                if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) and x[0] in META:
                    return path, x[0]
                return differ(x, y, p)
    return path, "value"


def judge(c, t, v, s):
    lab, op = c.lab, c.sc.op
    if t == "x":
        yield "fails", f"copying fails with {lab.excname(v, s)}", None
        return
    v = s.res(v)
    if not lab.isnode(v, s):
        yield "kind", "the copy is not a config", None
        return
    a, b = lab.tree(c.tgt, s, True, meta=META), lab.tree(v, s, False, meta=META)
    if a != b:
        where, what = differ(a, b)
        yield "differs-" + what.split()[0], f"the copy differs from the original at {where}: {what}", None
        return
    if attrs(lab, c.tgt, s, True) != attrs(lab, v, s, False):
        yield "differs-attr", "a node of the copy lacks an attribute of the original", None
        return
    for where, kind, msg in lab.integrity(v, s):
        yield "links-" + kind, msg, None
        return
    p0 = s.res(s.init[c.tgt.i].attrs["_parent"])
    p1 = s.res(s.heap[v.i].attrs.get("_parent", NONE))
    if op == "r_pickle":
        if (p0 == NONE) != (p1 == NONE) or isinstance(p0, R) and lab.clsname(p0, s) != lab.clsname(p1, s):
            yield "parent", "an unpickled config has not the parent it was pickled with", None
            return
    elif p0 != p1:
        yield "parent", "a copy of a nested config does not refer to the parent of the original", None
        return
    for i in sorted(owned(lab, s, [v])):
        o = s.heap.get(i)
        if o is None or o.kind != "inst" or not lab.isnode(R(i), s):
            continue
        if "_flags_cache" not in o.attrs or "_parent" not in o.attrs:
            yield "state", "a node of the copy lacks its flag cache or parent link", None
            return
        ca = s.res(o.attrs["_flags_cache"])
        for x, y in s.get(ca).ents if isinstance(ca, R) else ():
            x, y = s.res(x), s.res(y)
            if isinstance(x, K) and y != lab.effective_flag(R(i), x.v, s):
                yield "stale", f"the cached answer of flag {x.v} in the copy is not the setting in effect", None
                return


def preps(p):
    yield "", []
    yield "flags", [("set_flag", (), K("struct"), TRUE), ("set_flag", p, K("readonly"), TRUE), ("set_flag", p, K("allow_objects"), FALSE), ("touch_all", ())]
    yield "leafflags", [("set_leaf_flags", p), ("set_flag", (), K("readonly"), TRUE), ("touch_all", ())]
    yield "cache", [("set_cache", p, K("k"), K(1)), ("set_flags_root", p)]


def scenarios(tier):
    out = []
    for su, tg in TGT.items():
        for p, kind in tg.items():
            for op in COPIES:
                for tag, pr in preps(p):
                    # contents of one container at a time are special
                    paths = [p]
                    for cont in ("target", False):
                        if cont == "target" and (p == () or tag):
                            continue
                        out.append(Scn(su, p, op, (NONE,), ("none",), pr, cont=cont, leaves=2, extra={"maxrec": 30} if op == "r_pickle" else None, tag=tag + ("-special" if cont else "")))
                if tier != "quick" and p == ():
                    out.append(Scn(su, p, op, (NONE,), ("none",), [], cont=True, leaves=2, extra={"maxrec": 30}, tag="allspecial"))
    return out


def check(root, tier):
    return common.run(
        root, tier, scenarios(tier), judge,
        rule="the config returned by deepcopy, copy and an unpickled pickle has, node by node, the class, value, key, reference and object type, optionality, key and element type, own flags, flags-root mark, resolver cache and further attributes of the original, correct parent links and keys inside, the parent of the original (for nested configs), and no flag cache that contradicts the settings",
        explanation="Path-sensitive abstract interpretation; the final heap below the result is compared with the pre-state heap below the original. Pickling is the client function `pickled`, which follows the pickle protocol (__getstate__, object.__new__, __setstate__, memo for shared and cyclic references).",
    )
