"""C10: a flag query answers the nearest explicit setting; temporary overrides are undone."""
from . import common
from .catalog import *
from sa.sweep import Scn

FLAGS = ("readonly", "struct", "allow_objects")
TGT = {
    "s_dict": {(): ("d", ("a", "b"), "nw"), ("b",): ("d", ("x",), "nw"), ("c",): ("l", (0, 1), 7), ("c", 1): ("d", ("z",), "nw")},
    "s_list": {(): ("l", (0, 1), 7), (1,): ("d", ("x",), "nw")},
    "s_struct": {(): ("d", ("age", "addr", "u"), "nw"), ("addr",): ("d", ("no",), "nw"), ("lst",): ("l", (0,), 7)},
}
SETS = ("f_set", "f_set_two", "f_set_both", "f_readonly", "f_struct", "f_flags_root", "f_read")
CTX = ("x_read_write", "x_open_dict", "x_override", "x_override_one", "x_override_none", "x_nested", "x_return", "x_inner_set")
MOVE = ("m_setitem", "m_setattr", "m_update", "m_append", "m_insert", "m_extend", "m_setslice", "m_merge_with_key", "m_merge_with", "m_merge_list", "m_pop", "m_delitem", "m_setdefault", "m_sort", "m_reverse")


def own(lab, st, i, init):
    h = st.init if init else st.heap
    md = st.res(h[i].attrs.get("_metadata", NONE))
    if not isinstance(md, R) or md.i not in h:
        return {}
    fl = st.res(h[md.i].attrs.get("flags", NONE))
    if not isinstance(fl, R):
        return {}
    return {st.res(a): st.res(b) for a, b in h[fl.i].ents if st.res(b) != NONE}


def judge(c, t, v, s):
    lab, op = c.lab, c.sc.op
    now = lab.reach(s, [c.root])
    for i in sorted(now):
        o = s.heap.get(i)
        if o is None or o.kind != "inst" or "_flags_cache" not in o.attrs or not lab.isnode(R(i), s):
            continue
        p = s.res(o.attrs.get("_parent", NONE))
        if isinstance(p, R) and lab.clsname(p, s) == "UnionNode":
            continue
        ca = s.res(o.attrs["_flags_cache"])
        if not isinstance(ca, R):
            continue
        for a, b in s.get(ca).ents:
            a, b = s.res(a), s.res(b)
            if isinstance(a, K) and b != lab.effective_flag(R(i), a.v, s):
                yield "stale", f"the cached answer of flag {a.v} of a {lab.clsname(R(i), s)} is {lab.show(b, s)}, the setting in effect is {lab.show(lab.effective_flag(R(i), a.v, s), s)}", lab.site(s, lab.changed(s, c.init_ids))
                return
    if op.startswith("x_"):
        for i in sorted(c.init_ids & now):
            o = s.init.get(i)
            if o is None or o.kind != "inst" or "_metadata" not in o.attrs or i not in s.heap:
                continue
            if own(lab, s, i, True) != own(lab, s, i, False):
                yield "not-restored", "a flag set for the duration of a block is not restored" + ("" if t == "n" else " when the block raises"), lab.site(s, lab.changed(s, c.init_ids))
                return
    elif op == "f_read":
        want = [lab.effective_flag(c.tgt, f, s) for f in FLAGS]
        if t == "n" and [s.res(x) for x in s.res(v).xs[:3]] != want:
            yield "answer", "a flag query does not answer the nearest setting", None
    elif op.startswith("f_") and t == "n" and op != "f_flags_root":
        k, val = s.res(c.k), s.res(c.v)
        name = {"f_set": k.v if isinstance(k, K) else None, "f_readonly": "readonly", "f_struct": "struct", "f_set_two": "readonly", "f_set_both": "struct"}[op]
        if name is not None and own(lab, s, c.tgt.i, False).get(K(name), NONE) != val:
            yield "set", f"setting flag {name} has no effect", None
        for i in sorted(c.init_ids & now):
            o = s.init.get(i)
            if i != c.tgt.i and o is not None and o.kind == "inst" and "_metadata" in o.attrs and own(lab, s, i, True) != own(lab, s, i, False):
                yield "other", "setting a flag on one node changes another", lab.site(s, lab.changed(s, c.init_ids))
                return


def preps(p):
    """coherent pre-states: caches filled everywhere, only below the target, nowhere; flags on the way"""
    mid = p[:-1] if p else ()
    yield "full", [("touch_all", ())]
    yield "below", [("touch", p)]
    yield "set-full", [("set_flag", p, K("struct"), TRUE), ("set_flag", (), K("readonly"), TRUE), ("touch_all", ())]
    yield "below-set", [("touch", p), ("set_flag", mid, K("readonly"), TRUE), ("touch", p), ("set_flag", p, K("allow_objects"), FALSE)]
    yield "rooted", [("set_flags_root", p), ("set_flag", (), K("readonly"), TRUE), ("touch_all", ())]
    if p:
        yield "unset", [("set_flag", (), K("struct"), TRUE), ("touch_all", ()), ("set_flag", (), K("struct"), NONE), ("set_flag", p, K("readonly"), FALSE)]


def scenarios(tier):
    q = tier == "quick"
    out = []
    names = tuple(K(x) for x in FLAGS)
    for su, tg in TGT.items():
        for p, (kind, ex, ab) in tg.items():
            ks = keys_of(kind, ex, ab, False)
            for tag, prep in preps(p):
                for op in SETS:
                    out.append(Scn(su, p, op, names if op in ("f_set", "f_read") else (K("readonly"),), ("bool", "false") if op == "f_flags_root" else ("none", "bool", "false"), prep, tag=tag, leaves=0, cont=()))
                    if p:
                        out.append(Scn(su, (), op, names if op in ("f_set", "f_read") else (K("readonly"),), ("bool", "false") if op == "f_flags_root" else ("none", "bool", "false"), prep, tag=tag + "-root-" + ".".join(map(str, p)), leaves=0, cont=()))
                for op in CTX:
                    if op in ("x_override_one",):
                        vs = ("none", "bool", "false")
                    else:
                        vs = ("int", "object", "dict")
                    out.append(Scn(su, p, op, ks, vs, prep, tag=tag, leaves=0, cont=()))
                if tag in ("full", "unset", "below-set") or not q:
                    for op, (uses, kinds, single) in (D_OPS if kind == "d" else L_OPS).items():
                        if op not in MOVE:
                            continue
                        vs = ("int", "tcfg", "tlcfg", "node", "childnode", "dict") if "v" in uses and kinds != () else ("none",)
                        if kinds:
                            vs = tuple(x for x in vs if x in kinds or x in ("tcfg", "tlcfg"))
                        kk = ks if "k" in uses else (NONE,)
                        rw = [("set_flag", (), K("readonly"), FALSE), ("set_flag", p, K("readonly"), FALSE)] if tag == "full" else []
                        out.append(Scn(su, p, op, kk, vs, prep + rw + [("touch", p)] * bool(rw), tag=tag, leaves=0, cont=()))
                        if tag == "full":
                            out.append(Scn(su, p, op, kk, vs, prep + [("set_flag", p, K("no_deepcopy_set_nodes"), TRUE)], tag="nocopy", leaves=0, cont=()))
    return out


def check(root, tier):
    return common.run(
        root, tier, scenarios(tier), judge,
        rule="in every final state of a flag operation, a block under a context manager, or a mutator that moves nodes: every cached flag answer of every node equals the nearest explicit setting on the way to its root (typestate of the flag caches); after a block under read_write, open_dict or flag_override, left normally or by an exception, every node has the flags it had before; setting a flag changes that flag of that node only",
        explanation="Path-sensitive abstract interpretation of the flag operations from pre-states with filled, partially filled and empty flag caches.",
    )
