"""C02: a closed (struct-mode or typed) mapping keeps its set of keys."""
from . import common
from .catalog import *
from sa.sweep import Scn

QUICK_KINDS = ("none", "missing", "interp", "int", "str", "dict", "newdict", "list", "node", "cfg", "nonecfg", "userobj", "class")
WHOLE = ("m_setitem", "m_setattr", "m_setdefault", "m_pop", "m_pop_default", "m_delitem", "m_popitem", "m_clear")


def keys_at(lab, st, nid, init):
    o = st.init.get(nid) if init else st.heap.get(nid)
    c = st.res(o.attrs.get("_content", NONE))
    if not isinstance(c, R):
        return None
    co = st.init.get(c.i) if init else st.heap.get(c.i)
    if co is None or co.kind != "dict":
        return None
    return [st.res(a) for a, _ in co.ents]


def meta(lab, st, nid, init, name):
    h = st.init if init else st.heap
    return st.res(h[st.res(h[nid].attrs["_metadata"]).i].attrs.get(name, NONE))


def closed(lab, st, nid):
    """struct flag in effect in the pre-state, or a structured node whose own struct flag is not off"""
    i = nid
    first = st.init[nid]
    md = st.init[st.res(first.attrs["_metadata"]).i]
    ot = st.res(md.attrs.get("object_type", NONE))
    typed = isinstance(ot, Cls) and ot.c.name in ("User", "Addr", "Froz")
    while i is not None:
        o = st.init[i]
        m = st.init[st.res(o.attrs["_metadata"]).i]
        fl = st.res(m.attrs.get("flags", NONE))
        if isinstance(fl, R):
            for a, b in st.init[fl.i].ents:
                if a == K("struct") and st.res(b) != NONE:
                    return st.res(b) == TRUE or typed and i != nid
        p = st.res(o.attrs.get("_parent", NONE))
        i = p.i if isinstance(p, R) else None
    return typed


def judge(c, t, v, s):
    lab = c.lab
    for nid in sorted(c.init_ids):
        o = s.heap.get(nid)
        if o is None or nid not in s.init or o.kind != "inst" or not lab.isa(R(nid), "DictConfig", s):
            continue
        before, after = keys_at(lab, s, nid, True), keys_at(lab, s, nid, False)
        if before is None or after is None:
            continue
        if nid != c.tgt.i and c.sc.op in ("m_setitem", "m_setattr", "m_oc_update_nomerge") and s.res(s.init[nid].attrs["_content"]) != s.res(o.attrs["_content"]):
            continue  # assigning over a child replaces it as a whole
        if meta(lab, s, nid, True, "object_type") != meta(lab, s, nid, False, "object_type"):
            continue  # merging a structured config into an untyped mapping gives it the type and the fields
        new = [k for k in after if k not in before]
        gone = [k for k in before if k not in after]
        if not new and not gone or not closed(lab, s, nid):
            continue
        site = lab.site(s, lab.changed(s, c.init_ids))
        if new:
            yield "added", f"key {lab.show(new[0], s)} is added to a closed mapping" + ("" if t == "n" else " although the call fails"), site
        if gone and c.sc.op not in ("m_delattr",):
            yield "removed", f"key {lab.show(gone[0], s)} is removed from a closed mapping" + ("" if t == "n" else " although the call fails"), site


def scenarios(tier):
    q = tier == "quick"
    kinds = QUICK_KINDS if q else None
    out = Scn_gen(Scn, setups=("s_dict", "s_list", "s_struct", "s_typed_dict", "s_dict_of_user", "s_empty"), prep=[("set_struct", (), TRUE)], kinds=kinds, tier=tier, tag="root", morekeys=not q, vc=5, cont="target")
    out += Scn_gen(Scn, setups=("s_struct", "s_dict_of_user"), kinds=kinds, tier=tier, tag="typed", morekeys=False, vc=5, cont="target")
    for su in ("s_conts", "s_dict_of_user", "s_struct"):
        out += Scn_gen(Scn, table={su: {p: d for p, d in {**SETUPS, **TYPED}[su].items() if p}}, prep=[("set_struct", (), FALSE)], kinds=("none", "int", "newdict", "node", "cfg", "userobj"), tier=tier, tag="opened", morekeys=False, cont="target", ops=("m_setitem", "m_setattr", "m_setdefault", "m_update", "m_merge_with", "m_merge_with_key", "m_pop", "m_delitem", "m_oc_update") if q else None)
    return [x for x in out if x.op != "m_oc_update_force"]  # force_add opens the config on request


def check(root, tier):
    return common.run(
        root, tier, scenarios(tier), judge,
        rule="in every final state of a mutator started on a config in struct mode (flag on the root) or on a typed config, every mapping that was closed in the pre-state and still holds the same content object has exactly the keys it had (attribute deletion may remove one; merging a structured config into an untyped mapping may retype it)",
        explanation="Path-sensitive abstract interpretation of every public mutator from closed pre-states; key sets before and after are compared.",
    )
