"""C04: typed fields and typed containers hold only values of their declared types."""
from . import common
from .catalog import *
from sa.scen import typing_problems
from sa.sweep import Scn

ONE = ("m_setitem", "m_setattr", "m_setdefault", "m_append", "m_insert")
MANY = ("m_update", "m_merge_with_key", "m_oc_update", "m_oc_update_nomerge", "m_extend", "m_setslice", "m_merge_list", "m_merge_extend", "m_iadd", "m_merge_with")
NMANY = ("m_update", "m_merge_with_key", "m_oc_update", "m_extend", "m_setslice", "m_merge_list", "m_merge_extend", "m_merge_with")
ALL = ("none", "missing", "interp", "str", "int", "float", "bool", "bytes", "numstr", "subint", "subfloat", "dict", "list", "cfg", "lcfg", "enum", "path", "class", "userobj", "subobj", "object")
QUICK_MANY = ("none", "missing", "str", "int", "dict", "list", "cfg", "enum", "userobj", "subobj")
MOREN = NESTED + ("userobj", "lcfg", "cfg")


def judge(c, t, v, s):
    lab = c.lab
    seen = set()
    roots = [c.root] if not c.sc.op.startswith("c_") else [v] if t == "n" else []
    for r in roots:
        for where, kind, msg in typing_problems(lab, r, s):
            if kind not in seen:
                seen.add(kind)
                yield "typing-" + kind, msg, lab.site(s, lab.changed(s, c.init_ids))


def scenarios(tier):
    q = tier == "quick"
    out = Scn_gen(Scn, table=TYPED, setups=("s_leafs", "s_conts"), ops=ONE, kinds=ALL, morekeys=False, cont=(), kc=4, vc=12, tier=tier)
    out += Scn_gen(Scn, table=TYPED, setups=("s_leafs", "s_conts"), ops=MANY, kinds=QUICK_MANY if q else ALL, morekeys=False, cont="target", kc=4, vc=5, tier=tier)
    out += Scn_gen(Scn, table={**DEEPT, "s_conts": TYPED["s_conts"]}, ops=ONE, kinds=MOREN, morekeys=False, cont=(), kc=4, vc=6, tag="nested", tier=tier, leaves=0)
    out += Scn_gen(Scn, table={**DEEPT, "s_conts": TYPED["s_conts"]}, ops=NMANY, kinds=MOREN, morekeys=False, cont="target", kc=3, vc=4, tag="nested", tier=tier, leaves=0)
    for key, text in (("a", "${nokey}"), ("oa", "${a}"), ("da", "${nokey}"), ("li", "${lo}"), ("df", "${nokey}")):
        for op in ("m_setitem", "m_setdefault", "m_update", "m_merge_with_key", "m_oc_update", "m_oc_update_nomerge", "m_oc_update_force"):
            for i, vv in enumerate(chunks(MOREN, 8)):
                out.append(Scn("s_conts", (), op, (K(key),), vv, tag=f"special-{key}-v{i}", cont=(), leaves=False, extra={"special": (key,), "spectext": text}))
    for i, vv in enumerate(chunks(ALL, 12)):
        for op in C_OPS:
            if op.startswith("c_structured"):
                vv = [x for x in vv if x not in ("cfg", "lcfg")]
            out.append(Scn("s_empty", (), op, (TRUE, FALSE), vv, tag=f"v{i}", cont=()))
        for j, kk in enumerate(chunks([K(x) for x in TYPED["s_leafs"][()][1]], 6)):
            out.append(Scn("s_leafs", (), "n_set_value", kk, vv, tag=f"k{j}v{i}", cont=()))
            out.append(Scn("s_leafs", (), "m_setitem", kk, vv, tag=f"noconvert-k{j}v{i}", cont=(), prep=[("set_convert", (), FALSE)]))
        for j, kk in enumerate(chunks([K(x) for x in TYPED["s_conts"][()][1]], 4)):
            out.append(Scn("s_conts", (), "n_set_value", kk, vv, tag=f"k{j}v{i}", cont=()))
    return out


def check(root, tier):
    return common.run(
        root, tier, scenarios(tier), judge,
        rule="in every final state of a write (assignment, append, insert, update, merge, node construction) every leaf holds a value of its declared type, None only when optional, or a missing/interpolation marker; every element of a typed container and every declared field keeps its declared type and optionality; a field declared with a structured type holds only that type or a subtype; untyped leaves hold only supported primitive values",
        explanation="Path-sensitive abstract interpretation of every write path over typed set-ups; the type of every node of the final state (value kind, node class, declared type, optionality) is compared with the declaration.",
    )
