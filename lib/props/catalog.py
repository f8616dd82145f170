"""Set-ups, targets, keys, argument kinds and operations from which scenarios are generated."""
from sa.interp import A_ANYSTR, A_BYTES, A_FLOAT, A_INT, A_INTERP, A_STR, MISS
from sa.values import *  # noqa

# argument kinds
PRIMS = ("none", "missing", "interp", "str", "int", "float", "bool", "bytes")
CONTS = ("dict", "newdict", "emptydict", "list", "emptylist", "tuple")
NODES = ("node", "intnode", "childnode", "cfg", "lcfg", "nonecfg", "nonelist", "interpcfg", "missingcfg")
OBJS = ("enum", "object", "class", "userobj", "path")
FULL = PRIMS + CONTS + NODES + OBJS
NESTED = ("frozcfg", "nfrozcfg", "lfrozcfg", "plaincfg", "plainlist", "badplain", "badplainl", "intcfg", "ldplain", "subcfg", "dictobj", "listobj", "subobj")
MID = ("none", "missing", "interp", "str", "int", "bool", "dict", "list", "enum", "node", "intnode", "cfg", "lcfg", "object", "userobj")
LITE = ("none", "int", "str", "dict", "list", "node", "cfg")

# configs that carry flags or types but no contents
BARE = ("flagcfg", "flaglist", "flaglist2", "emptyobj", "typedmiss", "objmiss", "typedempty")

# operations:   name -> (uses key, uses value, kinds of value, removes/edits exactly one element)
D_OPS = {
    "m_setitem": ("kv", None, True),
    "m_setattr": ("kv", None, True),
    "m_delitem": ("k", (), True),
    "m_delattr": ("k", (), True),
    "m_pop": ("k", (), True),
    "m_pop_default": ("kv", ("none", "int", "str"), True),
    "m_setdefault": ("kv", None, True),
    "m_popitem": ("", (), False),
    "m_clear": ("", (), False),
    "m_update": ("kv", MID + NESTED, False),
    "m_update_kw": ("v", MID, False),
    "m_merge_with": ("v", CONTS + ("cfg", "lcfg", "nonecfg", "nonelist", "interpcfg", "missingcfg", "class", "userobj", "none", "int", "str") + BARE + NESTED, False),
    "m_merge_with_key": ("kv", MID + BARE + NESTED, False),
    "m_merge_dotlist": ("", (), False),
    "m_oc_update": ("kv", LITE + NESTED, False),
    "m_oc_update_nomerge": ("kv", LITE + NESTED, False),
    "m_oc_update_force": ("kv", ("none", "int", "dict", "list", "node", "cfg"), False),
    "m_resolve": ("", (), False),
}
L_OPS = {
    "m_setitem": ("kv", None, True),
    "m_delitem": ("k", (), True),
    "m_append": ("v", None, True),
    "m_insert": ("kv", None, True),
    "m_pop": ("k", (), True),
    "m_lpop": ("", (), True),
    "m_extend": ("v", MID + NESTED, False),
    "m_iadd": ("v", MID + NESTED, False),
    "m_remove": ("v", ("int", "str", "none"), False),
    "m_clear": ("", (), False),
    "m_sort": ("", (), False),
    "m_reverse": ("", (), False),
    "m_setslice": ("v", MID + NESTED, False),
    "m_delslice": ("", (), False),
    "m_delslice_back": ("", (), False),
    "m_delslice_step": ("", (), False),
    "m_delslice_tail": ("", (), False),
    "m_delslice_none": ("", (), False),
    "m_setslice_all": ("v", ("none", "int", "dict", "node", "cfg"), False),
    "m_setslice_end": ("v", ("none", "int", "dict", "node", "cfg"), False),
    "m_setslice_step": ("v", ("none", "int", "dict", "node", "cfg"), False),
    "m_sort_reverse": ("", (), False),
    "m_extend_empty": ("", (), False),
    "m_extend_two": ("v", ("none", "int", "dict", "node", "cfg"), False),
    "m_merge_with": ("v", ("list", "emptylist", "tuple", "lcfg", "nonelist", "cfg", "dict", "interpcfg", "missingcfg", "none", "int") + BARE + NESTED, False),
    "m_merge_list": ("v", MID + NESTED, False),
    "m_merge_extend": ("v", MID + NESTED, False),
    "m_oc_update": ("kv", LITE + NESTED, False),
    "m_oc_update_force": ("kv", ("none", "int", "dict", "list", "node", "cfg"), False),
    "m_resolve": ("", (), False),
}
OTHER_KEYS = (NONE, TRUE, K(1.5), K(b"b"))

# set-ups: name -> {path of a container: (kind, existing keys, absent key)}
SETUPS = {
    "s_dict": {(): ("d", ("a", "b"), "nw"), ("b",): ("d", ("x",), "nw"), ("c",): ("l", (0, 1), 7)},
    "s_list": {(): ("l", (0, 1), 7), (1,): ("d", ("x",), "nw"), (2,): ("l", (0,), 7)},
    "s_struct": {(): ("d", ("age", "addr", "lst", "u"), "nw"), ("addr",): ("d", ("no",), "nw"), ("lst",): ("l", (0,), 7), ("dct",): ("d", ("k",), "nw")},
    "s_typed_dict": {("t",): ("d", ("k",), "nw")},
    "s_typed_list": {("t",): ("l", (0,), 7)},
    "s_dict_of_user": {("t",): ("d", ("k",), "nw")},
    "s_empty": {("d",): ("d", (), "nw"), ("l",): ("l", (), 7)},
}


TYPED = {
    "s_leafs": {(): ("d", ("s", "i", "f", "b", "by", "p", "e", "oi", "os", "u", "ou", "anyv"), "nw")},
    "s_conts": {
        ("li",): ("l", (0,), 7), ("lo",): ("l", (0,), 7), ("lu",): ("l", (0,), 7), ("la",): ("l", (0,), 7),
        ("df",): ("d", ("k",), "nw"), ("de",): ("d", ("k",), "nw"), ("da",): ("d", ("k",), "nw"), ("dd",): ("d", ("k",), "nw"), ("dd", "k"): ("d", ("q",), "nw"),
        ("a",): ("d", ("no",), "nw"), ("oa",): ("d", ("no",), "nw"),
        (): ("d", ("li", "lo", "df", "de", "a", "oa", "la", "da", "dd", "lu"), "nw"),
    },
    "s_keyed": {(k,): ("d", ex, ab) for k, ex, ab in (("i", (1,), 7), ("f", (1.5,), 2.5), ("b", (True,), False), ("by", (b"k",), b"n"), ("s", ("k",), "nw"), ("any", ("k", 1), 7), ("e", ("RED",), "GREEN"))},
}
DEEPT = {
    "s_deept": {
        (): ("d", ("ld", "dl", "do", "ll"), "nw"),
        ("ld",): ("l", (0,), 7), ("ld", 0): ("d", ("k",), "nw"), ("dl",): ("d", ("k",), "nw"), ("dl", "k"): ("l", (0,), 7), ("do",): ("d", ("k",), "nw"), ("ll",): ("l", (0,), 7),
    },
}
C_OPS = ("c_any", "c_string", "c_integer", "c_float", "c_boolean", "c_bytes", "c_path", "c_enum", "c_union", "c_union2", "c_list_int", "c_dict_float", "c_dict_ref", "c_list_ref", "c_structured_int", "c_structured_union", "c_structured_addr")


def keys_of(kind, existing, absent, more):
    if kind == "d":
        ks = [K(x) for x in existing] + [K(absent)]
        if more:
            ks += [A_STR, A_INT, *OTHER_KEYS]
        return tuple(ks)
    ks = [K(x) for x in existing] + [K(-1), K(-2), K(absent)]
    if more:
        ks += [K(-9), A_STR, NONE]
    return tuple(ks)


def oc_keys(kind, ex, ab):
    """keys of OmegaConf.update: strings, plain and dotted"""
    ks = [K(str(x)) for x in ex] + [K(str(ab))]
    if kind == "d":
        ks.append(A_STR)
        if ex:
            ks += [K(f"{ex[-1]}.nw"), K(f"{ab}.nw")]
    else:
        ks.append(K("-1"))
    return tuple(ks)


def chunks(xs, n):
    xs = list(xs)
    return [xs[i : i + n] for i in range(0, len(xs), n)] or [[]]


def Scn_gen(Scn, setups=None, ops=None, single_only=False, prep=(), kinds=None, morekeys=True, kc=4, vc=5, prep_target=None, tag="", tier="quick", table=None, **kw):
    """scenarios for every set-up x container x operation, keys and argument kinds in chunks"""
    out = []
    for su, tg in (table or SETUPS).items():
        if setups is not None and su not in setups:
            continue
        for p, (kind, ex, ab) in tg.items():
            for op, (uses, ks, single) in (D_OPS if kind == "d" else L_OPS).items():
                if single_only and not single or ops is not None and op not in ops:
                    continue
                keys = keys_of(kind, ex, ab, morekeys) if "k" in uses else (NONE,)
                if op.startswith("m_oc_update"):
                    keys = oc_keys(kind, ex, ab)
                if "v" in uses:
                    vs = tuple(ks if ks is not None else (kinds or FULL))
                    if kinds is not None and ks is not None:
                        vs = tuple(x for x in vs if x in kinds)
                else:
                    vs = ("none",)
                both = "k" in uses and "v" in uses
                pr = list(prep)
                if prep_target:
                    pr = pr + [(f, p) + tuple(rest) for f, *rest in prep_target]
                merge = op in ("m_merge_with_key", "m_update", "m_ior")
                k1, v1 = (3, 3) if merge and p else (kc, vc)
                kcs = chunks(keys, k1) if both else [keys]
                vcs = chunks(vs, v1 if both else 2 * v1)
                kw1 = dict(kw)
                if op == "m_resolve":
                    kw1.update(cont="target", leaves=3)
                for i, kk in enumerate(kcs):
                    for j, vv in enumerate(vcs):
                        t = tag
                        if len(kcs) * len(vcs) > 1:
                            t = (tag + "-" if tag else "") + f"k{i}v{j}"
                        out.append(Scn(su, p, op, kk, vv, pr, tag=t, **kw1))
    return out
