"""C06: reading a config does not modify it."""
from . import common
from .catalog import *
from sa.sweep import Scn

BOTH = {
    "r_getitem": "k", "r_get": "k", "r_get_default": "kv", "r_in": "k", "r_len": "", "r_iter": "", "r_eq_self": "", "r_eq": "v", "r_ne": "v", "r_str": "", "r_repr": "", "r_dir": "",
    "r_copy": "", "r_copycopy": "", "r_deepcopy": "", "r_to_container": "", "r_to_container_resolve": "", "r_to_container_throw": "", "r_to_object": "", "r_to_container_dictconfig": "",
    "r_to_yaml": "", "r_to_yaml_resolve": "", "r_select": "s", "r_select_default": "s", "r_is_missing": "k", "r_is_interpolation": "k", "r_missing_keys": "", "r_get_type": "", "r_flags": "", "r_full_key": "k",
    "r_merge": "v", "r_create": "", "r_create_dict": "", "r_getstate": "", "r_hash": "",
}
DICT = dict(BOTH, r_getattr="k", r_keys="", r_values="", r_items="", r_items_ex="", r_masked="k", r_merge_key="kv", r_dictconfig="", r_merge_into="v")
LIST = dict(BOTH, r_slice="", r_index="v", r_count="v", r_add="v", r_radd="v", r_listconfig="")
BIG = ("r_add", "r_radd", "r_count", "r_index", "r_eq_self", "r_masked", "r_merge_key", "r_merge_into", "r_to_object", "r_merge")
VK = ("none", "int", "str", "dict", "list", "node", "cfg", "lcfg", "userobj")
READ_SETUPS = {
    "s_dict": {(): ("d", ("a", "b", "c"), "nw"), ("b",): ("d", ("x",), "nw"), ("c",): ("l", (0, 1), 7)},
    "s_list": {(): ("l", (0, 1), 7)},
    "s_struct": {(): ("d", ("age", "addr", "lst", "u"), "nw"), ("lst",): ("l", (0,), 7), ("dct",): ("d", ("k",), "nw")},
    "s_typed_dict": {("t",): ("d", ("k",), "nw")},
}


ODD = {
    "s_uncopy": {(): ("d", ("a", "l"), "nw"), ("a",): ("d", ("b", "x"), "nw"), ("l",): ("l", (0, 1), 7)},
    "s_fails": {(): ("d", ("a", "l", "m"), "nw"), ("a",): ("d", ("x", "bad"), "nw"), ("l",): ("l", (0, 1), 7), ("m",): ("d", ("k",), "nw")},
}


def judge(c, t, v, s):
    lab = c.lab
    site = None
    if lab.tree(c.root, s, True) != lab.tree(c.root, s, False):
        yield "changed", "the config is modified by a read", lab.site(s, lab.changed(s, c.init_ids))
        return
    for where, kind, msg in lab.integrity(c.root, s):
        yield "links", msg + " after a read", lab.site(s, lab.changed(s, c.init_ids))
        return


def gen(tier, table=READ_SETUPS, ops=None, leaves=3, cont="target", kinds=VK):
    q = tier == "quick"
    out = []
    for su, tg in table.items():
        for p, (kind, ex, ab) in tg.items():
            for op, uses in (DICT if kind == "d" else LIST).items():
                if ops is not None and op not in ops:
                    continue
                keys = [NONE]
                vs = ("none",)
                if "k" in uses:
                    keys = keys_of(kind, ex, ab, True)
                if "s" in uses:
                    keys = oc_keys(kind, ex, ab)
                if "v" in uses or op == "r_select_default":
                    vs = kinds
                big = op in BIG
                for i, vv in enumerate(chunks(vs, 3 if big else 5)):
                    for j, kk in enumerate(chunks(keys, 12 if "v" not in uses and not big else 4)):
                        out.append(Scn(su, p, op, kk, vv, tag=f"k{j}v{i}", leaves=(2 if big else leaves) if q else 5, cont=cont))
    return out


def scenarios(tier):
    return gen(tier) + gen(tier, ODD, leaves=0, cont=(), kinds=("int", "dict", "cfg"))


def check(root, tier):
    return common.run(
        root, tier, scenarios(tier), judge,
        rule="in every final state (normal or exceptional) of a reading or copying entry point the tree of values, contents, types, keys and flags of the config equals the tree of the pre-state and all parent links and keys are intact",
        explanation="Path-sensitive abstract interpretation of every reading entry point; the heap before and after is compared.",
    )
