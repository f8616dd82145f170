"""C07: configs are never entangled with their inputs or with each other."""
from . import common
from .catalog import *
from .c06 import READ_SETUPS
from sa.scen import links, owned
from sa.sweep import Scn

MUT = ("dict", "list", "node", "intnode", "childnode", "cfg", "lcfg", "interpcfg", "nonecfg", "missingcfg", "nonelist", "userobj", "nested", "nestedlist", "holder", "nodeobj")
QUICK = ("dict", "list", "node", "childnode", "cfg", "lcfg", "userobj", "nested", "nestedlist")
OPS = ("m_setitem", "m_setattr", "m_setdefault", "m_update", "m_update_kw", "m_append", "m_insert", "m_extend", "m_iadd", "m_setslice", "m_merge_with", "m_merge_with_key", "m_merge_list", "m_merge_extend", "m_oc_update", "m_oc_update_nomerge")
NEW_V = ("r_from_cfg_args", "r_structured", "r_create_in", "r_dictconfig_v", "r_listconfig_v", "r_merge", "r_merge_into", "r_add", "r_radd")
NEW_T = ("r_deepcopy", "r_create", "r_create_dict", "r_to_container", "r_to_container_resolve", "r_to_object", "r_masked", "r_slice", "r_copy", "r_copycopy", "r_dictconfig", "r_listconfig")
COPY = ()


def judge(c, t, v, s):
    lab, op = c.lab, c.sc.op
    newop = op.startswith("r_")
    site = lambda: lab.site(s, lab.changed(s, c.init_ids | in_ids))  # noqa
    ins = [r for r in c.args]
    in_ids = lab.reach(s, ins) if ins else set()
    # inputs are as they were
    for r in ins + ([c.root] if newop else []):
        if lab.tree(r, s, True) != lab.tree(r, s, False):
            yield "input-changed", "an input of the call is modified" if r != c.root else "the config the call starts from is modified", site()
            break
        if links(lab, s, [r], True) != links(lab, s, [r], False):
            yield "input-relinked", "the parent link of an input node is changed", site()
            break
    if t == "x" and newop:
        return
    # nothing is shared
    now = owned(lab, s, [v] if newop else [c.root])
    old = owned(lab, s, ins + ([c.root] if newop else []), True)
    if not newop:
        for i in owned(lab, s, [c.root], True):
            old.pop(i, None)
    for i in sorted(set(now) & set(old)):
        yield "shared", f"{now[i]} of the result is the same mutable object as {old[i]} of an input", site()
        break
    if newop and lab.isnode(s.res(v), s):
        for where, kind, msg in lab.integrity(v, s):
            yield "links-" + kind, msg, site()
            break


def scenarios(tier):
    q = tier == "quick"
    kinds = QUICK if q else MUT
    out = Scn_gen(Scn, kinds=kinds, ops=OPS, morekeys=False, cont="target", kc=4, vc=3, setups=("s_dict", "s_list", "s_struct", "s_typed_list", "s_empty") if q else None, tier=tier, leaves=3)
    for su, p, op, kk in (("s_dict", (), "m_setattr_twice", "nw"), ("s_dict", ("c",), "m_append_twice", 0)):
        for i, vv in enumerate(chunks(kinds, 3)):
            out.append(Scn(su, p, op, (K(kk),), vv, tag=f"v{i}", cont=(), leaves=2))
    for su, tg in READ_SETUPS.items():
        for p, (kind, ex, ab) in tg.items():
            for op in NEW_T:
                if op in ("r_slice", "r_listconfig") and kind == "d" or op in ("r_masked", "r_dictconfig") and kind == "l":
                    continue
                out.append(Scn(su, p, op, (K(ex[0]),), ("none",), cont="target", leaves=2))
            for op in NEW_V:
                if op in ("r_add", "r_radd") and kind == "d":
                    continue
                if op in ("r_from_cfg_args", "r_structured", "r_create_in", "r_dictconfig_v", "r_listconfig_v") and (su, p) != ("s_dict", ()):
                    continue
                for i, vv in enumerate(chunks(kinds, 3)):
                    out.append(Scn(su, p, op, (K(ex[0]),), vv, tag=f"v{i}", cont=(), leaves=2))
    return out


def check(root, tier):
    return common.run(
        root, tier, scenarios(tier), judge,
        rule="in every final state of a writing, merging, copying or converting entry point: every input (argument, and the source config of a call that returns a new object) has the values, types, keys, flags and parent links it had before, and no mutable object (node, metadata, flag table, list or dict) is owned both by the result and by an input",
        explanation="Path-sensitive abstract interpretation with an ownership analysis of the final heap: the sets of objects owned by inputs before the call and by the result after it are intersected.",
    )
