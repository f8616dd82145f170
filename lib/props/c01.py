"""C01: a read-only config is not modified by any public mutator."""
from . import common
from .catalog import *
from sa.sweep import Scn

MUST_RAISE = {"m_setitem", "m_setattr", "m_append", "m_insert", "m_delitem", "m_delattr", "m_extend", "m_iadd", "m_setslice", "m_setslice_all", "m_setslice_end", "m_delslice_back", "m_delslice_step", "m_delslice", "m_update", "m_update_kw"}
QUICK_KINDS = ("none", "missing", "interp", "int", "str", "dict", "list", "emptylist", "node", "intnode", "cfg", "lcfg", "nonecfg", "nonelist", "interpcfg") + BARE


def judge(c, t, v, s):
    lab = c.lab
    protected = c.tgt if c.sc.extra.get("only_target") else c.root
    if lab.tree(protected, s, True) != lab.tree(protected, s, False):
        ids = lab.changed(s, c.init_ids)
        yield "changed", "a read-only config is modified" + ("" if t == "n" else " before the call fails"), lab.site(s, ids)
    elif t == "n" and c.sc.op in MUST_RAISE:
        yield "silent", "a write to a read-only config is ignored instead of being rejected", None


def scenarios(tier):
    q = tier == "quick"
    kinds = QUICK_KINDS if q else None
    out = Scn_gen(Scn, prep_target=[("touch",)], prep=[], kinds=kinds, tier=tier, tag="root", morekeys=not q, vc=4)
    for su in ("s_dict", "s_list", "s_struct"):
        table = {su: {p: d for p, d in SETUPS[su].items() if p}}
        out += Scn_gen(Scn, table=table, prep_target=[("set_struct", FALSE), ("touch",)], kinds=("int", "dict", "node"), tier=tier, tag="flagged", morekeys=False, vc=4, cont=(), leaves=0)
    short = {"s_short": {("l",): ("l", (0,), 7), ("e",): ("l", (), 7), ("d",): ("d", ("x",), "nw"), ("ed",): ("d", (), "nw")}}
    out += Scn_gen(Scn, table=short, prep_target=[("set_struct", FALSE), ("touch",)], kinds=("int", "dict", "node", "emptylist", "emptydict") if q else kinds, tier=tier, tag="short", morekeys=False, vc=4, cont=(), leaves=0)
    for sc in out:
        sc.prep = tuple(sc.prep) + (("set_ro", ()),)
    out += Scn_gen(Scn, prep_target=[("set_ro",)], kinds=("none", "int", "dict", "list", "node", "cfg") if q else kinds, tier=tier, tag="self", morekeys=False, setups=("s_dict", "s_struct"), extra={"only_target": True}, cont="target")
    return out


def check(root, tier):
    return common.run(
        root, tier, scenarios(tier), judge,
        rule="for every final state of a mutating entry point started on a config whose read-only flag is set on the root or on the target: the config tree (values, contents, types, keys, flags) equals the tree in the pre-state, and explicit writes end in an exception",
        explanation="Path-sensitive abstract interpretation of every public mutator from generated read-only pre-states; obligations are (set-up, container, operation, keys, argument kinds) tuples; a finding names the statement that last wrote the modified object.",
    )
