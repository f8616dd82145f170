"""C03: a rejected single-element write leaves the whole config as it was."""
from . import common
from .catalog import *
from sa.sweep import Scn

QUICK_KINDS = ("none", "missing", "int", "str", "dict", "list", "node", "cfg", "lcfg", "enum", "object", "userobj", "class", "badobj", "badcfg", "badlcfg", "baddict", "uncopy", "bigint")


def judge(c, t, v, s):
    if t != "x":
        return
    lab = c.lab
    if lab.tree(c.root, s, True) != lab.tree(c.root, s, False):
        ids = lab.changed(s, c.init_ids)
        yield "half-done", "the call fails with " + lab.excname(v, s) + " but the config has changed", lab.site(s, ids)
    else:
        for where, kind, msg in lab.integrity(c.root, s):
            ids = lab.changed(s, c.init_ids)
            yield "half-done-" + kind, msg + " after the call failed", lab.site(s, ids)
            break


def scenarios(tier):
    q = tier == "quick"
    kinds = QUICK_KINDS if q else FULL + ("badobj", "badcfg", "badlcfg", "baddict", "uncopy", "bigint")
    out = Scn_gen(Scn, kinds=kinds, single_only=True, tier=tier, morekeys=True, vc=5, kc=5, cont="target")
    out += Scn_gen(Scn, prep_target=[("set_struct", TRUE)], kinds=("int", "dict", "node") if q else kinds, single_only=True, tier=tier, tag="struct", setups=("s_dict", "s_struct"), cont="target", vc=5, kc=5)
    out += Scn_gen(Scn, table=TYPED, setups=("s_conts",), kinds=("bigint", "uncopy", "badobj"), single_only=True, tier=tier, morekeys=False, cont=())
    for key in ("lst", "addr", "dct"):
        for op in ("m_setitem", "m_setattr"):
            out.append(Scn("s_struct", (), op, (K(key),), ("badlcfg", "badcfg", "badobj", "baddict", "int", "nonecfg", "nonelist"), [("set_struct", (key,), FALSE)], tag="flagged-" + key))
    return out


def check(root, tier):
    return common.run(
        root, tier, scenarios(tier), judge,
        rule="in every exceptional final state of a single-element mutator (item and attribute assignment and deletion, append, insert, pop, setdefault) the tree of values, types, keys and flags equals the tree of the pre-state",
        explanation="Path-sensitive abstract interpretation of every single-element mutator; exceptional exits are compared with the pre-state.",
    )
