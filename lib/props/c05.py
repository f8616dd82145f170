"""C05: after every mutator, each node knows its true parent and its true key."""
from . import common
from .catalog import *
from sa.sweep import Scn

QUICK_KINDS = ("none", "int", "dict", "list", "node", "intnode", "childnode", "cfg", "lcfg", "nonecfg")


def judge(c, t, v, s):
    for where, kind, msg in c.lab.integrity(c.root, s):
        ids = c.lab.changed(s, c.init_ids)
        yield "integrity-" + kind, msg + (" (after the call failed)" if t == "x" else ""), c.lab.site(s, ids)


def scenarios(tier):
    q = tier == "quick"
    return Scn_gen(Scn, kinds=QUICK_KINDS if q else None, tier=tier, morekeys=not q, vc=4, cont="target")


def check(root, tier):
    return common.run(
        root, tier, scenarios(tier), judge,
        rule="in every final state of a mutating entry point (normal or exceptional) every node reachable from the root has the parent link of the container it is stored in, records the key or index it is stored under, is stored once, and containers store nodes only",
        explanation="Path-sensitive abstract interpretation of every public mutator from generated pre-states; the parent/key typestate of every node of the final heap is compared with its position.",
    )
