"""Running scenarios: {abstract pre-state} entry point {predicate on every final state}."""
import ast
import gc
import multiprocessing as mp
import os
import time
import traceback

from .interp import A_ANYSTR, A_BYTES, A_FLOAT, A_INT, A_INTERP, A_STR, MISS, Atom, Budget
from .scen import Lab
from .values import *  # noqa


class Scn:
    """one obligation: a set-up program, a target inside it, an operation with symbolic key and value"""

    def __init__(self, setup, path, op, keys=(NONE,), kinds=("none",), prep=(), cont=True, leaves=True, content_of=("none", "missing", "interp"), tag="", extra=None):
        self.setup = setup
        self.path = tuple(path)
        self.op = op
        self.keys = tuple(keys)
        self.kinds = tuple(kinds)
        self.prep = tuple(prep)  # (client function, path, extra abstract args...)
        self.cont = cont
        self.leaves = leaves
        self.content_of = content_of
        self.tag = tag
        self.extra = extra or {}

    @property
    def id(self):
        p = ".".join(str(x) for x in self.path)
        return f"{self.setup}/{p or 'root'}/{self.op}" + (f"/{self.tag}" if self.tag else "")


class Ctx:
    pass


def prepare(lab, sc):
    """-> [Ctx]: every pre-state of the scenario"""
    out = []
    for root, st in lab.run1(sc.setup, [], lab.start()):
        tgt = lab.path(root, sc.path, st)
        for p in sc.prep:
            r = lab.run1(p[0], [lab.path(root, p[1], st)] + list(p[2:]), st)
            assert len(r) == 1, (sc.id, p, len(r))
            st = r[0][1]
        if sc.leaves or sc.cont == "target":
            conts = [x for x in lab.nodes(root, st) if x != root] if sc.cont else ()
            if sc.cont == "target":
                conts = (tgt,) if tgt != root else ()
            st = lab.generalise(root, st, leaves=sc.leaves, containers=conts, content_of=sc.content_of)
        if sc.extra.get("missing"):
            st = st.fork()
            nd = lab.path(root, sc.extra["missing"], st)
            lab.special(nd, (st.get(nd).attrs["_content"], MISS), st)
        if sc.extra.get("special"):
            st = st.fork()
            nd = lab.path(root, sc.extra["special"], st)
            o = st.get(nd)
            opt = lab.attr(o.attrs["_metadata"], "optional", st) == TRUE
            lab.special(nd, (o.attrs["_content"], MISS, K(sc.extra.get("spectext", "${nokey}"))) + ((NONE,) if opt else ()), st)
        if "lits" in sc.extra:
            st = lab.literal_leaves(root, st, sc.extra["lits"], sc.extra.get("only"))
        dom, st, roots = lab.args_dom(st, sc.kinds)
        k = st.sym(sc.keys, "key") if len(sc.keys) != 1 or isinstance(sc.keys[0], Atom) else sc.keys[0]
        v = st.sym(dom, "value") if len(dom) != 1 or isinstance(dom[0], Atom) else dom[0]
        st = lab.freeze(st, [root, k, v] + list(roots))
        c = Ctx()
        c.lab, c.sc, c.root, c.tgt, c.k, c.v, c.args, c.st = lab, sc, root, tgt, k, v, roots, st
        c.init_ids = lab.reach(st, [root])
        out.append(c)
    return out


def contradictory(st):
    """the path assumed two values (un)equal that later turned out to be certain constants (not) equal: no such path"""
    for k, f in st.facts.items():
        if k[0] != "eq" or not isinstance(f, bool) or len(k) != 3:
            continue
        a, b = st.res(k[1]), st.res(k[2])
        if a == b and isinstance(a, S):
            if not f:
                return True
        elif isinstance(a, K) and isinstance(b, K):
            try:
                if bool(a.v == b.v) != f:
                    return True
            except Exception:
                pass
    return False


def run_scn(lab, sc, judge, max_steps):
    ip = lab.ip
    ip.steps = 0
    ip.max_steps = max_steps
    ip.rec_raises = bool(sc.extra.get("recursion"))
    ip.MAXREC = sc.extra.get("maxrec") or type(ip).MAXREC
    ip.MAXDEPTH = sc.extra.get("recursion") or type(ip).MAXDEPTH
    t0 = time.time()
    res = {"id": sc.id, "outs": 0, "normal": 0, "raising": 0, "imprecise": 0, "complete": True, "why": "", "findings": [], "funcs": set()}
    ip.calls_seen.clear()
    ip.truncated = []
    try:
        for c in prepare(lab, sc):
            outs = lab.call(sc.op, [c.tgt, c.k, c.v], c.st)
            for t, v, s in outs:
                if contradictory(s):
                    continue
                res["outs"] += 1
                res["normal" if t == "n" else "raising"] += 1
                if s.imprec:
                    res["imprecise"] += 1
                    res["why"] = s.imprec[0]
                    continue
                for f in judge(c, t, v, s) or ():
                    kind, msg, site = f
                    fn = lab.func_at(site)
                    key = f"{sc.op}|{kind}|{fn}"
                    res["findings"].append((key, f"{msg}", site, fn, describe(lab, c, t, v, s), (sc.setup, ".".join(map(str, sc.path)))))
        if ip.truncated:
            res["complete"] = False
            res["why"] = "cut off: %s at %s:%s" % (ip.truncated[0][2], ip.truncated[0][0], ip.truncated[0][1])
        if not res["outs"]:
            res["complete"] = False
            res["why"] = "no path reaches an end"
    except Budget:
        res["complete"] = False
        res["why"] = "step budget"
    except RecursionError:
        res["complete"] = False
        res["why"] = "recursion"
    except Exception as e:
        res["complete"] = False
        tb = traceback.extract_tb(e.__traceback__)[-1]
        res["why"] = f"engine: {type(e).__name__}: {str(e)[:80]} at {os.path.basename(tb.filename)}:{tb.lineno}"
    res["funcs"] = set(ip.calls_seen)
    res["steps"] = ip.steps
    res["wall"] = time.time() - t0
    return res


def describe(lab, c, t, v, s):
    out = [f"scenario: {c.sc.id}", "key = " + lab.show(c.k, s) + ", value = " + lab.show(c.v, s), "outcome: " + ("returns normally" if t == "n" else "raises " + lab.excname(v, s))]
    if "lits" in c.sc.extra:
        for n in lab.nodes(c.root, c.st):
            a = s.init[n.i].attrs
            if "_val" in a:
                out.append(f"leaf {lab.show(s.res(s.init[n.i].attrs.get('_metadata', NONE)) if False else s.res(s.get(s.res(a['_metadata'])).attrs['key']), s)} ({lab.clsname(n, s)}) = {lab.show(s.res(a['_val']), s)}")
    out.append("path (analysed, not executed):")
    return out + lab.describe(s)


_W = {}


def _work(i):
    try:
        return run_scn(_W["lab"], _W["scns"][i], _W["judge"], _W["max_steps"])
    finally:
        _W["lab"].ip.m.reset() if hasattr(_W["lab"].ip.m, "reset") else None


def sweep(root, scns, judge, max_steps=1_500_000, procs=None, lab=None, budget_s=None):
    lab = lab or Lab(root)
    _W.update(lab=lab, scns=scns, judge=judge, max_steps=max_steps)
    gc.freeze()
    gc.disable()
    procs = procs or int(os.environ.get("VERIF_PROCS", "0")) or os.cpu_count() or 4
    out = []
    t0 = time.time()
    with mp.get_context("fork").Pool(procs, maxtasksperchild=12) as pool:
        it = pool.imap_unordered(_work, range(len(scns)), chunksize=1)
        for _ in range(len(scns)):
            try:
                r = it.next(timeout=max(1, budget_s - (time.time() - t0))) if budget_s else it.next()
            except mp.TimeoutError:
                pool.terminate()
                break
            out.append(r)
    return lab, out
