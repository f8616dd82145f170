"""Disjunctive abstract interpreter for Python syntax trees.

Evaluation functions take a state they own and return the list of all abstract outcomes:
    ('n', value, state)   normal completion
    ('x', exc,   state)   an exception is raised
    ('r', value, state)   return      ('b'|'c', None, state) break / continue
    ('g', None,  state)   the generator being run inline is closed
No omegaconf code is executed; every step is a transfer function over abstract states.
"""
import ast
import builtins
import importlib
import sys

from .values import *  # noqa: F401,F403
from .values import SITE, State, newid  # noqa
from . import values as _v


class Budget(Exception):
    pass


class ClassInfo:
    __slots__ = ("name", "module", "bases", "mro", "env", "fields", "is_enum", "members", "node", "dc_frozen", "orig_bases", "qual", "abstract", "is_dc")

    def __init__(self, name, module):
        self.name = name
        self.module = module
        self.bases = []
        self.mro = []
        self.env = None
        self.fields = None
        self.is_enum = False
        self.members = {}
        self.node = None
        self.dc_frozen = False
        self.is_dc = False
        self.orig_bases = ()
        self.qual = name

    def __repr__(self):
        return f"<cls {self.name}>"


class FuncInfo:
    __slots__ = ("name", "qual", "node", "module", "file", "cls", "is_gen", "globals_", "nonlocals", "lam", "locs")

    def __init__(self, name, qual, node, module, file, cls):
        self.name = name
        self.qual = qual
        self.node = node
        self.module = module
        self.file = file
        self.cls = cls
        self.lam = isinstance(node, ast.Lambda)
        self.is_gen = (not self.lam) and _has_yield(node)
        self.globals_ = set()
        self.nonlocals = set()
        if not self.lam:
            for n in _walk_own(node):
                if isinstance(n, ast.Global):
                    self.globals_.update(n.names)
                elif isinstance(n, ast.Nonlocal):
                    self.nonlocals.update(n.names)

    def __repr__(self):
        return f"<fn {self.qual}>"


def _walk_own(node):
    st = list(node.body)
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))


def _has_yield(node):
    for n in _walk_own(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


class Atom:
    """element of a symbolic domain standing for many run-time values of one type"""

    __slots__ = ("name", "pytype", "mk", "truth", "hashable")

    def __init__(self, name, pytype, mk=None, truth=None, hashable=True):
        self.name = name
        self.pytype = pytype
        self.mk = mk
        self.truth = truth
        self.hashable = hashable

    def __repr__(self):
        return f"<{self.name}>"

    def __eq__(self, o):
        return isinstance(o, Atom) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


A_STR = Atom("STR", str)  # a string that is neither '???' nor contains '${'
A_INTERP = Atom("INTERP", str, truth=True)  # a string that contains '${'
A_ANYSTR = Atom("ANYSTR", str)
A_INT = Atom("INT", int)
A_FLOAT = Atom("FLOAT", float)
A_BYTES = Atom("BYTES", bytes)


class IntSub(int):
    """a subclass of int (IntEnum, numpy.int64, ...)"""


class FloatSub(float):
    pass


class StrSub(str):
    pass


class BytesSub(bytes):
    pass


A_SUBINT = Atom("SUBINT", IntSub)
A_SUBFLOAT = Atom("SUBFLOAT", FloatSub)
A_SUBSTR = Atom("SUBSTR", StrSub)
A_SUBBYTES = Atom("SUBBYTES", BytesSub)
MISS = K("???")


class Frame:
    __slots__ = ("env", "fn", "module", "cls", "yield_cb", "depth", "file", "line", "parent", "selfv")

    def __init__(self, env, fn, module, cls, file, parent):
        self.env = env
        self.fn = fn
        self.module = module
        self.cls = cls
        self.file = file
        self.yield_cb = None
        self.depth = parent.depth + 1 if parent else 0
        self.parent = parent
        self.line = 0
        self.selfv = None


def n(v, st):
    return [("n", v, st)]


class Interp:
    MAXDEPTH = 90
    rec_raises = False
    MAXREC = 6

    def __init__(self, prog):
        self.prog = prog
        self.steps = 0
        self.max_steps = 10**9
        self.calls_seen = {}
        self.summaries = {}
        self.summaries_used = {}
        self.sites = set()
        self.hooks = []
        self.truncated = []
        self.assert_raises = True
        self.maxstates = 4000
        self.paths = 0
        self._exd = {}
        self._evd = {}
        for name in dir(self):
            if name.startswith("ev_"):
                self._evd[getattr(ast, name[3:])] = getattr(self, name)
            elif name.startswith("ex_"):
                self._exd[getattr(ast, name[3:])] = getattr(self, name)
        from .models import Models

        self.m = Models(self)

    # ------------------------------------------------------------ exceptions
    def exc_cls(self, name):
        c = getattr(builtins, name, None)
        if c is not None:
            return c
        return self.prog.find_class(name)

    def mkexc(self, cls, st, args=()):
        """exception object of class cls (real type or ClassInfo)"""
        if isinstance(cls, str):
            cls = self.exc_cls(cls)
        attrs = {"args": T(args)}
        if isinstance(cls, ClassInfo):
            for k, v in self.prog.class_defaults(cls, st).items():
                attrs.setdefault(k, v)
        return st.new(Inst((cls,), attrs))

    def raise_(self, cls, st, *args):
        return [("x", self.mkexc(cls, st, args), st)]

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr, st):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget("steps")
        f = self._evd.get(type(e))
        if f is None:
            st.imp(f"unsupported expression {type(e).__name__}")
            return n(Top(type(e).__name__), st)
        return f(e, fr, st)

    def evs(self, es, fr, st):
        """evaluate a list of expressions left to right -> ('n', [vals], st)"""
        outs = [("n", [], st)]
        for e in es:
            nxt = []
            for tag, vs, s in outs:
                if tag != "n":
                    nxt.append((tag, vs, s))
                    continue
                if isinstance(e, ast.Starred):
                    for t2, v, s2 in self.ev(e.value, fr, s):
                        if t2 != "n":
                            nxt.append((t2, v, s2))
                            continue
                        for t3, xs, s3 in self.m.to_list(v, s2, fr):
                            nxt.append((t3, vs + xs if t3 == "n" else xs, s3))
                else:
                    for t2, v, s2 in self.ev(e, fr, s):
                        nxt.append((t2, vs + [v] if t2 == "n" else v, s2))
            outs = nxt
        return outs

    def ev_Constant(self, e, fr, st):
        return n(K(e.value), st)

    def lookup(self, name, fr, st):
        env = fr.env
        while env is not None:
            o = st.heap[env]
            v = o.vars.get(name)
            if v is not None:
                return v
            env = o.parent
        v = self.prog.module_var(fr.module, name, st)
        if v is not None:
            return v
        return self.m.builtin(name)

    def ev_Name(self, e, fr, st):
        v = self.lookup(e.id, fr, st)
        if v is None:
            return self.raise_("NameError", st, K(e.id))
        return n(v, st)

    def mangle(self, name, fr):
        if name.startswith("__") and not name.endswith("__") and fr.cls is not None:
            return "_" + fr.cls.name.lstrip("_") + name
        return name

    def ev_Attribute(self, e, fr, st):
        out = []
        fr.line = e.lineno
        for tag, v, s in self.ev(e.value, fr, st):
            if tag != "n":
                out.append((tag, v, s))
            else:
                out.extend(self.m.getattr(v, self.mangle(e.attr, fr), s, fr))
        return out

    def ev_Subscript(self, e, fr, st):
        out = []
        for tag, vs, s in self.evs([e.value, e.slice], fr, st):
            if tag != "n":
                out.append((tag, vs, s))
            else:
                fr.line = e.lineno
                out.extend(self.m.getitem(vs[0], vs[1], s, fr))
        return out

    def ev_Slice(self, e, fr, st):
        es = [x if x is not None else ast.Constant(None) for x in (e.lower, e.upper, e.step)]
        out = []
        for tag, vs, s in self.evs(es, fr, st):
            if tag != "n":
                out.append((tag, vs, s))
                continue
            vs = [s.res(v) for v in vs]
            if all(isinstance(v, K) for v in vs):
                out.append(("n", K(slice(*[v.v for v in vs])), s))
            else:
                out.append(("n", s.new(Opq("slice", {"start": vs[0], "stop": vs[1], "step": vs[2]})), s))
        return out

    def ev_Tuple(self, e, fr, st):
        return [(t, T(v) if t == "n" else v, s) for t, v, s in self.evs(e.elts, fr, st)]

    def ev_List(self, e, fr, st):
        return [(t, s.new(L(list(v))) if t == "n" else v, s) for t, v, s in self.evs(e.elts, fr, st)]

    def ev_Set(self, e, fr, st):
        return [(t, s.new(Set_(list(v))) if t == "n" else v, s) for t, v, s in self.evs(e.elts, fr, st)]

    def ev_Dict(self, e, fr, st):
        outs = [("n", st.new(D()), st)]
        for k, v in zip(e.keys, e.values):
            nxt = []
            for tag, d, s in outs:
                if tag != "n":
                    nxt.append((tag, d, s))
                    continue
                if k is None:
                    for t2, src, s2 in self.ev(v, fr, s):
                        if t2 != "n":
                            nxt.append((t2, src, s2))
                        else:
                            nxt.extend((t3, d if t3 == "n" else x3, s3) for t3, x3, s3 in self.m.dict_update(d, src, s2, fr))
                else:
                    for t2, kv, s2 in self.evs([k, v], fr, s):
                        if t2 != "n":
                            nxt.append((t2, kv, s2))
                        else:
                            for s3 in self.m.dict_set(d, kv[0], kv[1], s2):
                                nxt.append(("n", d, s3))
            outs = nxt
        return outs

    def ev_JoinedStr(self, e, fr, st):
        es = [x.value if isinstance(x, ast.FormattedValue) else x for x in e.values]
        out = []
        for tag, vs, s in self.evs(es, fr, st):
            if tag != "n":
                out.append((tag, vs, s))
                continue
            vs = [s.res(v) for v in vs]
            simple = all(not (isinstance(x, ast.FormattedValue) and (x.conversion != -1 or x.format_spec)) for x in e.values)
            if simple and all(isinstance(v, K) and isinstance(v.v, (str, int)) for v in vs):
                out.append(("n", K("".join(str(v.v) for v in vs)), s))
            else:
                lit = "".join(x.value for x in e.values if isinstance(x, ast.Constant))
                out.append(("n", s.sym((A_INTERP if "${" in lit else A_STR,), "fstr"), s))
        return out

    def ev_FormattedValue(self, e, fr, st):
        return self.ev(e.value, fr, st)

    def ev_Lambda(self, e, fr, st):
        return self.mkfn(e, fr, st, "<lambda>")

    def mkfn(self, node, fr, st, name):
        key = (fr.file, node.lineno, node.col_offset, name)
        fi = self.prog.finfos.get(key)
        if fi is None:
            qual = (fr.fn.qual + ".<locals>." if fr.fn is not None else (fr.cls.qual + "." if fr.cls is not None else fr.module + ".")) + name
            fi = FuncInfo(name, qual, node, fr.module, fr.file, fr.cls)
            self.prog.finfos[key] = fi
        a = node.args
        out = []
        kwd = [d if d is not None else ast.Constant(None) for d in a.kw_defaults]
        for tag, vs, s in self.evs(list(a.defaults) + kwd, fr, st):
            if tag != "n":
                out.append((tag, vs, s))
                continue
            nd = len(a.defaults)
            kwdef = tuple((arg.arg, vs[nd + i]) for i, arg in enumerate(a.kwonlyargs) if a.kw_defaults[i] is not None)
            env = fr.env
            if env is not None and fr.fn is None:  # module / class body
                env = self.prog.outer_env(env, s)
            out.append(("n", Fn(fi, env, tuple(vs[:nd]), kwdef), s))
        return out

    def ev_IfExp(self, e, fr, st):
        out = []
        for tag, b, s in self.cond(e.test, fr, st):
            if tag != "n":
                out.append((tag, b, s))
            else:
                out.extend(self.ev(e.body if b else e.orelse, fr, s))
        return out

    def ev_BoolOp(self, e, fr, st):
        isand = isinstance(e.op, ast.And)
        outs = [("n", None, st)]
        done = []
        for i, x in enumerate(e.values):
            nxt = []
            for _, _, s in outs:
                for tag, v, s2 in self.ev(x, fr, s):
                    if tag != "n":
                        done.append((tag, v, s2))
                    elif i == len(e.values) - 1:
                        done.append(("n", v, s2))
                    else:
                        for t3, b, s3 in self.truth(v, s2, fr):
                            if t3 != "n":
                                done.append((t3, b, s3))
                            elif b == isand:
                                nxt.append(("n", v, s3))
                            else:
                                done.append(("n", s3.res(v), s3))
            outs = nxt
        return done

    def ev_UnaryOp(self, e, fr, st):
        if isinstance(e.op, ast.Not):
            return [(t, K(not b) if t == "n" else b, s) for t, b, s in self.cond(e.operand, fr, st)]
        out = []
        for tag, v, s in self.ev(e.operand, fr, st):
            if tag != "n":
                out.append((tag, v, s))
                continue
            v = s.res(v)
            if isinstance(v, K) and isinstance(v.v, (int, float)):
                r = -v.v if isinstance(e.op, ast.USub) else +v.v if isinstance(e.op, ast.UAdd) else ~v.v
                out.append(("n", K(r), s))
            else:
                out.append(("n", s.sym((A_INT,), "num"), s))
        return out

    def ev_BinOp(self, e, fr, st):
        out = []
        for tag, vs, s in self.evs([e.left, e.right], fr, st):
            if tag != "n":
                out.append((tag, vs, s))
            else:
                fr.line = e.lineno
                out.extend(self.m.binop(type(e.op), vs[0], vs[1], s, fr))
        return out

    def ev_Compare(self, e, fr, st):
        outs = []
        work = [("n", v, s, 0) if t == "n" else (t, v, s, -1) for t, v, s in self.ev(e.left, fr, st)]
        last = len(e.ops) - 1
        while work:
            tag, left, s, i = work.pop(0)
            if tag != "n":
                outs.append((tag, left, s))
                continue
            for t2, right, s2 in self.ev(e.comparators[i], fr, s):
                if t2 != "n":
                    outs.append((t2, right, s2))
                    continue
                fr.line = e.lineno
                for t3, r, s3 in self.m.compare(type(e.ops[i]), left, right, s2, fr):
                    if t3 != "n" or i == last:
                        outs.append((t3, r, s3))
                        continue
                    for t4, b, s4 in self.truth(r, s3, fr):
                        if t4 != "n":
                            outs.append((t4, b, s4))
                        elif b:
                            work.append(("n", right, s4, i + 1))
                        else:
                            outs.append(("n", FALSE, s4))
        return outs

    def ev_Call(self, e, fr, st):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            if fr.selfv is not None and fr.cls is not None:
                return n(Sup(fr.cls, fr.selfv), st)
        if isinstance(e.func, ast.Name) and e.func.id in ("locals", "vars") and not e.args:
            return n(st.new(D(open_=True)), st)
        outs = []
        for tag, fv, s in self.ev(e.func, fr, st):
            if tag != "n":
                outs.append((tag, fv, s))
                continue
            for t2, args, s2 in self.evs(e.args, fr, s):
                if t2 != "n":
                    outs.append((t2, args, s2))
                    continue
                for t3, kws, s3 in self.evs([k.value for k in e.keywords], fr, s2):
                    if t3 != "n":
                        outs.append((t3, kws, s3))
                        continue
                    kwargs = {}
                    ok = True
                    for k, v in zip(e.keywords, kws):
                        if k.arg is not None:
                            kwargs[k.arg] = v
                        else:
                            d = self.m.kwdict(v, s3)
                            if d is None:
                                s3.imp("opaque ** argument")
                                kwargs["**"] = TRUE
                            else:
                                kwargs.update(d)
                    fr.line = e.lineno
                    self.sites.add((fr.file, e.lineno, e.col_offset))
                    outs.extend(self.call(fv, args, kwargs, s3, fr, e))
        return outs

    def ev_Starred(self, e, fr, st):
        return self.ev(e.value, fr, st)

    def ev_NamedExpr(self, e, fr, st):
        out = []
        for tag, v, s in self.ev(e.value, fr, st):
            if tag == "n":
                self.bindname(e.target.id, v, fr, s)
            out.append((tag, v, s))
        return out

    def ev_Await(self, e, fr, st):
        return self.ev(e.value, fr, st)

    def ev_Yield(self, e, fr, st):
        outs = []
        src = self.ev(e.value, fr, st) if e.value is not None else n(NONE, st)
        for tag, v, s in src:
            if tag != "n":
                outs.append((tag, v, s))
            elif fr.yield_cb is None:
                s.imp("yield outside inline generator")
                outs.append(("n", NONE, s))
            else:
                outs.extend(fr.yield_cb(v, s))
        return outs

    def ev_YieldFrom(self, e, fr, st):
        outs = []
        for tag, v, s in self.ev(e.value, fr, st):
            if tag != "n":
                outs.append((tag, v, s))
            elif fr.yield_cb is None:
                s.imp("yield from")
                outs.append(("n", NONE, s))
            else:
                def body(x, s2):
                    r = []
                    for t, y, s3 in fr.yield_cb(x, s2):
                        r.append((t, y, s3))
                    return r

                outs.extend(("n" if t == "n" else t, NONE if t == "n" else x, s2) for t, x, s2 in self.iterate(v, s, fr, body))
        return outs

    # comprehensions -----------------------------------------------------
    def _comp(self, e, fr, st, elt, emit):
        """runs generators; emit(vals, accref, st)->[st]"""
        kind = type(e)
        acc = st.new(D() if kind is ast.DictComp else Set_() if kind is ast.SetComp else L())
        env = st.new(Env({}, fr.env))
        f2 = Frame(env.i, fr.fn, fr.module, fr.cls, fr.file, fr)
        f2.yield_cb = fr.yield_cb
        f2.selfv = fr.selfv
        f2.depth = fr.depth

        def level(i, s):
            if i == len(e.generators):
                outs = []
                for tag, vs, s2 in self.evs(elt, f2, s):
                    if tag != "n":
                        outs.append((tag, vs, s2))
                    else:
                        for s3 in emit(vs, acc, s2):
                            outs.append(("n", NONE, s3))
                return outs
            g = e.generators[i]
            outs = []
            for tag, it, s2 in self.ev(g.iter, fr if i == 0 else f2, s):
                if tag != "n":
                    outs.append((tag, it, s2))
                    continue

                def body(x, s3):
                    res = []
                    for t4, _, s4 in self.assign(g.target, x, f2, s3):
                        if t4 != "n":
                            res.append((t4, _, s4))
                            continue
                        cur = [("n", True, s4)]
                        for c in g.ifs:
                            nx = []
                            for t5, b, s5 in cur:
                                if t5 != "n" or not b:
                                    nx.append((t5, b, s5))
                                else:
                                    nx.extend(self.cond(c, f2, s5))
                            cur = nx
                        for t5, b, s5 in cur:
                            if t5 != "n":
                                res.append((t5, b, s5))
                            elif b:
                                res.extend(level(i + 1, s5))
                            else:
                                res.append(("n", NONE, s5))
                    return res

                outs.extend(self.iterate(it, s2, fr, body))
            return outs

        st.roots = st.roots + (env.i, acc.i)
        old = st.roots[:-2]
        outs = []
        for tag, v, s in level(0, st):
            s.roots = old
            outs.append((tag, acc if tag == "n" else v, s))
        return outs

    def ev_ListComp(self, e, fr, st):
        def emit(vs, acc, s):
            s.mut(acc).xs.append(vs[0])
            return [s]

        return self._comp(e, fr, st, [e.elt], emit)

    def ev_GeneratorExp(self, e, fr, st):
        out = []
        for tag, v, s in self.ev_ListComp(e, fr, st):
            if tag == "n":
                l = s.get(v)
                out.append(("n", s.new(Iter(tuple(l.xs), 0, l.open)), s))
            else:
                out.append((tag, v, s))
        return out

    def ev_SetComp(self, e, fr, st):
        def emit(vs, acc, s):
            return self.m.set_add(acc, vs[0], s)

        return self._comp(e, fr, st, [e.elt], emit)

    def ev_DictComp(self, e, fr, st):
        def emit(vs, acc, s):
            return self.m.dict_set(acc, vs[0], vs[1], s)

        return self._comp(e, fr, st, [e.key, e.value], emit)

    # ------------------------------------------------------------ truth
    def cond(self, e, fr, st):
        """-> ('n', bool, st)"""
        out = []
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            outs = [st]
            for i, x in enumerate(e.values):
                nxt = []
                for s in outs:
                    for tag, b, s2 in self.cond(x, fr, s):
                        if tag != "n":
                            out.append((tag, b, s2))
                        elif b == isand and i < len(e.values) - 1:
                            nxt.append(s2)
                        else:
                            out.append(("n", b, s2))
                outs = nxt
            return out
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(t, (not b) if t == "n" else b, s) for t, b, s in self.cond(e.operand, fr, st)]
        for tag, v, s in self.ev(e, fr, st):
            if tag != "n":
                out.append((tag, v, s))
            else:
                fr.line = getattr(e, "lineno", fr.line)
                out.extend(self.truth(v, s, fr))
        return out

    def truth(self, v, st, fr):
        return self.m.truth(v, st, fr)

    # ------------------------------------------------------------ statements
    def ex(self, stmts, fr, st):
        """execute a statement list; returns outcomes ('n', None, st) / others"""
        cur = [st]
        done = []
        for s in stmts:
            nxt = []
            f = self._exd.get(type(s))
            for c in cur:
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Budget("steps")
                fr.line = s.lineno
                SITE[0] = fr
                if f is None:
                    c.imp(f"unsupported statement {type(s).__name__}")
                    nxt.append(c)
                    continue
                for o in f(s, fr, c):
                    if o[0] == "n":
                        nxt.append(o[2])
                    else:
                        done.append(o)
            if len(nxt) > 1:
                nxt = self.dedupe_states(nxt)
            cur = nxt
            if not cur:
                break
        if len(cur) > self.maxstates:
            raise Budget("states")
        return [("n", NONE, c) for c in cur] + done

    def ex_Expr(self, s, fr, st):
        return self.ev(s.value, fr, st)

    def ex_Pass(self, s, fr, st):
        return n(NONE, st)

    def ex_Import(self, s, fr, st):
        for a in s.names:
            if a.asname:
                v = self.prog.import_module(a.name, 0, fr.module)
            else:
                v = self.prog.import_module(a.name.split(".")[0], 0, fr.module)
            self.bindname(a.asname or a.name.split(".")[0], v, fr, st)
        return n(NONE, st)

    def ex_ImportFrom(self, s, fr, st):
        for a in s.names:
            if a.name == "*":
                continue
            v = self.prog.import_from(s.module or "", s.level, a.name, fr.module, st)
            self.bindname(a.asname or a.name, v, fr, st)
        return n(NONE, st)

    def ex_Global(self, s, fr, st):
        return n(NONE, st)

    ex_Nonlocal = ex_Global

    def ex_Return(self, s, fr, st):
        if s.value is None:
            return [("r", NONE, st)]
        return [("r" if t == "n" else t, v, x) for t, v, x in self.ev(s.value, fr, st)]

    def ex_Break(self, s, fr, st):
        return [("b", NONE, st)]

    def ex_Continue(self, s, fr, st):
        return [("c", NONE, st)]

    def ex_If(self, s, fr, st):
        outs = []
        br = self.cond(s.test, fr, st)
        t_, f_ = [], []
        for tag, b, x in br:
            if tag != "n":
                outs.append((tag, b, x))
            elif b:
                t_.append(x)
            else:
                f_.append(x)
        if len(t_) > 1:
            t_ = self.dedupe_states(t_)
        if len(f_) > 1:
            f_ = self.dedupe_states(f_)
        both = bool(t_) and bool(f_)
        for x in t_:
            if both:
                x.note((fr.file, s.lineno, "then"))
            outs.extend(self.ex(s.body, fr, x))
        for x in f_:
            if both:
                x.note((fr.file, s.lineno, "else"))
            outs.extend(self.ex(s.orelse, fr, x) if s.orelse else [("n", NONE, x)])
        return outs

    def ex_While(self, s, fr, st):
        outs = []
        cur = [st]
        it = 0
        exits = []
        while cur:
            nxt = []
            for c in cur:
                for tag, b, x in self.cond(s.test, fr, c):
                    if tag != "n":
                        outs.append((tag, b, x))
                    elif not b:
                        exits.append(x)
                    else:
                        for t2, v, y in self.ex(s.body, fr, x):
                            if t2 in ("n", "c"):
                                nxt.append(y)
                            elif t2 == "b":
                                outs.append(("n", NONE, y))
                            else:
                                outs.append((t2, v, y))
            cur = self.dedupe_states(nxt) if len(nxt) > 1 else nxt
            it += 1
            if it > 30:
                if cur:
                    self.truncated.append((fr.file, s.lineno, "while"))
                break
        for x in exits:
            if s.orelse:
                outs.extend(self.ex(s.orelse, fr, x))
            else:
                outs.append(("n", NONE, x))
        return outs

    def ex_For(self, s, fr, st):
        outs = []
        for tag, it, x in self.ev(s.iter, fr, st):
            if tag != "n":
                outs.append((tag, it, x))
                continue
            bid = newid()

            def body(v, s2):
                res = []
                for t3, e3, s3 in self.assign(s.target, v, fr, s2):
                    if t3 != "n":
                        res.append((t3, e3, s3))
                        continue
                    for t4, v4, s4 in self.ex(s.body, fr, s3):
                        if t4 in ("n", "c"):
                            res.append(("n", NONE, s4))
                        else:
                            res.append((t4, v4, s4))
                return res

            fr.line = s.lineno
            for t2, v2, s2 in self.iterate(it, x, fr, body):
                if t2 == "n":
                    if s.orelse:
                        outs.extend(self.ex(s.orelse, fr, s2))
                    else:
                        outs.append(("n", NONE, s2))
                elif t2 == "b":
                    outs.append(("n", NONE, s2))
                else:
                    outs.append((t2, v2, s2))
        return outs

    def iterate(self, it, st, fr, body):
        """run body(x, st) for each element; outcomes: 'n' exhausted, 'b' broke, others propagate.
        body outcome 'n' = go on."""
        outs = []
        for tag, src, s in self.m.iter(it, st, fr):
            if tag != "n":
                outs.append((tag, src, s))
                continue
            src = s.res(src)
            if isinstance(src, R) and isinstance(s.get(src), Gen):
                g = s.get(src)

                def cb(v, s2):
                    r = []
                    for t3, v3, s3 in body(v, s2):
                        if t3 == "n":
                            r.append(("n", NONE, s3))
                        elif t3 == "x":
                            # exception of the loop body: the generator is abandoned (closed)
                            s3.pend = (("x", v3), s3.pend)
                            r.append(("g", NONE, s3))
                        else:
                            s3.pend = ((t3, v3), s3.pend)
                            r.append(("g", NONE, s3))
                    return r

                for t3, v3, s3 in self.run_gen(g, s, fr, cb):
                    if t3 == "g":
                        (tt, vv), rest = s3.pend
                        s3.pend = rest
                        outs.append((tt, vv, s3))
                    elif t3 in ("n", "r"):
                        outs.append(("n", NONE, s3))
                    else:
                        outs.append((t3, v3, s3))
                continue
            cur = [s]
            guard = 0
            while cur:
                nxt = []
                for c in cur:
                    for t2, x, s2 in self.m.next(src, c, fr):
                        if t2 == "stop":
                            outs.append(("n", NONE, s2))
                        elif t2 != "n":
                            outs.append((t2, x, s2))
                        else:
                            for t3, v3, s3 in body(x, s2):
                                if t3 == "n":
                                    nxt.append(s3)
                                else:
                                    outs.append((t3, v3, s3))
                cur = self.dedupe_states(nxt) if len(nxt) > 1 else nxt
                guard += 1
                if guard > 300:
                    if cur:
                        self.truncated.append((fr.file, fr.line, "for"))
                    break
        return outs

    def ex_Assign(self, s, fr, st):
        outs = []
        for tag, v, x in self.ev(s.value, fr, st):
            cur = [(tag, v, x)] if tag != "n" else [("n", NONE, x)]
            if tag == "n":
                for t in s.targets:
                    nxt = []
                    for t2, e2, s2 in cur:
                        if t2 != "n":
                            nxt.append((t2, e2, s2))
                        else:
                            fr.line = s.lineno
                            nxt.extend(self.assign(t, v, fr, s2))
                    cur = nxt
            outs.extend(cur)
        return outs

    def ex_AnnAssign(self, s, fr, st):
        if s.value is None:
            return n(NONE, st)
        outs = []
        for tag, v, x in self.ev(s.value, fr, st):
            if tag != "n":
                outs.append((tag, v, x))
            else:
                outs.extend(self.assign(s.target, v, fr, x))
        return outs

    def ex_AugAssign(self, s, fr, st):
        outs = []
        t = s.target
        if isinstance(t, ast.Name):
            load = ast.copy_location(ast.Name(t.id, ast.Load()), t)
        elif isinstance(t, ast.Attribute):
            load = ast.copy_location(ast.Attribute(t.value, t.attr, ast.Load()), t)
        else:
            load = ast.copy_location(ast.Subscript(t.value, t.slice, ast.Load()), t)
        for tag, vs, x in self.evs([load, s.value], fr, st):
            if tag != "n":
                outs.append((tag, vs, x))
                continue
            fr.line = s.lineno
            for t2, r, s2 in self.m.inplace(type(s.op), vs[0], vs[1], x, fr):
                if t2 != "n":
                    outs.append((t2, r, s2))
                else:
                    outs.extend(self.assign(t, r, fr, s2))
        return outs

    def bindname(self, name, v, fr, st):
        fn = fr.fn
        if fn is not None and name in fn.globals_:
            self.prog.set_module_var(fr.module, name, v, st)
            return
        env = fr.env
        if fn is not None and name in fn.nonlocals:
            e = st.heap[env].parent
            while e is not None:
                if name in st.heap[e].vars:
                    st.mut(R(e)).vars[name] = v
                    return
                e = st.heap[e].parent
        if env is None:
            self.prog.set_module_var(fr.module, name, v, st)
            return
        if fn is None and fr.cls is not None:
            name = self.mangle(name, fr)
        st.mut(R(env)).vars[name] = v

    def assign(self, t, v, fr, st):
        """-> outcomes"""
        if isinstance(t, ast.Name):
            self.bindname(t.id, v, fr, st)
            return n(NONE, st)
        if isinstance(t, ast.Attribute):
            outs = []
            for tag, o, s in self.ev(t.value, fr, st):
                if tag != "n":
                    outs.append((tag, o, s))
                else:
                    fr.line = t.lineno
                    outs.extend(self.m.setattr(o, self.mangle(t.attr, fr), v, s, fr))
            return outs
        if isinstance(t, ast.Subscript):
            outs = []
            for tag, vs, s in self.evs([t.value, t.slice], fr, st):
                if tag != "n":
                    outs.append((tag, vs, s))
                else:
                    fr.line = t.lineno
                    outs.extend(self.m.setitem(vs[0], vs[1], v, s, fr))
            return outs
        if isinstance(t, (ast.Tuple, ast.List)):
            outs = []
            for tag, xs, s in self.m.to_list(v, st, fr, want=len(t.elts)):
                if tag != "n":
                    outs.append((tag, xs, s))
                    continue
                star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
                if star:
                    i = star[0]
                    after = len(t.elts) - i - 1
                    if len(xs) < len(t.elts) - 1:
                        outs.extend(self.raise_("ValueError", s))
                        continue
                    mid = xs[i : len(xs) - after]
                    vals = xs[:i] + [s.new(L(list(mid)))] + xs[len(xs) - after :]
                    tgts = [e.value if isinstance(e, ast.Starred) else e for e in t.elts]
                else:
                    if len(xs) != len(t.elts):
                        outs.extend(self.raise_("ValueError", s))
                        continue
                    vals, tgts = xs, t.elts
                cur = [("n", NONE, s)]
                for tg, x in zip(tgts, vals):
                    nxt = []
                    for t2, e2, s2 in cur:
                        if t2 != "n":
                            nxt.append((t2, e2, s2))
                        else:
                            nxt.extend(self.assign(tg, x, fr, s2))
                    cur = nxt
                outs.extend(cur)
            return outs
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, fr, st)
        st.imp("assign target")
        return n(NONE, st)

    def ex_Delete(self, s, fr, st):
        cur = [("n", NONE, st)]
        for t in s.targets:
            nxt = []
            for tag, e, x in cur:
                if tag != "n":
                    nxt.append((tag, e, x))
                    continue
                if isinstance(t, ast.Name):
                    if fr.env is not None:
                        x.mut(R(fr.env)).vars.pop(t.id, None)
                    nxt.append(("n", NONE, x))
                elif isinstance(t, ast.Attribute):
                    for t2, o, s2 in self.ev(t.value, fr, x):
                        if t2 != "n":
                            nxt.append((t2, o, s2))
                        else:
                            fr.line = s.lineno
                            nxt.extend(self.m.delattr(o, self.mangle(t.attr, fr), s2, fr))
                elif isinstance(t, ast.Subscript):
                    for t2, vs, s2 in self.evs([t.value, t.slice], fr, x):
                        if t2 != "n":
                            nxt.append((t2, vs, s2))
                        else:
                            fr.line = s.lineno
                            nxt.extend(self.m.delitem(vs[0], vs[1], s2, fr))
                else:
                    x.imp("del target")
                    nxt.append(("n", NONE, x))
            cur = nxt
        return cur

    def ex_Assert(self, s, fr, st):
        outs = []
        for tag, b, x in self.cond(s.test, fr, st):
            if tag != "n":
                outs.append((tag, b, x))
            elif b:
                outs.append(("n", NONE, x))
            elif self.assert_raises:
                outs.extend(self.raise_("AssertionError", x))
        return outs

    def ex_Raise(self, s, fr, st):
        if s.exc is None:
            if st.exc:
                return [("x", st.exc[-1], st)]
            return self.raise_("RuntimeError", st)
        outs = []
        es = [s.exc] + ([s.cause] if s.cause is not None else [])
        for tag, vs, x in self.evs(es, fr, st):
            if tag != "n":
                outs.append((tag, vs, x))
                continue
            v = x.res(vs[0])
            isty = isinstance(v, Cls) or (isinstance(v, K) and isinstance(v.v, type)) or isinstance(v, TypeOf)
            if isty:
                fr.line = s.lineno
                for t2, v2, s2 in self.call(v, [], {}, x, fr, s):
                    outs.append(("x", v2, s2))
            else:
                if isinstance(v, R) and isinstance(x.get(v), Inst):
                    outs.append(("x", v, x))
                else:
                    x.imp("raise of unknown")
                    outs.append(("x", self.mkexc("Exception", x), x))
        return outs

    def ex_Try(self, s, fr, st):
        body = self.ex(s.body, fr, st)
        outs = []
        pending = []
        # handlers
        for tag, v, x in body:
            if tag == "n" and s.orelse:
                pending.extend(self.ex(s.orelse, fr, x))
            elif tag == "x" and s.handlers:
                pending.extend(self.handle(s.handlers, v, x, fr))
            else:
                pending.append((tag, v, x))
        if not s.finalbody:
            return pending
        # group by tag to dedupe before finally
        for tag, v, x in pending:
            x.roots = x.roots + ((v.i,) if isinstance(v, R) else ())
            nr = 1 if isinstance(v, R) else 0
            for t2, v2, x2 in self.ex(s.finalbody, fr, x):
                if nr:
                    x2.roots = x2.roots[:-1]
                if t2 == "n":
                    outs.append((tag, v, x2))
                else:
                    outs.append((t2, v2, x2))
        return outs

    ex_TryStar = ex_Try

    def handle(self, handlers, exc, st, fr):
        outs = []
        work = [st]
        for h in handlers:
            nxt = []
            for x in work:
                if h.type is None:
                    ms = [("n", True, x)]
                else:
                    ms = []
                    for t2, cv, s2 in self.ev(h.type, fr, x):
                        if t2 != "n":
                            outs.append((t2, cv, s2))
                        else:
                            for b, s3 in self.m.isinstance_(exc, cv, s2):
                                ms.append(("n", b, s3))
                for _, b, s3 in ms:
                    if not b:
                        nxt.append(s3)
                        continue
                    s3.note((fr.file, h.lineno, "except"))
                    if h.name:
                        self.bindname(h.name, exc, fr, s3)
                    s3.exc = s3.exc + (exc,)
                    for t4, v4, s4 in self.ex(h.body, fr, s3):
                        s4.exc = s4.exc[:-1]
                        outs.append((t4, v4, s4))
            work = nxt
        outs.extend(("x", exc, x) for x in work)
        return outs

    def ex_With(self, s, fr, st):
        return self._with(s.items, s.body, fr, st, s)

    ex_AsyncWith = ex_With

    def _with(self, items, body, fr, st, s):
        if not items:
            return self.ex(body, fr, st)
        item = items[0]
        outs = []
        for tag, cm, x in self.ev(item.context_expr, fr, st):
            if tag != "n":
                outs.append((tag, cm, x))
                continue

            def inner(v, s2):
                cur = [("n", NONE, s2)]
                if item.optional_vars is not None:
                    cur = self.assign(item.optional_vars, v, fr, s2)
                r = []
                for t3, e3, s3 in cur:
                    if t3 != "n":
                        r.append((t3, e3, s3))
                    else:
                        r.extend(self._with(items[1:], body, fr, s3, s))
                return r

            fr.line = s.lineno
            outs.extend(self.m.with_(cm, inner, x, fr))
        return outs

    def ex_FunctionDef(self, s, fr, st):
        outs = []
        decs = s.decorator_list
        for tag, f, x in self.mkfn(s, fr, st, s.name):
            if tag != "n":
                outs.append((tag, f, x))
                continue
            cur = [("n", f, x)]
            for d in reversed(decs):
                nxt = []
                for t2, fv, s2 in cur:
                    if t2 != "n":
                        nxt.append((t2, fv, s2))
                        continue
                    if isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter"):
                        base = self.lookup(d.value.id, fr, s2) if isinstance(d.value, ast.Name) else None
                        if isinstance(base, Wrap) and base.kind == "prop":
                            ex = dict(base.extra or ())
                            ex[d.attr] = fv
                            nxt.append(("n", Wrap("prop", base.fn if d.attr != "getter" else fv, tuple(sorted(ex.items()))), s2))
                            continue
                    for t3, dv, s3 in self.ev(d, fr, s2):
                        if t3 != "n":
                            nxt.append((t3, dv, s3))
                        else:
                            nxt.extend(self.m.decorate(dv, fv, s3, fr))
                cur = nxt
            for t2, v, s2 in cur:
                if t2 == "n":
                    self.bindname(s.name, v, fr, s2)
                    outs.append(("n", NONE, s2))
                else:
                    outs.append((t2, v, s2))
        return outs

    ex_AsyncFunctionDef = ex_FunctionDef

    def ex_ClassDef(self, s, fr, st):
        return self.prog.exec_classdef(self, s, fr, st)

    # ------------------------------------------------------------ calls
    def call(self, fv, args, kwargs, st, fr, node=None):
        return self.m.call(fv, args, kwargs, st, fr, node)

    def bind_args(self, f, args, kwargs, st):
        """-> dict of locals or None"""
        a = f.f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        loc = {}
        args = list(args)
        if len(args) > len(names):
            if a.vararg is None:
                return None
            loc[a.vararg.arg] = T(args[len(names):])
            args = args[: len(names)]
        elif a.vararg is not None:
            loc[a.vararg.arg] = T(())
        for nm, v in zip(names, args):
            loc[nm] = v
        extra = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k == "**":
                continue
            if k in names or k in kwonly:
                if k in loc:
                    return None
                loc[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                return None
        nd = len(f.defaults)
        for nm, d in zip(names[len(names) - nd :], f.defaults):
            if nm not in loc:
                loc[nm] = d
        for nm, d in f.kwdefaults:
            if nm not in loc:
                loc[nm] = d
        if a.kwarg is not None:
            loc[a.kwarg.arg] = st.new(D([(K(k), v) for k, v in extra.items()]))
        for nm in names + kwonly:
            if nm not in loc:
                if "**" in kwargs:
                    loc[nm] = Top("**")
                else:
                    return None
        return loc

    def call_fn(self, f, args, kwargs, st, fr, selfv=None, node=None):
        fi = f.f
        sm = self.summaries.get(fi.qual)
        if sm is not None:
            r = sm(self, f, args, kwargs, st, fr)
            if r is not None:
                self.summaries_used[fi.qual] = self.summaries_used.get(fi.qual, 0) + 1
                return r
        loc = self.bind_args(f, args, kwargs, st)
        if loc is None:
            return self.raise_("TypeError", st, K(f"bad arguments to {fi.name}"))
        if fr is not None and fr.depth > self.MAXDEPTH:
            self.truncated.append((fi.file, fi.node.lineno, "depth"))
            st.imp("call depth")
            return n(Top("depth"), st)
        cnt = 0
        p = fr
        while p is not None:
            if p.fn is fi:
                cnt += 1
            p = p.parent
        if cnt > self.MAXREC and self.rec_raises:
            return self.raise_("RecursionError", st, K("maximum recursion depth exceeded"))
        if cnt > self.MAXREC:
            self.truncated.append((fi.file, fi.node.lineno, "recursion"))
            st.imp("recursion " + fi.qual)
            return n(Top("recursion"), st)
        self.calls_seen[fi.qual] = self.calls_seen.get(fi.qual, 0) + 1
        env = st.new(Env(loc, f.env))
        if fi.is_gen:
            return n(st.new(Gen(f, env.i)), st)
        f2 = Frame(env.i, fi, fi.module, fi.cls, fi.file, fr)
        if args:
            f2.selfv = args[0]
        oldroots = st.roots
        oldtr = st.trace
        st.roots = oldroots + (env.i,)
        st.note(("call", fi.qual, fr.file if fr else "", fr.line if fr else 0))
        if fi.lam:
            res = self.ev(fi.node.body, f2, st)
            outs = [(t, v, s) for t, v, s in res]
        else:
            outs = []
            for t, v, s in self.ex(fi.node.body, f2, st):
                if t == "r":
                    outs.append(("n", v, s))
                elif t == "n":
                    outs.append(("n", NONE, s))
                else:
                    outs.append((t, v, s))
        for t, v, s in outs:
            s.roots = oldroots
            s.note(("ret", fi.qual, t))
        if len(outs) > 1:
            outs = self.dedupe(outs)
        return outs

    def run_gen(self, g, st, fr, cb):
        f = g.fn
        fi = f.f
        f2 = Frame(g.env, fi, fi.module, fi.cls, fi.file, fr)
        e = st.heap[g.env]
        a = fi.node.args
        nm = (a.posonlyargs + a.args)
        if nm:
            f2.selfv = e.vars.get(nm[0].arg)
        f2.yield_cb = cb
        oldroots = st.roots
        st.roots = oldroots + (g.env,)
        self.calls_seen[fi.qual] = self.calls_seen.get(fi.qual, 0) + 1
        outs = []
        for t, v, s in self.ex(fi.node.body, f2, st):
            s.roots = oldroots
            outs.append((t, v, s))
        return outs

    # ------------------------------------------------------------ state merging
    def dedupe_states(self, sts):
        if self.prog.booting:
            return sts[:1]
        seen = {}
        out = []
        for s in sts:
            k = self.canon(s, ())
            o = seen.get(k)
            if o is None:
                seen[k] = s
                out.append(s)
        return out

    def dedupe(self, outs):
        if self.prog.booting:
            return ([o for o in outs if o[0] == "n"] or outs)[:1]
        seen = {}
        res = []
        for t, v, s in outs:
            k = (t, self.canon(s, (v,)))
            if k not in seen:
                seen[k] = 1
                res.append((t, v, s))
        return res

    @staticmethod
    def same_obj(a, b):
        if a.kind != b.kind:
            return False
        if a.kind == "inst":
            return a.cls == b.cls and a.attrs == b.attrs
        if a.kind == "dict":
            return a.ents == b.ents and a.open == b.open
        if a.kind in ("list", "set"):
            return a.xs == b.xs and a.open == b.open
        if a.kind == "env":
            return a.vars == b.vars
        return False

    def canon(self, st, vals):
        """canonical form of everything reachable.  Ids of pre-existing objects and symbols are stable and
        compared as they are (only their changes are listed); the ids of new ones are renumbered."""
        num = {}
        out = []
        todo = []
        base = self.prog.base_ids
        bind = st.bind
        heap = st.heap
        init = st.init
        heap0 = self.prog.st0.heap
        lim, syms0 = st.frz or (0, {})

        def cv(v):
            while type(v) is S:
                b = bind.get(v.i)
                if b is None:
                    if v.i < lim:
                        return v
                    k = ("s", v.i)
                    i = num.get(k)
                    if i is None:
                        i = num[k] = len(num)
                        d, nm = st.syms[v.i]
                        todo.append(("s", v.i, d))
                    return ("S", i)
                v = b
            tv = type(v)
            if tv is R:
                j = v.i
                if j < lim and (j in init or j in base):
                    return v
                if j in base and heap[j] is heap0.get(j):
                    return v
                k = ("r", j)
                i = num.get(k)
                if i is None:
                    i = num[k] = len(num)
                    todo.append(k)
                return ("R", i)
            if tv is K or tv is X or tv is Cls or tv is Mod:
                return v
            if tv is T:
                return ("T",) + tuple(cv(x) for x in v.xs)
            if tv is Fn:
                if v.env is None:
                    return ("F", v.f.qual, id(v.f), tuple(cv(x) for x in v.defaults))
                return ("F", v.f.qual, id(v.f), cv(R(v.env)), tuple(cv(x) for x in v.defaults))
            if tv is BM:
                return ("M", v.fn if isinstance(v.fn, str) else cv(v.fn) if isinstance(v.fn, V) else v.fn, cv(v.self))
            if tv is TypeOf:
                return ("TO", cv(v.of))
            if tv is DV:
                return ("DV", cv(R(v.i)))
            if tv is Sup:
                return ("SU", v.cls.name, cv(v.obj))
            if tv is Wrap:
                return ("W", v.kind, cv(v.fn) if isinstance(v.fn, V) else v.fn)
            if tv is Ann:
                return v
            return v

        for v in vals:
            out.append(cv(v))
        for r in st.roots:
            out.append(cv(R(r)))
        for v in st.exc:
            out.append(cv(v))
        p = st.pend
        while p is not None:
            (tag, v), p = p
            out.append((tag, cv(v) if isinstance(v, V) else v))
        if st.scn is not None:
            for v in st.scn:
                out.append(cv(v))
        if lim:
            for i, d in syms0.items():
                b = bind.get(i)
                if b is not None:
                    out.append((i, cv(b)))
                elif st.syms[i] is not d:
                    out.append((i, st.syms[i][0]))
            for i, o in init.items():
                c = heap[i]
                if c is not o and not self.same_obj(c, o):
                    num[("r", i)] = -i
                    todo.append(("r", i))
        else:
            for i in init:
                if i not in base:
                    out.append(cv(R(i)))
                elif heap[i] is not heap0.get(i):
                    out.append(cv(R(i)))
        pos = 0
        while pos < len(todo):
            k = todo[pos]
            pos += 1
            if k[0] == "s":
                out.append(k[2])
                continue
            o = heap[k[1]]
            kd = o.kind
            if kd == "env":
                out.append(("env", tuple((a, cv(b)) for a, b in sorted(o.vars.items())), cv(R(o.parent)) if o.parent else None))
            elif kd == "inst":
                ini = init.get(k[1]) if not lim else None
                out.append(("inst", k[1] if k[1] < lim else 0, o.cls, tuple((a, cv(b)) for a, b in sorted(o.attrs.items())), ini is not None))
                if ini is not None:
                    out.append(tuple((a, cv(b)) for a, b in sorted(ini.attrs.items())))
            elif kd == "dict":
                out.append(("d", k[1] if k[1] < lim else 0, o.open, tuple((cv(a), cv(b)) for a, b in o.ents)))
                ini = init.get(k[1]) if not lim else None
                if ini is not None:
                    out.append(tuple((cv(a), cv(b)) for a, b in ini.ents))
            elif kd == "list" or kd == "set":
                out.append((kd, k[1] if k[1] < lim else 0, o.open, tuple(cv(a) for a in o.xs)))
                ini = init.get(k[1]) if not lim else None
                if ini is not None:
                    out.append(tuple(cv(a) for a in ini.xs))
            elif kd == "iter":
                out.append(("it", tuple(cv(a) for a in o.xs) if o.xs is not None else None, o.pos, o.open, cv(o.src) if isinstance(o.src, V) else o.src))
            elif kd == "gen":
                out.append(("gen", cv(o.fn), cv(R(o.env))))
            elif kd == "view":
                out.append(("view", o.what, cv(o.of)))
            elif kd == "opq":
                out.append(("opq", o.name, tuple((a, cv(b)) for a, b in sorted(o.attrs.items()))))
        # facts about live symbols only
        fs = []
        for fk, fv in st.facts.items():
            live = True
            enc = []
            for x in fk:
                if isinstance(x, V):
                    x = st.res(x)
                    if type(x) is S:
                        if x.i < lim:
                            enc.append(x)
                            continue
                        i = num.get(("s", x.i))
                        if i is None:
                            live = False
                            break
                        enc.append(("S", i))
                    elif type(x) is R:
                        if x.i < lim:
                            enc.append(x)
                            continue
                        i = num.get(("r", x.i))
                        if i is None and x.i not in base:
                            live = False
                            break
                        enc.append(("R", i))
                    else:
                        enc.append(x)
                else:
                    enc.append(x)
            if live:
                fs.append((tuple(enc), cv(fv) if isinstance(fv, V) else fv))
        try:
            k = (tuple(out), frozenset(fs), st.imprec, st.ev)
            hash(k)
            return k
        except TypeError:
            return id(st)
