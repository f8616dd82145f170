"""Transfer functions for Python's built-in operations and for external functions."""
import ast
import builtins
import collections
import collections.abc
import enum
import types
import typing

from .interp import A_ANYSTR, A_BYTES, A_FLOAT, A_INT, A_INTERP, A_STR, MISS, Atom, ClassInfo, Frame
from .values import *  # noqa
from . import values as _v

Union_ = typing.Union
NoneType = type(None)
PRIMS = (str, int, float, bool, bytes, NoneType, complex)
DICT_KEYS, DICT_VALUES, DICT_ITEMS = type({}.keys()), type({}.values()), type({}.items())
LIST_ITER = type(iter([]))
TYPING_ALIAS = type(typing.List[int])
EXC_METHODS = {"with_traceback", "add_note", "__str__", "__repr__", "__reduce__", "__setstate__"}


def n(v, st):
    return [("n", v, st)]


def issub(t, c):
    """is class t (ClassInfo | real type) a subclass of c"""
    if isinstance(t, ClassInfo):
        if isinstance(c, ClassInfo):
            return c in t.mro
        if isinstance(c, type):
            if c in t.mro:
                return True
            if c in (collections.abc.Hashable, collections.abc.Iterable, collections.abc.Sized, collections.abc.Container, collections.abc.Callable, collections.abc.Collection):
                return any(isinstance(m, type) and m is not object and issubclass(m, c) for m in t.mro)
            return any(isinstance(m, type) and m is not object and _rsub(m, c) for m in t.mro)
        return False
    if isinstance(c, ClassInfo):
        return False
    if isinstance(t, type) and isinstance(c, type):
        return _rsub(t, c)
    return False


def _rsub(a, b):
    try:
        return issubclass(a, b)
    except TypeError:
        return False


class Models:
    def __init__(self, ip):
        self.ip = ip
        self.prog = ip.prog
        self.ext = {}
        self.bi = {}
        self._bicache = {}
        self._tl = {}
        from . import ext as _e

        _e.install(self)

    # ------------------------------------------------------------ names
    def builtin(self, name):
        v = self._bicache.get(name)
        if v is None:
            if name == "__debug__":
                return TRUE
            if not hasattr(builtins, name):
                return None
            o = getattr(builtins, name)
            if isinstance(o, type) or o in (None, True, False, NotImplemented, Ellipsis):
                v = K(o)
            else:
                v = X("builtins." + name)
            self._bicache[name] = v
        return v

    # ------------------------------------------------------------ classes of values
    def pytype(self, v, st):
        """class of a value whose class is decided"""
        t = type(v)
        if t is K:
            return type(v.v)
        if t is R:
            o = st.get(v)
            k = o.kind
            if k == "inst":
                return o.cls[0]
            if k == "dict":
                return o.ptype
            if k == "list":
                return list
            if k == "set":
                return set
            if k == "iter":
                return LIST_ITER
            if k == "gen":
                return types.GeneratorType
            if k == "view":
                return {"keys": DICT_KEYS, "values": DICT_VALUES, "items": DICT_ITEMS}[o.what]
            if k == "opq":
                return slice if o.name == "slice" else object
        if t is T:
            return tuple
        if t is Cls:
            return enum.EnumMeta if v.c.is_enum else type
        if t is Fn:
            return types.FunctionType
        if t is BM:
            return types.MethodType
        if t is Ann:
            return TYPING_ALIAS
        if t is Mod:
            return types.ModuleType
        if t is DV:
            return dict
        if t is Wrap:
            return types.FunctionType
        if t is TypeOf:
            return type
        return object

    def elem_type(self, e, st):
        return e.pytype if isinstance(e, Atom) else self.pytype(e, st)

    def tval(self, c):
        return Cls(c) if isinstance(c, ClassInfo) else K(c)

    def cval(self, v):
        """class denoted by a value, or None"""
        if isinstance(v, Cls):
            return v.c
        if isinstance(v, K) and isinstance(v.v, type):
            return v.v
        return None

    def partition(self, v, st, pred):
        """split a state by a predicate on the class of v -> [(bool, st)]"""
        v = st.res(v)
        if isinstance(v, Top):
            st.imp("class of unknown value " + v.why)
            return [(True, st), (False, st.fork())]
        if isinstance(v, S):
            yes = [e for e in st.dom(v) if pred(self.elem_type(e, st))]
            no = [e for e in st.dom(v) if not pred(self.elem_type(e, st))]
            out = []
            if yes and no:
                s2 = st.fork()
                self.narrow(v, yes, st)
                self.narrow(v, no, s2)
                return [(True, st), (False, s2)]
            return [(bool(yes), st)]
        if isinstance(v, R):
            o = st.get(v)
            if o.kind == "inst" and len(o.cls) > 1:
                yes = tuple(c for c in o.cls if pred(c))
                no = tuple(c for c in o.cls if not pred(c))
                if yes and no:
                    s2 = st.fork()
                    self.setcls(v, yes, st)
                    self.setcls(v, no, s2)
                    return [(True, st), (False, s2)]
                return [(bool(yes), st)]
        if isinstance(v, X):
            if v.name.startswith("id"):
                return [(pred(int), st)]
            return [(pred(object), st)]
        return [(bool(pred(self.pytype(v, st))), st)]

    def setcls(self, v, cls, st):
        o = st.mut(v)
        o.cls = cls
        i = st.init.get(v.i)
        if i is not None:
            c = i.copy()
            c.cls = cls
            st.init[v.i] = c

    def narrow(self, s, dom, st):
        d, nm = st.syms[s.i]
        st.syms[s.i] = (tuple(dom), nm)
        if len(dom) == 1 and not isinstance(dom[0], Atom):
            st.bind[s.i] = dom[0]
        if s.i in LINKS:
            st.linked(s.i)

    def norm(self, v, st):
        """split an unknown into cases each of which is a constant, an object, or a primitive unknown"""
        v = st.res(v)
        if not isinstance(v, S):
            return [(v, st)]
        dom = st.dom(v)
        groups = {}
        for e in dom:
            if isinstance(e, Atom):
                k = ("mk", e.name) if e.mk else ("p", e.pytype)
            else:
                k = ("c", id(e))
            groups.setdefault(k, []).append(e)
        out = []
        items = list(groups.items())
        for j, (k, es) in enumerate(items):
            s2 = st if j == len(items) - 1 else st.fork()
            if len(items) > 1 or len(es) < len(dom):
                self.narrow(v, es, s2)
            if k[0] == "mk":
                r = es[0].mk(s2)
                for x, s3 in r:
                    s3.bind[v.i] = x
                    for y, s4 in self.norm(x, s3):
                        out.append((y, s4))
            elif k[0] == "c":
                s2.bind[v.i] = es[0]
                if v.i in LINKS:
                    s2.linked(v.i)
                out.append((es[0], s2))
            else:
                out.append((v, s2))
        return out

    def ptype_of(self, v, st):
        """pytype for a normalised value"""
        if isinstance(v, S):
            return self.elem_type(st.dom(v)[0], st)
        return self.pytype(v, st)

    def type_of(self, v, st):
        v = st.res(v)
        if isinstance(v, Top):
            return v
        if isinstance(v, S):
            ts = {self.elem_type(e, st) for e in st.dom(v)}
            if len(ts) == 1:
                return self.tval(ts.pop())
            return TypeOf(v)
        if isinstance(v, R) and st.get(v).kind == "inst" and len(st.get(v).cls) > 1:
            return TypeOf(v)
        if isinstance(v, R) and st.get(v).kind == "dict" and st.get(v).factory is not None:
            return self.tval(collections.defaultdict)
        return self.tval(self.pytype(v, st))

    def concretize_type(self, v, st):
        """TypeOf(x) -> [(class value, st)]"""
        v = st.res(v)
        if not isinstance(v, TypeOf):
            return [(v, st)]
        o = st.res(v.of)
        t = self.type_of(o, st)
        if not isinstance(t, TypeOf):
            return [(t, st)]
        out = []
        if isinstance(o, S):
            g = {}
            for e in st.dom(o):
                g.setdefault(self.elem_type(e, st), []).append(e)
            items = list(g.items())
            for j, (c, es) in enumerate(items):
                s2 = st if j == len(items) - 1 else st.fork()
                self.narrow(o, es, s2)
                out.append((self.tval(c), s2))
        else:
            cs = st.get(o).cls
            for j, c in enumerate(cs):
                s2 = st if j == len(cs) - 1 else st.fork()
                self.setcls(o, (c,), s2)
                out.append((self.tval(c), s2))
        return out

    def flat_classes(self, cv, st):
        """class argument of isinstance -> list of classes, or None when unknown"""
        cv = st.res(cv)
        if isinstance(cv, T):
            out = []
            for x in cv.xs:
                r = self.flat_classes(x, st)
                if r is None:
                    return None
                out.extend(r)
            return out
        c = self.cval(cv)
        if c is not None:
            return [c]
        if isinstance(cv, K):
            o = cv.v
            if o is typing.Any:
                return []
            org = typing.get_origin(o)
            if org is typing.Union or isinstance(o, types.UnionType):
                return [a for a in typing.get_args(o)]
            if isinstance(org, type):
                return [org]
            if hasattr(o, "__origin__") and isinstance(o.__origin__, type):
                return [o.__origin__]
            return []
        if isinstance(cv, Ann):
            return self.flat_classes(cv.origin, st) if not (isinstance(cv.origin, K) and cv.origin.v is Union_) else self.flat_classes(T(cv.args), st)
        if isinstance(cv, X):
            return [("X", cv.name)]
        return None

    def isinstance_(self, v, cv, st):
        out = []
        for cv1, s in self.concretize_type(cv, st):
            cs = self.flat_classes(cv1, s)
            if cs is None:
                s.imp("isinstance with unknown class")
                out += [(True, s), (False, s.fork())]
            else:
                out += self.partition(v, s, lambda t, cs=cs: any(issub(t, c) for c in cs))
        return out

    def issubclass_(self, v, cv, st, fr):
        """-> outcomes"""
        cs = self.flat_classes(cv, st)
        v = st.res(v)
        if isinstance(v, S):
            out = []
            for x, s in self.norm(v, st):
                out.extend(self.issubclass_(x, cv, s, fr))
            return out
        if isinstance(v, Top) or cs is None:
            st.imp("issubclass of unknown")
            return [("n", TRUE, st), ("n", FALSE, st.fork())]
        if isinstance(v, TypeOf):
            return [("n", K(b), s) for b, s in self.partition(v.of, st, lambda t: any(issub(t, c) for c in cs))]
        c = self.cval(v)
        if c is None:
            return self.ip.raise_("TypeError", st, K("issubclass() arg 1 must be a class"))
        return n(K(any(issub(c, d) for d in cs)), st)

    # ------------------------------------------------------------ truth
    def truth(self, v, st, fr):
        v = st.res(v)
        t = type(v)
        if t is K:
            try:
                return [("n", bool(v.v), st)]
            except Exception:
                return [("n", True, st)]
        if t is S:
            yes, no, unk = [], [], []
            for e in st.dom(v):
                if isinstance(e, Atom):
                    if e.truth is True:
                        yes.append(e)
                    elif e.truth is False:
                        no.append(e)
                    elif e.mk:
                        unk.append(e)
                    else:
                        unk.append(e)
                elif isinstance(e, K):
                    (yes if e.v else no).append(e)
                elif isinstance(e, T):
                    (yes if e.xs else no).append(e)
                elif isinstance(e, R) and st.get(e).kind != "opq":
                    unk.append(e)
                else:
                    yes.append(e)
            f = st.facts.get(("truth", v))
            if f is not None and unk and not yes and not no:
                return [("n", f, st)]
            outs = []
            parts = [(True, yes), (False, no), (None, unk)]
            parts = [(b, p) for b, p in parts if p]
            if len(parts) == 1 and parts[0][0] is not None:
                return [("n", parts[0][0], st)]
            for j, (b, p) in enumerate(parts):
                s2 = st if j == len(parts) - 1 else st.fork()
                if len(parts) > 1:
                    self.narrow(v, p, s2)
                if b is not None:
                    outs.append(("n", b, s2))
                else:
                    mk = [e for e in p if isinstance(e, Atom) and e.mk or not isinstance(e, Atom)]
                    if mk:
                        for x, s3 in self.norm(v, s2):
                            if isinstance(x, S):
                                s4 = s3.fork()
                                s3.facts[("truth", x)] = True
                                s4.facts[("truth", x)] = False
                                outs += [("n", True, s3), ("n", False, s4)]
                            else:
                                outs.extend(self.truth(x, s3, fr))
                    else:
                        s4 = s2.fork()
                        s2.facts[("truth", v)] = True
                        s4.facts[("truth", v)] = False
                        outs += [("n", True, s2), ("n", False, s4)]
            return outs
        if t is T:
            return [("n", bool(v.xs), st)]
        if t is R:
            o = st.get(v)
            k = o.kind
            if k == "dict":
                if o.ents or not o.open:
                    return [("n", bool(o.ents), st)]
                return self.fork_fact(("truth", v), st)
            if k in ("list", "set"):
                if o.xs or not o.open:
                    return [("n", bool(o.xs), st)]
                return self.fork_fact(("truth", v), st)
            if k == "inst":
                outs = []
                for fv, s, cs in self.find_method(v, "__bool__", st):
                    if fv is not None:
                        for t2, r, s2 in self.ip.call(fv, [], {}, s, fr):
                            outs.extend(self.truth(r, s2, fr) if t2 == "n" else [(t2, r, s2)])
                        continue
                    for fv2, s2, cs2 in self.find_method(v, "__len__", s):
                        if fv2 is None:
                            outs.append(("n", True, s2))
                            continue
                        for t3, r, s3 in self.ip.call(fv2, [], {}, s2, fr):
                            outs.extend(self.truth(r, s3, fr) if t3 == "n" else [(t3, r, s3)])
                return outs
            if k == "opq":
                if o.name in ("object", "marker", "match", "file"):
                    return [("n", True, st)]
                return self.fork_fact(("truth", v), st, imp="truth of opaque " + o.name)
            if k == "view":
                return self.truth(o.of, st, fr)
            return [("n", True, st)]
        if t is Top:
            st.imp("branch on unknown " + v.why)
            return [("n", True, st), ("n", False, st.fork())]
        if t is X:
            return self.fork_fact(("truth", v), st) if not v.name.startswith(("id", "builtins")) else [("n", True, st)]
        if t is DV:
            return [("n", True, st)]
        return [("n", True, st)]

    def fork_fact(self, key, st, imp=None):
        f = st.facts.get(key)
        if f is not None:
            return [("n", f, st)]
        if imp:
            st.imp(imp)
        s2 = st.fork()
        st.facts[key] = True
        s2.facts[key] = False
        return [("n", True, st), ("n", False, s2)]

    # ------------------------------------------------------------ equality
    def prim_eq(self, a, b, st):
        """equality without program-level __eq__ -> [(bool, st)]"""
        a, b = st.res(a), st.res(b)
        if a == b:
            return [(True, st)]
        if isinstance(a, Top) or isinstance(b, Top):
            st.imp("comparison with unknown")
            return [(True, st), (False, st.fork())]
        if isinstance(a, S) or isinstance(b, S):
            if not isinstance(a, S):
                a, b = b, a
            if not isinstance(b, S):
                return self.eq_sym_const(a, b, st)
            return self.eq_sym_sym(a, b, st)
        if isinstance(a, TypeOf) or isinstance(b, TypeOf):
            return self.type_is(a, b, st)
        if isinstance(a, K) and isinstance(b, K):
            try:
                return [(bool(a.v == b.v), st)]
            except Exception:
                return [(False, st)]
        if isinstance(a, T) and isinstance(b, T):
            if len(a.xs) != len(b.xs):
                return [(False, st)]
            cur = [(True, st)]
            for x, y in zip(a.xs, b.xs):
                nx = []
                for r, s in cur:
                    if not r:
                        nx.append((r, s))
                    else:
                        nx.extend(self.prim_eq(x, y, s))
                cur = nx
            return cur
        if isinstance(a, R) and isinstance(b, R):
            oa, ob = st.get(a), st.get(b)
            if oa.kind == ob.kind and oa.kind in ("dict", "list", "set"):
                return self.container_eq(oa, ob, a, b, st)
            if oa.kind == "opq" and ob.kind == "opq" and oa.name not in ("marker", "object"):
                return [(x, s) for _, x, s in self.fork_fact(("eq", a, b), st)]
            return [(False, st)]
        if isinstance(a, X) and isinstance(b, X):
            if a.name.startswith("id") and b.name.startswith("id"):
                return [(a.name == b.name, st)]
        return [(False, st)]

    def container_eq(self, oa, ob, a, b, st):
        if oa.open or ob.open:
            return [(x, s) for _, x, s in self.fork_fact(("eq", a, b), st)]
        if oa.kind == "list":
            return self.prim_eq(T(oa.xs), T(ob.xs), st)
        if oa.kind == "dict":
            if len(oa.ents) != len(ob.ents):
                return [(False, st)]
            if not oa.ents:
                return [(True, st)]
        elif not oa.xs and not ob.xs:
            return [(True, st)]
        return [(x, s) for _, x, s in self.fork_fact(("eq", a, b), st)]

    def atom_may_eq(self, at, c):
        """may a value of atom equal constant c (V)?"""
        if not isinstance(c, K):
            return False
        v = c.v
        try:
            num = (int, float, bool)
            if at.pytype in num and isinstance(v, num):
                return True
            if type(v) is not at.pytype:
                return False
        except Exception:
            return False
        if at.name == "STR":
            return v != "???" and "${" not in v
        if at.name == "INTERP":
            return "${" in v
        return True

    def eq_sym_const(self, s, c, st, ident=False):
        dom = st.dom(s)
        yes, no, may = [], [], []
        for e in dom:
            if isinstance(e, Atom):
                (may if self.atom_may_eq(e, c) else no).append(e)
            elif e == c:
                yes.append(e)
            elif isinstance(e, K) and isinstance(c, K):
                try:
                    (yes if e.v == c.v else no).append(e)
                except Exception:
                    no.append(e)
            elif isinstance(e, (T, R)) and isinstance(c, (T, R)):
                may.append(e)
            else:
                no.append(e)
        if st.facts.get(("eq", s, c)) is False:
            no += may
            may = []
        out = []
        if yes and (may or no):
            s2 = st.fork()
            self.narrow(s, yes, s2)
            out.append((True, s2))
        elif yes:
            return [(True, st)]
        if st.facts.get(("eq", s, c)) is True and may and not yes:
            return [(True, st)]
        other = [e for e in may if isinstance(c, K) and isinstance(e, Atom) and not e.mk and e.pytype is not type(c.v)]
        same = [e for e in may if e not in other]
        if ident:
            no, may, other = no + other, same, []
        if same:
            s2 = st.fork()
            if isinstance(c, K) and all(isinstance(e, Atom) and not e.mk for e in same):
                s2.bind[s.i] = c
                if s.i in LINKS:
                    s2.linked(s.i)
            out.append((True, s2))
        if other:
            # equal numbers of different types
            s2 = st.fork()
            if len(other) < len(dom):
                self.narrow(s, other, s2)
            s2.facts[("eq", s, c)] = True
            out.append((True, s2))
        if no or may:
            if len(no) + len(may) < len(dom):
                self.narrow(s, no + may, st)
            if may:
                st.facts[("eq", s, c)] = False
            out.append((False, st))
        return out

    def eq_sym_sym(self, a, b, st, ident=False):
        f = st.facts.get(("eq", a, b))
        if f is None:
            f = st.facts.get(("eq", b, a))
        if f is not None:
            return [(f, st)]
        da, db = st.dom(a), st.dom(b)
        common = [e for e in da if e in db]
        if not common:
            # constants of one may be covered by atoms of the other
            for e in da:
                if not isinstance(e, Atom) and any(isinstance(x, Atom) and self.atom_may_eq(x, e) for x in db):
                    common.append(e)
            for e in db:
                if not isinstance(e, Atom) and any(isinstance(x, Atom) and self.atom_may_eq(x, e) for x in da):
                    common.append(e)
        xa = [e for e in da if self.num_elem(e) and any(self.num_elem(x) and x != e and self.num_may_eq(e, x) for x in db)]
        xb = [e for e in db if self.num_elem(e) and any(self.num_elem(x) and x != e and self.num_may_eq(x, e) for x in da)]
        out = []
        if xa and xb and not ident:
            # equal numbers of different types
            s3 = st.fork()
            self.narrow(a, xa, s3)
            self.narrow(b, xb, s3)
            s3.facts[("eq", a, b)] = True
            out.append((True, s3))
        if not common:
            if out:
                st.facts[("eq", a, b)] = False
            return out + [(False, st)]
        s2 = st.fork()
        st.facts[("eq", a, b)] = False
        # unify in s2
        if all(isinstance(e, Atom) and not e.mk or isinstance(e, K) for e in common):
            self.narrow(b, common, s2)
            s2.bind[a.i] = b
            if a.i in LINKS:
                s2.linked(a.i)
        else:
            s2.facts[("eq", a, b)] = True
        return out + [(True, s2), (False, st)]

    def num_elem(self, e):
        return isinstance(e, Atom) and e.pytype in (int, float) and not e.mk or isinstance(e, K) and type(e.v) in (int, float, bool)

    def num_may_eq(self, x, y):
        """may numbers of two different domain elements be equal although their types differ?"""
        tx, ty = (e.pytype if isinstance(e, Atom) else type(e.v) for e in (x, y))
        if tx is ty:
            return False
        return not (isinstance(x, K) and isinstance(y, K)) or x.v == y.v

    def type_is(self, a, b, st):
        if not isinstance(a, TypeOf):
            a, b = b, a
        out = []
        if isinstance(b, TypeOf):
            for bv, s in self.concretize_type(b, st):
                out.extend(self.type_is(a, bv, s) if not isinstance(bv, TypeOf) else [(False, s)])
            return out
        c = self.cval(b)
        if c is None:
            return [(False, st)]
        return self.partition(a.of, st, lambda t: t is c)

    def is_(self, a, b, st):
        a, b = st.res(a), st.res(b)
        if isinstance(a, Top) or isinstance(b, Top):
            if isinstance(a, Top) and isinstance(b, Top):
                pass
            st.imp("identity with unknown")
            return [(True, st), (False, st.fork())]
        if isinstance(a, TypeOf) or isinstance(b, TypeOf):
            if a == b:
                return [(True, st)]
            return self.type_is(a, b, st)
        if isinstance(a, S) or isinstance(b, S):
            if a == b:
                return [(True, st)]
            if not isinstance(a, S):
                a, b = b, a
            if not isinstance(b, S):
                if isinstance(b, K) and (b.v is None or isinstance(b.v, (bool, type)) or b.v is Ellipsis or b.v is typing.Any or b.v is NotImplemented):
                    yes = [e for e in st.dom(a) if e == b]
                    no = [e for e in st.dom(a) if not (e == b)]
                    if yes and no:
                        s2 = st.fork()
                        self.narrow(a, yes, s2)
                        self.narrow(a, no, st)
                        return [(True, s2), (False, st)]
                    return [(bool(yes), st)]
                if isinstance(b, R):
                    yes = [e for e in st.dom(a) if e == b]
                    mk = [e for e in st.dom(a) if isinstance(e, Atom) and e.mk]
                    if not yes:
                        return [(False, st)]
                    no = [e for e in st.dom(a) if e != b]
                    if not no:
                        return [(True, st)]
                    s2 = st.fork()
                    self.narrow(a, yes, s2)
                    self.narrow(a, no, st)
                    return [(True, s2), (False, st)]
                return self.eq_sym_const(a, b, st, True)
            return self.eq_sym_sym(a, b, st, True)
        if isinstance(a, K) and isinstance(b, K):
            return [(a == b, st)]
        if isinstance(a, R) and isinstance(b, R):
            return [(a.i == b.i, st)]
        return [(a == b, st)]

    def eq(self, a, b, st, fr):
        """Python == -> outcomes ('n', V, st)"""
        outs = []
        for a1, s in self.norm_inst(a, st):
            for b1, s1 in self.norm_inst(b, s):
                outs.extend(self._eq(a1, b1, s1, fr))
        return outs

    def norm_inst(self, v, st):
        """split off domain elements that are objects with a program-defined __eq__"""
        v = st.res(v)
        if isinstance(v, S):
            dom = st.dom(v)
            mk = [e for e in dom if (isinstance(e, Atom) and e.mk) or isinstance(e, R)]
            if mk:
                rest = [e for e in dom if e not in mk]
                out = []
                s2 = st
                if rest:
                    s2 = st.fork()
                    self.narrow(v, rest, st)
                    out.append((st.res(v), st))
                    self.narrow(v, mk, s2)
                out.extend(self.norm(v, s2))
                return out
        return [(v, st)]

    def is_inst(self, v, st):
        return isinstance(v, R) and st.get(v).kind == "inst"

    def _eq(self, a, b, st, fr, refl=True):
        a, b = st.res(a), st.res(b)
        if self.is_inst(a, st):
            outs = []
            for fv, s, cs in self.find_method(a, "__eq__", st):
                if fv is None:
                    o = s.get(a)
                    c0 = cs[0]
                    if isinstance(c0, ClassInfo) and c0.is_dc and self.is_inst(b, s) and a != b:
                        outs.extend(self.fork_fact_v(("eq", a, b), s))
                        continue
                    if self.is_inst(b, s) and a != b:
                        outs.extend(self._eq_refl(b, a, s, fr))
                    else:
                        outs.extend(("n", K(r), s2) for r, s2 in self.is_(a, b, s))
                    continue
                for t, r, s2 in self.ip.call(fv, [b], {}, s, fr):
                    if t != "n":
                        outs.append((t, r, s2))
                        continue
                    r = s2.res(r)
                    if r == NOTIMPL:
                        if self.is_inst(b, s2):
                            outs.extend(self._eq_refl(b, a, s2, fr))
                        else:
                            outs.append(("n", FALSE, s2))
                    else:
                        outs.append(("n", r, s2))
            return outs
        if self.is_inst(b, st):
            return self._eq_refl(b, a, st, fr)
        if isinstance(a, R) and isinstance(b, R):
            oa, ob = st.get(a), st.get(b)
            if oa.kind == "list" and ob.kind == "list" and not oa.open and not ob.open:
                if len(oa.xs) != len(ob.xs):
                    return n(FALSE, st)
                return self._all_eq(list(zip(oa.xs, ob.xs)), st, fr)
        if isinstance(a, T) and isinstance(b, T):
            if len(a.xs) != len(b.xs):
                return n(FALSE, st)
            return self._all_eq(list(zip(a.xs, b.xs)), st, fr)
        return [("n", K(r), s) for r, s in self.prim_eq(a, b, st)]

    def _all_eq(self, pairs, st, fr):
        cur = [("n", TRUE, st)]
        for x, y in pairs:
            nx = []
            for t, r, s in cur:
                if t != "n" or r != TRUE:
                    nx.append((t, r, s))
                    continue
                for t2, r2, s2 in self.eq(x, y, s, fr):
                    if t2 != "n":
                        nx.append((t2, r2, s2))
                    else:
                        nx.extend((t3, K(b) if t3 == "n" else b, s3) for t3, b, s3 in self.truth(r2, s2, fr))
            cur = nx
        return cur

    def fork_fact_v(self, key, st):
        return [("n", K(b), s) for _, b, s in self.fork_fact(key, st)]

    def _eq_refl(self, b, a, st, fr):
        outs = []
        for fv, s, cs in self.find_method(b, "__eq__", st):
            if fv is None:
                outs.append(("n", K(a == b), s))
                continue
            for t, r, s2 in self.ip.call(fv, [a], {}, s, fr):
                if t == "n" and s2.res(r) == NOTIMPL:
                    r = K(s2.res(a) == s2.res(b))
                outs.append((t, r, s2))
        return outs

    def compare(self, op, a, b, st, fr):
        if op is ast.Is:
            return [("n", K(r), s) for r, s in self.is_(a, b, st)]
        if op is ast.IsNot:
            return [("n", K(not r), s) for r, s in self.is_(a, b, st)]
        if op is ast.Eq:
            return self.eq(a, b, st, fr)
        if op is ast.NotEq:
            outs = []
            a = st.res(a)
            if self.is_inst(a, st):
                done = False
                for fv, s, cs in self.find_method(a, "__ne__", st):
                    if fv is not None:
                        for t, r, s2 in self.ip.call(fv, [b], {}, s, fr):
                            if t == "n" and s2.res(r) == NOTIMPL:
                                outs.extend((t3, K(not (x == TRUE)) if t3 == "n" else x, s3) for t3, x, s3 in self._eq(a, b, s2, fr))
                            else:
                                outs.append((t, r, s2))
                    else:
                        for t, r, s2 in self.eq(a, b, s, fr):
                            if t != "n":
                                outs.append((t, r, s2))
                            else:
                                outs.extend((t3, K(not x) if t3 == "n" else x, s3) for t3, x, s3 in self.truth(r, s2, fr))
                return outs
            for t, r, s in self.eq(a, b, st, fr):
                if t != "n":
                    outs.append((t, r, s))
                else:
                    outs.extend((t2, K(not x) if t2 == "n" else x, s2) for t2, x, s2 in self.truth(r, s, fr))
            return outs
        if op is ast.In:
            return self.contains(b, a, st, fr)
        if op is ast.NotIn:
            outs = []
            for t, r, s in self.contains(b, a, st, fr):
                if t != "n":
                    outs.append((t, r, s))
                else:
                    outs.extend((t2, K(not x) if t2 == "n" else x, s2) for t2, x, s2 in self.truth(r, s, fr))
            return outs
        # ordering
        outs = []
        for a1, s in self.norm(a, st):
            for b1, s1 in self.norm(b, s):
                outs.extend(self.order(op, a1, b1, s1, fr))
        return outs

    def order(self, op, a, b, st, fr):
        if isinstance(a, T) and all(isinstance(x, K) for x in a.xs):
            a = K(tuple(x.v for x in a.xs))
        if isinstance(b, T) and all(isinstance(x, K) for x in b.xs):
            b = K(tuple(x.v for x in b.xs))
        if isinstance(a, K) and isinstance(b, K):
            f = {ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y, ast.Gt: lambda x, y: x > y, ast.GtE: lambda x, y: x >= y}[op]
            try:
                return n(K(bool(f(a.v, b.v))), st)
            except TypeError:
                return self.ip.raise_("TypeError", st)
        if isinstance(a, Top) or isinstance(b, Top):
            st.imp("ordering of unknown")
            return n(TRUE, st) + n(FALSE, st.fork())
        ta, tb = self.ptype_of(a, st), self.ptype_of(b, st)
        num = (int, float, bool)
        if (ta in num) != (tb in num) and (ta in PRIMS or tb in PRIMS):
            return self.ip.raise_("TypeError", st)
        if op is ast.Gt:
            return self.fork_fact_v(("lt", b, a), st)
        if op is ast.GtE:
            return [(t, K(not r.v), s) for t, r, s in self.fork_fact_v(("lt", a, b), st)]
        if op is ast.Lt:
            return self.fork_fact_v(("lt", a, b), st)
        return [(t, K(not r.v), s) for t, r, s in self.fork_fact_v(("lt", b, a), st)]

    def contains(self, c, x, st, fr):
        outs = []
        for c1, s in self.norm(c, st):
            outs.extend(self._contains(c1, x, s, fr))
        return outs

    def _any_eq(self, xs, x, st, fr):
        outs = []
        cur = [st]
        for y in xs:
            nx = []
            for s in cur:
                for b0, s0 in self.same(x, y, s):
                    if b0:
                        outs.append(("n", TRUE, s0))
                        continue
                    for t, r, s2 in self.eq(y, x, s0, fr):
                        if t != "n":
                            outs.append((t, r, s2))
                            continue
                        for t3, b, s3 in self.truth(r, s2, fr):
                            if t3 != "n":
                                outs.append((t3, b, s3))
                            elif b:
                                outs.append(("n", TRUE, s3))
                            else:
                                nx.append(s3)
            cur = nx
        outs.extend(("n", FALSE, s) for s in cur)
        return outs

    def same(self, a, b, st):
        a, b = st.res(a), st.res(b)
        if isinstance(a, R) and a == b:
            return [(True, st)]
        return [(False, st)]

    def _contains(self, c, x, st, fr):
        if isinstance(c, T):
            return self._any_eq(c.xs, x, st, fr)
        if isinstance(c, R):
            o = st.get(c)
            if o.kind == "dict":
                if self.unhashable(x, st):
                    return self.ip.raise_("TypeError", st)
                return [("n", K(i is not None), s) for i, s in self.dict_find(c, x, st)]
            if o.kind in ("list", "set"):
                outs = []
                for t, r, s in self._any_eq(o.xs, x, st, fr):
                    if t == "n" and r == FALSE and o.open:
                        outs.extend(self.fork_fact_v(("in", c, s.res(x)), s))
                    else:
                        outs.append((t, r, s))
                return outs
            if o.kind == "view":
                if o.what == "keys":
                    return self._contains(o.of, x, st, fr)
                outs = []
                for t, xs, s in self.to_list(c, st, fr):
                    outs.extend(self._any_eq(xs, x, s, fr) if t == "n" else [(t, xs, s)])
                return outs
            if o.kind == "inst":
                outs = []
                for fv, s, cs in self.find_method(c, "__contains__", st):
                    if fv is not None:
                        for t, r, s2 in self.ip.call(fv, [x], {}, s, fr):
                            if t != "n":
                                outs.append((t, r, s2))
                            else:
                                outs.extend((t3, K(b) if t3 == "n" else b, s3) for t3, b, s3 in self.truth(r, s2, fr))
                    else:
                        for t, xs, s2 in self.to_list(c, s, fr):
                            outs.extend(self._any_eq(xs, x, s2, fr) if t == "n" else [(t, xs, s2)])
                return outs
            if o.kind == "iter":
                outs = []
                for t, xs, s in self.to_list(c, st, fr):
                    outs.extend(self._any_eq(xs, x, s, fr) if t == "n" else [(t, xs, s)])
                return outs
        if isinstance(c, DV):
            x = st.res(x)
            if isinstance(x, K):
                return [("n", K(v is not None), s) for v, s in self.inst_attr(R(c.i), x.v, st)]
        if isinstance(c, Cls) and c.c.is_enum:
            return self._any_eq(list(c.c.members.values()), x, st, fr)
        if isinstance(c, (K, S)) and self.ptype_of(c, st) is str:
            outs = []
            for x1, s in self.norm(x, st):
                if isinstance(x1, K) and isinstance(c, K):
                    if not isinstance(x1.v, str):
                        outs.extend(self.ip.raise_("TypeError", s))
                    else:
                        outs.append(("n", K(x1.v in c.v), s))
                elif isinstance(x1, K) and x1.v == "${" and isinstance(c, S):
                    yes = [e for e in s.dom(c) if (isinstance(e, Atom) and e.name == "INTERP") or (isinstance(e, K) and isinstance(e.v, str) and "${" in e.v)]
                    any_ = [e for e in s.dom(c) if isinstance(e, Atom) and e.name == "ANYSTR"]
                    no = [e for e in s.dom(c) if e not in yes and e not in any_]
                    if any_:
                        outs.extend(self.fork_fact_v(("in", x1, c), s))
                    elif yes and no:
                        s2 = s.fork()
                        self.narrow(c, yes, s)
                        self.narrow(c, no, s2)
                        outs += [("n", TRUE, s), ("n", FALSE, s2)]
                    else:
                        outs.append(("n", K(bool(yes)), s))
                else:
                    outs.extend(self.fork_fact_v(("in", s.res(x1), c), s))
            return outs
        if isinstance(c, Top):
            st.imp("membership in unknown")
            return n(TRUE, st) + n(FALSE, st.fork())
        if isinstance(c, K) and (c.v is None or isinstance(c.v, (int, float))):
            return self.ip.raise_("TypeError", st)
        if isinstance(c, K) and isinstance(c.v, (bytes, frozenset)):
            return self.fork_fact_v(("in", st.res(x), c), st)
        if isinstance(c, X):
            if c.name == "os.environ":
                if st.res(x) == K("OC_CAUSE"):  # debugging aid of the error path: analysed as unset
                    return n(FALSE, st)
                return self.fork_fact_v(("in", st.res(x), c), st)
            return self.fork_fact_v(("in", st.res(x), c), st)
        return self.fork_fact_v(("in", st.res(x), c), st)

    # ------------------------------------------------------------ dicts
    def unhashable(self, x, st):
        x = st.res(x)
        return isinstance(x, R) and st.get(x).kind in ("dict", "list", "set")

    def dict_find(self, d, key, st):
        """-> [(index | None | -1 (unknown entry), st)]"""
        out = []
        key = st.res(key)
        cur = [st]
        ents = st.get(d).ents
        for i, (k, v) in enumerate(ents):
            nx = []
            for s in cur:
                for b, s2 in self.prim_eq(k, key, s):
                    if b:
                        out.append((i, s2))
                    else:
                        nx.append(s2)
            cur = nx
        for s in cur:
            if s.get(d).open:
                f = self.fork_fact(("has", d, key), s)
                for _, b, s2 in f:
                    out.append((-1 if b else None, s2))
            else:
                out.append((None, s))
        return out

    def dict_set(self, d, key, v, st):
        out = []
        for i, s in self.dict_find(d, key, st):
            o = s.mut(d)
            if i is None or i == -1:
                o.ents.append((s.res(key), v))
            else:
                o.ents[i] = (o.ents[i][0], v)
            out.append(s)
        return out

    def dict_update(self, d, src, st, fr):
        outs = []
        for src1, s in self.norm(src, st):
            if isinstance(src1, R) and s.get(src1).kind == "dict":
                cur = [s]
                for k, v in list(s.get(src1).ents):
                    cur = [y for x in cur for y in self.dict_set(d, k, v, x)]
                for x in cur:
                    if x.get(src1).open:
                        x.mut(d).open = True
                    outs.append(("n", d, x))
            elif isinstance(src1, DV):
                cur = [s]
                for nm, s2 in self.inst_all(R(src1.i), s):
                    c2 = [s2]
                    for k in nm:
                        c2 = [y for x in c2 for y in self.dict_set(d, K(k), x.get(R(src1.i)).attrs[k], x)]
                    outs.extend(("n", d, x) for x in c2)
            elif isinstance(src1, R) and s.get(src1).kind == "inst":
                # mapping protocol
                for t, ks, s2 in self.to_list(src1, s, fr):
                    if t != "n":
                        outs.append((t, ks, s2))
                        continue
                    cur = [("n", NONE, s2)]
                    for k in ks:
                        nx = []
                        for t3, x3, s3 in cur:
                            if t3 != "n":
                                nx.append((t3, x3, s3))
                                continue
                            for t4, v4, s4 in self.getitem(src1, k, s3, fr):
                                if t4 != "n":
                                    nx.append((t4, v4, s4))
                                else:
                                    nx.extend(("n", NONE, s5) for s5 in self.dict_set(d, k, v4, s4))
                        cur = nx
                    outs.extend((t3, d if t3 == "n" else x3, s3) for t3, x3, s3 in cur)
            else:
                for t, xs, s2 in self.to_list(src1, s, fr):
                    if t != "n":
                        outs.append((t, xs, s2))
                        continue
                    cur = [("n", NONE, s2)]
                    for x in xs:
                        nx = []
                        for t3, x3, s3 in cur:
                            if t3 != "n":
                                nx.append((t3, x3, s3))
                                continue
                            for t4, kv, s4 in self.to_list(x, s3, fr):
                                if t4 != "n":
                                    nx.append((t4, kv, s4))
                                elif len(kv) == 2:
                                    nx.extend(("n", NONE, s5) for s5 in self.dict_set(d, kv[0], kv[1], s4))
                                else:
                                    nx.extend(self.ip.raise_("ValueError", s4))
                        cur = nx
                    outs.extend((t3, d if t3 == "n" else x3, s3) for t3, x3, s3 in cur)
        return outs

    def kwdict(self, v, st):
        v = st.res(v)
        if isinstance(v, R):
            o = st.get(v)
            if o.kind == "dict" and not o.open:
                r = {}
                for k, x in o.ents:
                    k = st.res(k)
                    if not (isinstance(k, K) and isinstance(k.v, str)):
                        return None
                    r[k.v] = x
                return r
        return None

    def set_add(self, ref, x, st):
        out = []
        o = st.get(ref)
        cur = [st]
        for y in o.xs:
            nx = []
            for s in cur:
                for b, s2 in self.prim_eq(y, x, s):
                    (out if b else nx).append(s2)
            cur = nx
        for s in cur:
            s.mut(ref).xs.append(s.res(x))
            out.append(s)
        return out

    # ------------------------------------------------------------ attributes
    def type_lookup(self, c, name, st):
        """(owner, value) for attribute name in class c, or None"""
        mro = c.mro if isinstance(c, ClassInfo) else c.__mro__
        for m in mro:
            if isinstance(m, ClassInfo):
                v = st.heap[m.env].vars.get(name)
                if v is not None:
                    return (m, v)
            elif isinstance(m, tuple):
                continue
            else:
                ci = self.prog.abc.get(m)
                if ci is not None:
                    v = st.heap[ci.env].vars.get(name)
                    if v is not None:
                        return (m, v)
                if name in m.__dict__ and m is not object:
                    if issubclass(m, BaseException) and name in EXC_METHODS:
                        return (m, ("bm", name))
                    if m in self.prog.abc or m.__module__ in ("abc", "typing"):
                        continue
                    o = m.__dict__[name]
                    if callable(o) or type(o).__name__ in ("getset_descriptor", "member_descriptor", "DynamicClassAttribute", "property"):
                        if issubclass(m, enum.Enum):
                            if name in ("name", "value"):
                                continue
                            return (m, ("bm", name))
                        if type(o).__name__ in ("getset_descriptor", "member_descriptor"):
                            continue
                        return (m, ("bm", name))
        return None

    def find_method(self, v, name, st):
        """bound special method of an instance -> [(callable V | None, st, classes)]"""
        o = st.get(v)
        groups = {}
        for c in o.cls:
            r = self.type_lookup(c, name, st)
            groups.setdefault((r[0], r[1]) if r else None, []).append(c)
        out = []
        items = list(groups.items())
        for j, (k, cs) in enumerate(items):
            s = st if j == len(items) - 1 else st.fork()
            if len(items) > 1:
                self.setcls(v, tuple(cs), s)
            if k is None:
                out.append((None, s, cs))
            else:
                f = k[1]
                if isinstance(f, Fn):
                    out.append((BM(f, v), s, cs))
                elif isinstance(f, Wrap) and f.kind == "static":
                    out.append((f.fn, s, cs))
                elif isinstance(f, Wrap) and f.kind == "classm":
                    out.append((BM(f.fn, self.tval(cs[0])), s, cs))
                elif isinstance(f, Wrap) and f.kind == "cm":
                    out.append((BM(f, v), s, cs))
                elif isinstance(f, tuple):
                    out.append((BM(f[1], v) if name not in ("__eq__", "__ne__", "__bool__", "__len__", "__iter__", "__contains__", "__getitem__", "__hash__", "__setattr__", "__getattr__", "__delattr__") else None, s, cs))
                elif f == NONE:
                    out.append((None, s, cs))
                else:
                    out.append((f, s, cs))
        return out

    def has_program_base_unknown(self, c):
        return isinstance(c, ClassInfo) and any(isinstance(m, tuple) for m in c.mro)

    def inst_attr(self, r, name, st):
        """raw instance attribute -> [(V | None, st)], materialising lazy attributes"""
        o = st.get(r)
        v = o.attrs.get(name)
        if v is not None:
            return [(v, st)]
        if o.schema is not None and name in o.schema.names:
            return o.schema.attr(self, name, r, st)
        return [(None, st)]

    def inst_all(self, r, st):
        """materialise every attribute -> [(list of names, st)]"""
        o = st.get(r)
        cur = [st]
        if o.schema is not None:
            for nm in o.schema.names:
                nx = []
                for s in cur:
                    if nm in s.get(r).attrs or nm in (s.init[r.i].attrs if r.i in s.init else ()):
                        nx.append(s)
                    else:
                        nx.extend(s2 for _, s2 in o.schema.attr(self, nm, r, s))
                cur = nx
        return [(list(s.get(r).attrs), s) for s in cur]

    def set_raw(self, r, name, v, st):
        """store an instance attribute -> [st]"""
        out = []
        o = st.get(r)
        cur = [st]
        if o.schema is not None and name in o.schema.names and name not in o.attrs and r.i in st.init and name not in st.init[r.i].attrs:
            cur = [s for _, s in o.schema.attr(self, name, r, st)]
        for s in cur:
            s.mut(r, name).attrs[name] = v
            out.append(s)
        return out

    def getattr(self, v, name, st, fr):
        outs = []
        for v1, s in self.norm(v, st):
            outs.extend(self._getattr(v1, name, s, fr))
        return outs

    def attr_error(self, v, name, st):
        return self.ip.raise_("AttributeError", st, K(name))

    def _getattr(self, v, name, st, fr):
        t = type(v)
        if t is R:
            o = st.get(v)
            k = o.kind
            if k == "inst":
                return self.inst_getattr(v, name, st, fr)
            if name == "__class__":
                return n(self.type_of(v, st), st)
            if k == "dict":
                if name in ("get", "items", "keys", "values", "pop", "update", "setdefault", "copy", "clear", "__contains__", "__getitem__", "__setitem__", "__delitem__", "__len__", "__iter__", "popitem", "__repr__", "__str__", "__eq__", "__hash__"):
                    return n(BM(name, v), st)
                return self.attr_error(v, name, st)
            if k == "list":
                if hasattr(list, name):
                    return n(BM(name, v), st)
                return self.attr_error(v, name, st)
            if k == "set":
                if hasattr(set, name):
                    return n(BM(name, v), st)
                return self.attr_error(v, name, st)
            if k == "opq":
                if name in o.attrs:
                    return n(o.attrs[name], st)
                return n(BM(name, v), st)
            if k == "gen":
                return n(BM(name, v), st)
            if k in ("iter", "view"):
                return n(BM(name, v), st)
        if t is T:
            if name == "__class__":
                return n(K(tuple), st)
            if hasattr(tuple, name):
                return n(BM(name, v), st)
            return self.attr_error(v, name, st)
        if t is Cls:
            return self.cls_getattr(v, name, st, fr)
        if t is K:
            return self.const_getattr(v, name, st, fr)
        if t is S:
            pt = self.ptype_of(v, st)
            if isinstance(pt, ClassInfo):
                st.imp("attribute of atom")
                return n(Top("attr"), st)
            if name == "__class__":
                return n(self.tval(pt), st)
            if name == "__dict__" and pt in PRIMS:
                return self.attr_error(v, name, st)
            if hasattr(pt, name):
                a = getattr(pt, name)
                if callable(a):
                    return n(BM(name, v), st)
                st.imp("attribute of primitive")
                return n(Top(name), st)
            if pt in PRIMS:
                return self.attr_error(v, name, st)
            if pt is object:
                st.imp("attribute of opaque")
                return n(Top(name), st)
            return self.attr_error(v, name, st)
        if t is Mod:
            r = self.prog.module_var(v.name, name, st)
            if r is not None:
                return n(r, st)
            sub = v.name + "." + name
            if self.prog.is_program(sub):
                self.prog.load(sub)
                return n(Mod(sub), st)
            if name == "__name__":
                return n(K(v.name), st)
            return self.attr_error(v, name, st)
        if t is X:
            if v.name in ("sys.modules", "os.environ"):
                return n(BM(name, v), st)
            return n(self.prog.ext_attr(v.name, name) if not v.name.startswith("id") else Top("id"), st)
        if t is Ann:
            if name == "__origin__":
                return n(v.origin, st)
            if name == "__args__":
                return n(T(v.args), st)
            if name in ("__module__",):
                return n(K("typing"), st)
            if name in ("__name__", "_name"):
                return n(K(getattr(getattr(v.origin, "v", None), "__name__", "ann")), st)
            return self.attr_error(v, name, st)
        if t is Fn:
            if name in ("__name__", "__qualname__"):
                return n(K(v.f.name), st)
            if name == "__module__":
                return n(K(v.f.module), st)
            if name == "__get__":
                return n(BM("__get__", v), st)
            if name == "__call__":
                return n(v, st)
            return n(X(f"fnattr.{name}"), st) if name in ("__doc__", "__dict__", "__code__", "__annotations__", "__wrapped__") else self.attr_error(v, name, st)
        if t is BM:
            if name == "__self__":
                return n(v.self, st)
            if name == "__func__":
                return n(v.fn if isinstance(v.fn, V) else X("builtinmethod"), st)
            if name == "__name__":
                return n(K(v.fn.f.name if isinstance(v.fn, Fn) else str(v.fn)), st)
            return self.attr_error(v, name, st)
        if t is Sup:
            return self.super_getattr(v, name, st, fr)
        if t is DV:
            return n(BM(name, v), st)
        if t is TypeOf:
            outs = []
            for c, s in self.concretize_type_lazy(v, name, st):
                outs.extend(self._getattr(c, name, s, fr) if not isinstance(c, TypeOf) else n(s.sym((A_STR,), "typename"), s))
            return outs
        if t is Wrap:
            return n(BM(name, v), st)
        if t is Top:
            return n(Top(v.why), st)
        st.imp(f"attribute of {t.__name__}")
        return n(Top(name), st)

    def concretize_type_lazy(self, v, name, st):
        if name in ("__name__", "__qualname__", "__module__"):
            return [(v, st)]
        return self.concretize_type(v, st)

    def inst_getattr(self, v, name, st, fr):
        o = st.get(v)
        if name == "__dict__":
            return n(DV(v.i), st)
        if name == "__class__":
            return n(self.type_of(v, st), st)
        outs = []
        groups = {}
        for c in o.cls:
            r = self.type_lookup(c, name, st)
            unk = self.has_program_base_unknown(c)
            groups.setdefault((r, unk), []).append(c)
        items = list(groups.items())
        # if the instance attribute exists and no class defines a data descriptor, do not split
        nodata = all(r is None or not (isinstance(r[1], Wrap) and r[1].kind == "prop") for (r, _), _ in items)
        if nodata:
            rs = self.inst_attr(v, name, st)
            res = []
            st2 = []
            for x, s in rs:
                if x is not None:
                    outs.append(("n", x, s))
                else:
                    st2.append(s)
            if not st2:
                return outs
            states = st2
        else:
            states = [st]
        for st in states:
            for j, ((r, unk), cs) in enumerate(items):
                s = st if j == len(items) - 1 else st.fork()
                if len(items) > 1:
                    self.setcls(v, tuple(cs), s)
                if r is not None and isinstance(r[1], Wrap) and r[1].kind == "prop":
                    outs.extend(self.ip.call(BM(r[1].fn, v) if isinstance(r[1].fn, Fn) else r[1].fn, [], {}, s, fr))
                    continue
                if not nodata:
                    done = False
                    for x, s2 in self.inst_attr(v, name, s):
                        if x is not None:
                            outs.append(("n", x, s2))
                        else:
                            outs.extend(self.from_class(v, name, r, unk, cs, s2, fr))
                    continue
                outs.extend(self.from_class(v, name, r, unk, cs, s, fr))
        return outs

    def from_class(self, v, name, r, unk, cs, st, fr):
        if r is not None:
            f = r[1]
            if isinstance(f, Fn):
                return n(BM(f, v), st)
            if isinstance(f, tuple):
                return n(BM(f[1], v), st)
            if isinstance(f, Wrap):
                if f.kind == "static":
                    return n(f.fn, st)
                if f.kind == "classm":
                    return n(BM(f.fn, self.tval(cs[0])), st)
                if f.kind == "cm":
                    return n(BM(f, v), st)
            return n(f, st)
        # instance of a modelled exception
        c0 = cs[0]
        if name in ("__setattr__", "__getattribute__", "__init__", "__repr__", "__str__", "__hash__", "__eq__", "__ne__", "__reduce_ex__", "__sizeof__", "__init_subclass__", "__format__", "__delattr__", "__dir__"):
            return n(BM(name, v), st)
        if issub(c0, BaseException) and name in ("__cause__", "__traceback__", "__context__", "__notes__"):
            return n(NONE, st)
        if issub(c0, BaseException) and name == "args":
            return n(T(()), st)
        if name == "__module__":
            return n(K(getattr(c0, "module", "builtins")), st)
        if name == "__doc__":
            return n(NONE, st)
        if unk:
            return n(BM(("xbase", name), v), st)
        if not name.startswith("__") or name in ("__name__", "__members__"):
            g = self.type_lookup(c0, "__getattr__", st)
            if g is not None and isinstance(g[1], Fn):
                return self.ip.call(BM(g[1], v), [K(name)], {}, st, fr)
        elif not (name.startswith("__") and name.endswith("__")):
            g = self.type_lookup(c0, "__getattr__", st)
            if g is not None and isinstance(g[1], Fn):
                return self.ip.call(BM(g[1], v), [K(name)], {}, st, fr)
        else:
            g = self.type_lookup(c0, "__getattr__", st)
            if g is not None and isinstance(g[1], Fn):
                return self.ip.call(BM(g[1], v), [K(name)], {}, st, fr)
        return self.attr_error(v, name, st)

    def cls_getattr(self, v, name, st, fr):
        c = v.c
        if name in ("__name__", "__qualname__"):
            return n(K(c.name), st)
        if name == "__module__":
            return n(K(c.module), st)
        if name == "__base__":
            b = c.bases[0] if c.bases else object
            if isinstance(b, tuple):
                return n(X(b[1]), st)
            return n(self.tval(b), st)
        if name == "__mro__":
            return n(T([self.tval(m) for m in c.mro if not isinstance(m, tuple)]), st)
        if name == "__dict__":
            return n(st.new(D([(K(k), x) for k, x in st.heap[c.env].vars.items()])), st)
        if name == "__members__" and c.is_enum:
            return n(st.new(D([(K(k), x) for k, x in c.members.items()])), st)
        if name == "__dataclass_params__" and c.is_dc:
            return n(st.new(Opq("dcparams", {"frozen": K(c.dc_frozen)})), st)
        if name == "__dataclass_fields__" and c.is_dc:
            return n(st.new(D([(K(f[0]), st.new(Opq("field"))) for f in c.fields])), st)
        if name == "__class__":
            return n(K(type), st)
        r = self.type_lookup(c, name, st)
        if r is not None:
            f = r[1]
            if isinstance(f, Wrap):
                if f.kind == "static":
                    return n(f.fn, st)
                if f.kind == "classm":
                    return n(BM(f.fn, v), st)
                if f.kind == "prop":
                    return n(f, st)
            if isinstance(f, tuple):
                return n(X(f"{getattr(r[0], '__name__', '?')}.{name}"), st)
            return n(f, st)
        if name in ("__new__", "__init__", "__setattr__", "__getattribute__", "__eq__", "__hash__", "__repr__", "__str__", "__delattr__"):
            return n(X("object." + name), st)
        if name in ("__origin__", "__args__", "__orig_bases__", "__forward_arg__", "__supertype__", "_name", "__attrs_attrs__", "__members__", "__dataclass_fields__", "__dataclass_params__"):
            if name == "__orig_bases__" and any(isinstance(b, Ann) or (isinstance(b, K) and not isinstance(b.v, type)) for b in c.orig_bases):
                return n(T(c.orig_bases), st)
            return self.attr_error(v, name, st)
        if self.has_program_base_unknown(c):
            return n(X(f"xcls.{c.name}.{name}"), st)
        return self.attr_error(v, name, st)

    def const_getattr(self, v, name, st, fr):
        o = v.v
        if o is None or isinstance(o, (bool, int, float, str, bytes)):
            if name == "__class__":
                return n(K(type(o)), st)
            if hasattr(o, name):
                a = getattr(o, name)
                if callable(a):
                    return n(BM(name, v), st)
                if isinstance(a, (int, str, float, type(None))):
                    return n(K(a), st)
            return self.attr_error(v, name, st)
        if isinstance(o, slice):
            if name in ("start", "stop", "step"):
                return n(K(getattr(o, name)), st)
            return n(BM(name, v), st)
        # real classes, typing objects
        try:
            a = getattr(o, name)
        except AttributeError:
            return self.attr_error(v, name, st)
        except Exception:
            return n(Top(name), st)
        if isinstance(o, type) and isinstance(a, (types.FunctionType, types.MethodDescriptorType, types.WrapperDescriptorType, types.BuiltinFunctionType, types.MethodType, types.ClassMethodDescriptorType)):
            return n(X(f"{o.__name__}.{name}"), st)
        if isinstance(a, tuple):
            return n(T([self.lift(x) for x in a]), st)
        if a is None or isinstance(a, (bool, int, float, str, bytes, type)) or type(a).__module__ in ("typing", "types"):
            return n(K(a), st)
        if isinstance(a, dict) or isinstance(a, types.MappingProxyType):
            return n(st.new(D(open_=True)), st)
        return n(X(f"{getattr(o, '__name__', '?')}.{name}"), st)

    def lift(self, x):
        if isinstance(x, tuple):
            return T([self.lift(y) for y in x])
        return K(x)

    def super_getattr(self, v, name, st, fr):
        obj = st.res(v.obj)
        if isinstance(obj, Cls):
            mro = obj.c.mro
            cls0 = obj.c
        else:
            o = st.get(obj)
            cls0 = o.cls[0]
            if isinstance(o.cls, tuple) and len(o.cls) > 1:
                # split by class
                outs = []
                for j, c in enumerate(o.cls):
                    s = st if j == len(o.cls) - 1 else st.fork()
                    self.setcls(obj, (c,), s)
                    outs.extend(self.super_getattr(v, name, s, fr))
                return outs
            mro = cls0.mro
        if v.cls not in mro:
            return n(Top("super"), st)
        i = mro.index(v.cls)
        for m in mro[i + 1 :]:
            if isinstance(m, tuple):
                return n(BM(("xbase", name), obj), st)
            if isinstance(m, ClassInfo):
                f = st.heap[m.env].vars.get(name)
            else:
                ci = self.prog.abc.get(m)
                f = st.heap[ci.env].vars.get(name) if ci is not None else None
                if f is None and name in m.__dict__:
                    return n(BM(("super", m, name), obj), st)
            if f is None:
                continue
            if isinstance(f, Fn):
                return n(BM(f, obj), st)
            if isinstance(f, Wrap):
                if f.kind == "static":
                    return n(f.fn, st)
                if f.kind == "classm":
                    return n(BM(f.fn, obj if isinstance(obj, Cls) else self.tval(cls0)), st)
                if f.kind == "prop":
                    return self.ip.call(BM(f.fn, obj), [], {}, st, fr)
                if f.kind == "cm":
                    return n(BM(f, obj), st)
            return n(f, st)
        return self.attr_error(obj, name, st)

    def setattr(self, o, name, v, st, fr):
        outs = []
        for o1, s in self.norm(o, st):
            outs.extend(self._setattr(o1, name, v, s, fr))
        return outs

    def _setattr(self, o, name, v, st, fr):
        if isinstance(o, R):
            ob = st.get(o)
            if ob.kind == "inst":
                outs = []
                for fv, s, cs in self.find_method(o, "__setattr__", st):
                    if fv is not None:
                        outs.extend(self.ip.call(fv, [K(name), v], {}, s, fr))
                        continue
                    if name == "__dict__":
                        outs.extend(self.replace_dict(o, v, s))
                        continue
                    c0 = cs[0]
                    r = self.type_lookup(c0, name, s)
                    if r is not None and isinstance(r[1], Wrap) and r[1].kind == "prop":
                        ex = dict(r[1].extra or ())
                        if "setter" in ex:
                            outs.extend(self.ip.call(BM(ex["setter"], o), [v], {}, s, fr))
                        else:
                            outs.extend(self.attr_error(o, name, s))
                        continue
                    outs.extend(("n", NONE, s2) for s2 in self.set_raw(o, name, v, s))
                return outs
            if ob.kind == "opq":
                st.mut(o).attrs[name] = v
                return n(NONE, st)
            return self.attr_error(o, name, st)
        if isinstance(o, Cls):
            st.mut(R(o.c.env)).vars[name] = v
            return n(NONE, st)
        if isinstance(o, Mod):
            self.prog.set_module_var(o.name, name, v, st)
            return n(NONE, st)
        if isinstance(o, X):
            st.ev = st.ev + (("extset", o.name, name),)
            return n(NONE, st)
        if isinstance(o, K) and (o.v is None or isinstance(o.v, PRIMS)):
            return self.attr_error(o, name, st)
        if isinstance(o, Top):
            st.imp("attribute store on unknown")
        return n(NONE, st)

    def replace_dict(self, o, v, st):
        v = st.res(v)
        if isinstance(v, R) and st.get(v).kind == "dict":
            ob = st.mut(o)
            ob.attrs = {st.res(k).v: x for k, x in st.get(v).ents if isinstance(st.res(k), K)}
            ob.schema = None
        elif isinstance(v, DV):
            ob = st.mut(o)
            ob.attrs = dict(st.get(R(v.i)).attrs)
        else:
            st.imp("__dict__ replaced")
        return n(NONE, st)

    def delattr(self, o, name, st, fr):
        outs = []
        for o1, s in self.norm(o, st):
            if isinstance(o1, R) and s.get(o1).kind == "inst":
                for fv, s2, cs in self.find_method(o1, "__delattr__", s):
                    if fv is not None:
                        outs.extend(self.ip.call(fv, [K(name)], {}, s2, fr))
                    else:
                        for x, s3 in self.inst_attr(o1, name, s2):
                            if x is None:
                                outs.extend(self.attr_error(o1, name, s3))
                            else:
                                del s3.mut(o1).attrs[name]
                                outs.append(("n", NONE, s3))
            elif isinstance(o1, R) and s.get(o1).kind == "opq":
                s.mut(o1).attrs.pop(name, None)
                outs.append(("n", NONE, s))
            elif isinstance(o1, Cls):
                s.mut(R(o1.c.env)).vars.pop(name, None)
                outs.append(("n", NONE, s))
            else:
                outs.append(("n", NONE, s))
        return outs

    # ------------------------------------------------------------ items
    def idx(self, xs_len, k):
        if -xs_len <= k < xs_len:
            return k % xs_len if xs_len else None
        return None

    def int_ok(self, k, c, st):
        """is int value c consistent with what the path already assumed about the unknown int k"""
        for f, val in st.facts.items():
            if f[0] == "lt":
                a, b = st.res(f[1]), st.res(f[2])
                if a == k and isinstance(b, K) and isinstance(b.v, (int, float)) and (c < b.v) != val:
                    return False
                if b == k and isinstance(a, K) and isinstance(a.v, (int, float)) and (a.v < c) != val:
                    return False
            elif f[0] == "eq":
                a, b = st.res(f[1]), st.res(f[2])
                if b == k:
                    a, b = b, a
                if a == k and isinstance(b, K) and isinstance(b.v, (int, float)) and (c == b.v) != val:
                    return False
            elif f[0] == "truth" and st.res(f[1]) == k and bool(c) != val:
                return False
        return True

    def int_cases(self, k, ln, st):
        """an unknown int used as an index: one case per position and one representative beyond each end"""
        out = []
        cs = [c for c in list(range(-ln, ln)) + [ln + 3, -ln - 3] if self.int_ok(k, c, st)]
        for j, c in enumerate(cs):
            s = st if j == len(cs) - 1 else st.fork()
            s.bind[k.i] = K(c)
            out.append((c, s))
        return out

    def getitem(self, o, k, st, fr):
        outs = []
        for o1, s in self.norm(o, st):
            outs.extend(self._getitem(o1, k, s, fr))
        return outs

    def _getitem(self, o, k, st, fr):
        t = type(o)
        if t is DV:
            k = st.res(k)
            if isinstance(k, K):
                outs = []
                for v, s in self.inst_attr(R(o.i), k.v, st):
                    outs.extend(n(v, s) if v is not None else self.ip.raise_("KeyError", s, k))
                return outs
            st.imp("dynamic __dict__ key")
            return n(Top("__dict__"), st)
        if t is R:
            ob = st.get(o)
            if ob.kind == "dict":
                if self.unhashable(k, st):
                    return self.ip.raise_("TypeError", st)
                outs = []
                for i, s in self.dict_find(o, k, st):
                    if i is None:
                        if ob.factory is not None:
                            for t2, v, s2 in self.ip.call(ob.factory, [], {}, s, fr):
                                if t2 != "n":
                                    outs.append((t2, v, s2))
                                else:
                                    outs.extend(("n", v, s3) for s3 in self.dict_set(o, k, v, s2))
                        else:
                            outs.extend(self.ip.raise_("KeyError", s, s.res(k)))
                    elif i == -1:
                        outs.append(("n", Top("entry of open dict"), s))
                    else:
                        outs.append(("n", s.get(o).ents[i][1], s))
                return outs
            if ob.kind == "list":
                return self.seq_get(ob.xs, k, st, ob.open, True)
            if ob.kind == "inst":
                outs = []
                for fv, s, cs in self.find_method(o, "__getitem__", st):
                    if fv is None:
                        outs.extend(self.ip.raise_("TypeError", s))
                    else:
                        outs.extend(self.ip.call(fv, [k], {}, s, fr))
                return outs
            if ob.kind == "opq":
                return n(st.new(Opq(ob.name + "[]")), st)
            return self.ip.raise_("TypeError", st)
        if t is T:
            return self.seq_get(list(o.xs), k, st, False, False)
        if t is Cls:
            if o.c.is_enum:
                outs = []
                cur = [st]
                for nm, m in o.c.members.items():
                    nx = []
                    for s in cur:
                        for b, s2 in self.prim_eq(k, K(nm), s):
                            if b:
                                outs.append(("n", m, s2))
                            else:
                                nx.append(s2)
                    cur = nx
                for s in cur:
                    outs.extend(self.ip.raise_("KeyError", s))
                return outs
            return n(Ann(o, self.targs(k, st)), st)
        if t is K:
            if isinstance(o.v, (str, bytes, tuple)):
                outs = []
                for k1, s in self.norm(k, st):
                    if isinstance(k1, K):
                        try:
                            outs.append(("n", K(o.v[k1.v]), s))
                        except IndexError:
                            outs.extend(self.ip.raise_("IndexError", s))
                        except TypeError:
                            outs.extend(self.ip.raise_("TypeError", s))
                    else:
                        outs.append(("n", s.sym((A_STR,), "sub"), s))
                return outs
            if o.v is None or isinstance(o.v, (int, float)):
                return self.ip.raise_("TypeError", st)
            return n(self.subscript_type(o, k, st), st)
        if t is S:
            pt = self.ptype_of(o, st)
            if pt is str:
                key = ("sub", o, st.res(k))
                if key in st.facts:
                    return n(st.facts[key], st)
                dom = (A_STR, A_INTERP, MISS) if any(isinstance(e, Atom) and e.name in ("INTERP", "ANYSTR") for e in st.dom(o)) else (A_STR,)
                v = st.sym(dom, "substr")
                st.facts[key] = v
                return n(v, st)
            if pt in PRIMS:
                return self.ip.raise_("TypeError", st)
        if t is X:
            if o.name == "os.environ":
                key = ("env", st.res(k))
                v = st.sym((A_STR, A_INTERP, MISS), "env")
                return n(v, st) + self.ip.raise_("KeyError", st.fork())
            return n(X(o.name + "[]"), st)
        if t is Ann:
            return n(o, st)
        if t is Top:
            return n(o, st)
        return n(Top("getitem"), st)

    def targs(self, k, st):
        k = st.res(k)
        return k.xs if isinstance(k, T) else (k,)

    def subscript_type(self, o, k, st):
        """typing subscription; real typing objects when every argument is a constant"""
        args = [st.res(a) for a in self.targs(k, st)]
        base = o.v
        if isinstance(base, type) and base.__module__ not in ("typing", "collections.abc", "builtins"):
            pass
        if all(isinstance(a, K) for a in args) or all(isinstance(a, (K, T)) and self._real(a) is not None for a in args):
            try:
                av = [self._real(a)[0] for a in args]
                r = base[tuple(av)] if len(av) != 1 or isinstance(st.res(k), T) else base[av[0]]
                return K(r)
            except Exception:
                pass
        org = typing.get_origin(base) or base
        if base is typing.Optional:
            args = args + [K(NoneType)]
            org = Union_
        if org is Union_:
            flat = []
            for a in args:
                if isinstance(a, Ann) and isinstance(a.origin, K) and a.origin.v is Union_:
                    flat.extend(a.args)
                elif isinstance(a, K) and typing.get_origin(a.v) is Union_:
                    flat.extend(K(x) for x in typing.get_args(a.v))
                elif isinstance(a, K) and a.v is None:
                    flat.append(K(NoneType))
                else:
                    flat.append(a)
            ded = []
            for a in flat:
                if a not in ded:
                    ded.append(a)
            if len(ded) == 1:
                return ded[0]
            args = ded
        return Ann(K(org), args)

    def _real(self, a):
        if isinstance(a, K):
            return (a.v,)
        if isinstance(a, T):
            xs = [self._real(x) for x in a.xs]
            if any(x is None for x in xs):
                return None
            return (tuple(x[0] for x in xs),)
        return None

    def seq_get(self, xs, k, st, open_, islist):
        outs = []
        for k1, s in self.norm(k, st):
            if isinstance(k1, K):
                if isinstance(k1.v, (bool, int)):
                    i = self.idx(len(xs), int(k1.v))
                    if i is not None:
                        outs.append(("n", xs[i], s))
                    else:
                        if open_:
                            outs.append(("n", Top("open list"), s.fork()))
                        outs.extend(self.ip.raise_("IndexError", s))
                elif isinstance(k1.v, slice):
                    r = xs[k1.v]
                    outs.append(("n", s.new(L(list(r), open_)) if islist else T(r), s))
                else:
                    outs.extend(self.ip.raise_("TypeError", s))
            elif isinstance(k1, S) and self.ptype_of(k1, s) in (int, bool):
                if open_:
                    for x in xs:
                        outs.append(("n", x, s.fork()))
                    outs.extend(self.ip.raise_("IndexError", s))
                    continue
                for c, s2 in self.int_cases(k1, len(xs), s):
                    i = self.idx(len(xs), c)
                    outs.extend([("n", xs[i], s2)] if i is not None else self.ip.raise_("IndexError", s2))
            elif isinstance(k1, R) and s.get(k1).kind == "opq" and s.get(k1).name == "slice":
                s.imp("slice bounds")
                outs.append(("n", s.new(L(list(xs), True)), s))
            elif isinstance(k1, Top):
                outs.append(("n", k1, s))
            else:
                outs.extend(self.ip.raise_("TypeError", s))
        return outs

    def setitem(self, o, k, v, st, fr):
        outs = []
        for o1, s in self.norm(o, st):
            outs.extend(self._setitem(o1, k, v, s, fr))
        return outs

    def _setitem(self, o, k, v, st, fr):
        if isinstance(o, DV):
            k = st.res(k)
            if isinstance(k, K):
                return [("n", NONE, s) for s in self.set_raw(R(o.i), k.v, v, st)]
            st.imp("dynamic __dict__ store")
            return n(NONE, st)
        if isinstance(o, R):
            ob = st.get(o)
            if ob.kind == "dict":
                if self.unhashable(k, st):
                    return self.ip.raise_("TypeError", st)
                return [("n", NONE, s) for s in self.dict_set(o, k, v, st)]
            if ob.kind == "list":
                outs = []
                for k1, s in self.norm(k, st):
                    xs = s.get(o).xs
                    if isinstance(k1, K) and isinstance(k1.v, int):
                        i = self.idx(len(xs), k1.v)
                        if i is None:
                            outs.extend(self.ip.raise_("IndexError", s))
                        else:
                            s.mut(o).xs[i] = v
                            outs.append(("n", NONE, s))
                    elif isinstance(k1, K) and isinstance(k1.v, slice):
                        for t, ys, s2 in self.to_list(v, s, fr):
                            if t != "n":
                                outs.append((t, ys, s2))
                                continue
                            try:
                                s2.mut(o).xs[k1.v] = ys
                                outs.append(("n", NONE, s2))
                            except ValueError:
                                outs.extend(self.ip.raise_("ValueError", s2))
                    elif isinstance(k1, S) and self.ptype_of(k1, s) in (int, bool):
                        for c, s2 in self.int_cases(k1, len(xs), s):
                            i = self.idx(len(xs), c)
                            if i is None:
                                outs.extend(self.ip.raise_("IndexError", s2))
                            else:
                                s2.mut(o).xs[i] = v
                                outs.append(("n", NONE, s2))
                    elif isinstance(k1, Top):
                        s.imp("list store at unknown index")
                        outs.append(("n", NONE, s))
                    else:
                        outs.extend(self.ip.raise_("TypeError", s))
                return outs
            if ob.kind == "inst":
                outs = []
                for fv, s, cs in self.find_method(o, "__setitem__", st):
                    if fv is None:
                        outs.extend(self.ip.raise_("TypeError", s))
                    else:
                        outs.extend((t, NONE if t == "n" else r, s2) for t, r, s2 in self.ip.call(fv, [k, v], {}, s, fr))
                return outs
            if ob.kind == "opq":
                return n(NONE, st)
            return self.ip.raise_("TypeError", st)
        if isinstance(o, X):
            st.ev = st.ev + (("extset", o.name, "[]"),)
            return n(NONE, st)
        if isinstance(o, Top):
            st.imp("item store on unknown")
            return n(NONE, st)
        return self.ip.raise_("TypeError", st)

    def delitem(self, o, k, st, fr):
        outs = []
        for o1, s in self.norm(o, st):
            outs.extend(self._delitem(o1, k, s, fr))
        return outs

    def _delitem(self, o, k, st, fr):
        if isinstance(o, DV):
            k = st.res(k)
            if isinstance(k, K):
                outs = []
                for v, s in self.inst_attr(R(o.i), k.v, st):
                    if v is None:
                        outs.extend(self.ip.raise_("KeyError", s, k))
                    else:
                        del s.mut(R(o.i)).attrs[k.v]
                        outs.append(("n", NONE, s))
                return outs
            st.imp("dynamic __dict__ delete")
            return n(NONE, st)
        if isinstance(o, R):
            ob = st.get(o)
            if ob.kind == "dict":
                if self.unhashable(k, st):
                    return self.ip.raise_("TypeError", st)
                outs = []
                for i, s in self.dict_find(o, k, st):
                    if i is None:
                        outs.extend(self.ip.raise_("KeyError", s, s.res(k)))
                    else:
                        if i >= 0:
                            del s.mut(o).ents[i]
                        outs.append(("n", NONE, s))
                return outs
            if ob.kind == "list":
                outs = []
                for k1, s in self.norm(k, st):
                    xs = s.get(o).xs
                    if isinstance(k1, K) and isinstance(k1.v, int):
                        i = self.idx(len(xs), k1.v)
                        if i is None:
                            outs.extend(self.ip.raise_("IndexError", s))
                        else:
                            del s.mut(o).xs[i]
                            outs.append(("n", NONE, s))
                    elif isinstance(k1, K) and isinstance(k1.v, slice):
                        del s.mut(o).xs[k1.v]
                        outs.append(("n", NONE, s))
                    elif isinstance(k1, S) and self.ptype_of(k1, s) in (int, bool):
                        for c, s2 in self.int_cases(k1, len(xs), s):
                            i = self.idx(len(xs), c)
                            if i is None:
                                outs.extend(self.ip.raise_("IndexError", s2))
                            else:
                                del s2.mut(o).xs[i]
                                outs.append(("n", NONE, s2))
                    elif isinstance(k1, Top):
                        s.imp("list delete at unknown index")
                        outs.append(("n", NONE, s))
                    else:
                        outs.extend(self.ip.raise_("TypeError", s))
                return outs
            if ob.kind == "inst":
                outs = []
                for fv, s, cs in self.find_method(o, "__delitem__", st):
                    if fv is None:
                        outs.extend(self.ip.raise_("TypeError", s))
                    else:
                        outs.extend((t, NONE if t == "n" else r, s2) for t, r, s2 in self.ip.call(fv, [k], {}, s, fr))
                return outs
            if ob.kind == "opq":
                return n(NONE, st)
        if isinstance(o, X):
            st.ev = st.ev + (("extdel", o.name, "[]"),)
            return n(NONE, st)
        if isinstance(o, Top):
            st.imp("item delete on unknown")
            return n(NONE, st)
        return self.ip.raise_("TypeError", st)

    # ------------------------------------------------------------ iteration
    def iter(self, v, st, fr):
        """-> outcomes; value is a R(Iter|Gen|inst with __next__)"""
        outs = []
        for v1, s in self.norm(v, st):
            outs.extend(self._iter(v1, s, fr))
        return outs

    def _iter(self, v, st, fr):
        t = type(v)
        if t is T:
            return n(st.new(Iter(v.xs)), st)
        if t is R:
            o = st.get(v)
            k = o.kind
            if k == "list":
                return n(st.new(Iter(None, 0, o.open, v)), st)
            if k == "dict":
                return n(st.new(Iter(tuple(a for a, _ in o.ents), 0, o.open, ("len", v, len(o.ents)))), st)
            if k == "set":
                return n(st.new(Iter(tuple(o.xs), 0, o.open)), st)
            if k == "view":
                d = o.of
                if isinstance(d, DV):
                    outs = []
                    for nm, s in self.inst_all(R(d.i), st):
                        at = s.get(R(d.i)).attrs
                        xs = [T((K(a), at[a])) if o.what == "items" else K(a) if o.what == "keys" else at[a] for a in nm]
                        outs.append(("n", s.new(Iter(tuple(xs))), s))
                    return outs
                do = st.get(d)
                if o.what == "keys":
                    xs = tuple(a for a, _ in do.ents)
                elif o.what == "values":
                    xs = tuple(b for _, b in do.ents)
                else:
                    xs = tuple(T((a, b)) for a, b in do.ents)
                return n(st.new(Iter(xs, 0, do.open, ("len", d, len(do.ents)))), st)
            if k in ("iter", "gen"):
                return n(v, st)
            if k == "inst":
                outs = []
                for fv, s, cs in self.find_method(v, "__iter__", st):
                    if fv is not None:
                        for t2, r, s2 in self.ip.call(fv, [], {}, s, fr):
                            outs.append((t2, r, s2))
                    else:
                        for gv, s2, _ in self.find_method(v, "__next__", s):
                            if gv is not None:
                                outs.append(("n", v, s2))
                            else:
                                for g2, s3, _ in self.find_method(v, "__getitem__", s2):
                                    outs.extend(self.ip.raise_("TypeError", s3))
                return outs
            if k == "opq":
                st.imp("iteration over opaque " + o.name)
                return n(st.new(Iter((), 0, True)), st)
        if t is DV:
            outs = []
            for nm, s in self.inst_all(R(v.i), st):
                outs.append(("n", s.new(Iter(tuple(K(a) for a in nm))), s))
            return outs
        if t is K:
            o = v.v
            if isinstance(o, (str, bytes, tuple, frozenset, range)):
                return n(st.new(Iter(tuple(K(x) for x in o))), st)
            return self.ip.raise_("TypeError", st)
        if t is S:
            pt = self.ptype_of(v, st)
            if pt is str:
                return n(st.new(Iter((), 0, True, ("elem", "str"))), st)
            if pt in (int, float, bool, NoneType):
                return self.ip.raise_("TypeError", st)
            if pt is bytes:
                return n(st.new(Iter((), 0, True, None)), st)
            return self.ip.raise_("TypeError", st)
        if t is Cls and v.c.is_enum:
            return n(st.new(Iter(tuple(v.c.members.values()))), st)
        if t is Top or t is X:
            st.imp("iteration over unknown")
            return n(st.new(Iter((), 0, True)), st)
        return self.ip.raise_("TypeError", st)

    def next(self, it, st, fr):
        """-> ('n', v, st) | ('stop', None, st) | ('x', ...)"""
        it = st.res(it)
        if isinstance(it, R):
            o = st.get(it)
            if o.kind == "iter":
                if o.xs is None:
                    src = st.get(o.src)
                    if o.pos < len(src.xs):
                        x = src.xs[o.pos]
                        st.mut(it).pos += 1
                        return [("n", x, st)]
                    if not src.open:
                        return [("stop", None, st)]
                else:
                    if isinstance(o.src, tuple) and o.src[0] == "len":
                        d = st.get(o.src[1]) if isinstance(o.src[1], R) else None
                        if d is not None and d.kind == "dict" and len(d.ents) != o.src[2] and not d.open:
                            return self.ip.raise_("RuntimeError", st, K("dictionary changed size during iteration"))
                    if o.pos < len(o.xs):
                        x = o.xs[o.pos]
                        st.mut(it).pos += 1
                        return [("n", x, st)]
                    if not o.open:
                        return [("stop", None, st)]
                # open: unknown further elements, at most two
                base = len(o.xs) if o.xs is not None else len(st.get(o.src).xs)
                if o.pos - base >= 1:
                    return [("stop", None, st)]
                s2 = st.fork()
                s2.mut(it).pos += 1
                if isinstance(o.src, tuple) and o.src[0] == "elem":
                    return [("stop", None, st), ("n", s2.sym((A_STR,), "char"), s2)]
                return [("stop", None, st), ("n", Top("element"), s2)]
            if o.kind == "inst":
                outs = []
                for fv, s, cs in self.find_method(it, "__next__", st):
                    if fv is None:
                        outs.extend(self.ip.raise_("TypeError", s))
                        continue
                    for t, r, s2 in self.ip.call(fv, [], {}, s, fr):
                        if t == "x":
                            for b, s3 in self.isinstance_(r, K(StopIteration), s2):
                                outs.append(("stop", None, s3) if b else ("x", r, s3))
                        else:
                            outs.append((t, r, s2))
                return outs
        st.imp("next of unknown")
        return [("stop", None, st), ("n", Top("next"), st.fork())]

    def to_list(self, v, st, fr, want=None):
        """-> ('n', [values], st) | ('x', ...)"""
        v = st.res(v)
        if isinstance(v, T):
            return [("n", list(v.xs), st)]
        if isinstance(v, Top) and want:
            return [("n", [Top(v.why)] * want, st)]
        if isinstance(v, R):
            o = st.get(v)
            if o.kind in ("list", "set"):
                if o.open and want and not o.xs:
                    st.imp("unpack open list")
                    return [("n", [Top("unpack")] * want, st)]
                return [("n", list(o.xs), st)]
            if o.kind == "opq" and want:
                st.imp("unpack opaque")
                return [("n", [Top("unpack")] * want, st)]
        if isinstance(v, X) and want:
            return [("n", [X(v.name + f"[{i}]") for i in range(want)], st)]
        acc = st.new(L())
        st.roots = st.roots + (acc.i,)

        def body(x, s):
            s.mut(acc).xs.append(x)
            return [("n", NONE, s)]

        outs = []
        for t, r, s in self.ip.iterate(v, st, fr, body):
            s.roots = s.roots[:-1]
            outs.append((t, list(s.get(acc).xs) if t == "n" else r, s))
        return outs

    # ------------------------------------------------------------ operators
    OPN = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Mod: "mod", ast.Div: "truediv", ast.FloorDiv: "floordiv", ast.BitOr: "or", ast.BitAnd: "and", ast.BitXor: "xor", ast.Pow: "pow", ast.LShift: "lshift", ast.RShift: "rshift", ast.MatMult: "matmul"}

    def binop(self, op, a, b, st, fr):
        outs = []
        for a1, s in self.norm(a, st):
            for b1, s1 in self.norm(b, s):
                outs.extend(self._binop(op, a1, b1, s1, fr))
        return outs

    def _binop(self, op, a, b, st, fr):
        import operator

        if isinstance(a, K) and isinstance(b, K):
            if op is ast.BitOr and (isinstance(a.v, type) or isinstance(b.v, type)):
                try:
                    return n(K(a.v | b.v), st)
                except TypeError:
                    return self.ip.raise_("TypeError", st)
            f = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "mod": operator.mod, "truediv": operator.truediv, "floordiv": operator.floordiv, "or": operator.or_, "and": operator.and_, "xor": operator.xor, "pow": operator.pow, "lshift": operator.lshift, "rshift": operator.rshift}[self.OPN[op]]
            try:
                return n(K(f(a.v, b.v)), st)
            except TypeError:
                return self.ip.raise_("TypeError", st)
            except Exception as e:
                return self.ip.raise_(type(e).__name__, st)
        if isinstance(a, Top) or isinstance(b, Top):
            return n(Top("arith"), st)
        ka = st.get(a).kind if isinstance(a, R) else None
        kb = st.get(b).kind if isinstance(b, R) else None
        nm = self.OPN[op]
        if ka == "inst":
            outs = []
            for fv, s, cs in self.find_method(a, f"__{nm}__", st):
                if fv is not None:
                    outs.extend(self.ip.call(fv, [b], {}, s, fr))
                elif kb == "inst":
                    for gv, s2, _ in self.find_method(b, f"__r{nm}__", s):
                        outs.extend(self.ip.call(gv, [a], {}, s2, fr) if gv is not None else self.ip.raise_("TypeError", s2))
                else:
                    outs.extend(self.ip.raise_("TypeError", s))
            return outs
        if op is ast.Add:
            if ka == "list" and kb == "list":
                x, y = st.get(a), st.get(b)
                return n(st.new(L(list(x.xs) + list(y.xs), x.open or y.open)), st)
            if isinstance(a, T) and isinstance(b, T):
                return n(T(a.xs + b.xs), st)
        if op is ast.Mult:
            for x, y in ((a, b), (b, a)):
                if isinstance(y, K) and isinstance(y.v, int):
                    if isinstance(x, T):
                        return n(T(x.xs * y.v), st)
                    if isinstance(x, R) and st.get(x).kind == "list":
                        o = st.get(x)
                        return n(st.new(L(list(o.xs) * y.v, o.open)), st)
        if kb == "inst":
            outs = []
            for gv, s2, _ in self.find_method(b, f"__r{nm}__", st):
                outs.extend(self.ip.call(gv, [a], {}, s2, fr) if gv is not None else self.ip.raise_("TypeError", s2))
            return outs
        if ka == "dict" and kb == "dict" and op is ast.BitOr:
            d = st.new(st.get(a).copy())
            return self.dict_update(d, b, st, fr)
        if ka == "set" or kb == "set" or ka == "view" or kb == "view":
            return self.set_op(nm, a, b, st, fr)
        if isinstance(a, (Cls, Ann)) or isinstance(b, (Cls, Ann)):
            if op is ast.BitOr:
                return n(self.subscript_type(K(Union_), T((a, b)), st), st)
        ta = self.ptype_of(a, st) if not isinstance(a, X) else None
        tb = self.ptype_of(b, st) if not isinstance(b, X) else None
        if ta is str and (op is ast.Mod or (op is ast.Add and tb is str)):
            dom = []
            for x in (a, b):
                if isinstance(x, K):
                    dom.append("${" in str(x.v))
                elif isinstance(x, S):
                    dom.append(any(isinstance(e, Atom) and e.name in ("INTERP", "ANYSTR") for e in st.dom(x)))
            return n(st.sym((A_INTERP,) if any(dom) else (A_STR,), "str"), st)
        num = (int, float, bool)
        if ta in num and tb in num:
            return n(st.sym((A_FLOAT if float in (ta, tb) or op is ast.Div else A_INT,), "num"), st)
        if isinstance(a, X) or isinstance(b, X):
            return n(X("arith"), st)
        if ta in PRIMS and tb in PRIMS:
            return self.ip.raise_("TypeError", st)
        if ta in PRIMS or tb in PRIMS:
            return self.ip.raise_("TypeError", st)
        st.imp("operator " + nm)
        return n(Top(nm), st)

    def set_op(self, nm, a, b, st, fr):
        outs = []
        for t, xs, s in self.to_list(a, st, fr):
            if t != "n":
                outs.append((t, xs, s))
                continue
            for t2, ys, s2 in self.to_list(b, s, fr):
                if t2 != "n":
                    outs.append((t2, ys, s2))
                    continue
                r = s2.new(Set_())
                if nm == "or":
                    cur = [s2]
                    for z in xs + ys:
                        cur = [q for p in cur for q in self.set_add(r, z, p)]
                    outs.extend(("n", r, p) for p in cur)
                else:
                    cur = [s2]
                    for z in xs:
                        nx = []
                        for p in cur:
                            for t3, c, p2 in self._any_eq(ys, z, p, fr):
                                if t3 != "n":
                                    outs.append((t3, c, p2))
                                    continue
                                if (c == TRUE) == (nm == "and"):
                                    p2.mut(r).xs.append(z)
                                nx.append(p2)
                        cur = nx
                    if nm == "xor":
                        for p in cur:
                            p.imp("set xor")
                    outs.extend(("n", r, p) for p in cur)
        return outs

    def inplace(self, op, a, b, st, fr):
        outs = []
        for a1, s in self.norm(a, st):
            if isinstance(a1, R):
                o = s.get(a1)
                if o.kind == "list" and op is ast.Add:
                    for t, xs, s2 in self.to_list(b, s, fr):
                        if t == "n":
                            s2.mut(a1).xs.extend(xs)
                            outs.append(("n", a1, s2))
                        else:
                            outs.append((t, xs, s2))
                    continue
                if o.kind == "dict" and op is ast.BitOr:
                    outs.extend(self.dict_update(a1, b, s, fr))
                    continue
                if o.kind == "inst":
                    for fv, s2, cs in self.find_method(a1, f"__i{self.OPN[op]}__", s):
                        if fv is not None:
                            outs.extend(self.ip.call(fv, [b], {}, s2, fr))
                        else:
                            outs.extend(self.binop(op, a1, b, s2, fr))
                    continue
            outs.extend(self.binop(op, a1, b, s, fr))
        return outs

    # ------------------------------------------------------------ decorators / with
    def decorate(self, dv, fv, st, fr):
        dv = st.res(dv)
        if isinstance(dv, K):
            if dv.v is staticmethod:
                return n(Wrap("static", fv), st)
            if dv.v is classmethod:
                return n(Wrap("classm", fv), st)
            if dv.v is property:
                return n(Wrap("prop", fv, ()), st)
        if isinstance(dv, X):
            if dv.name in ("contextlib.contextmanager",):
                return n(Wrap("cm", fv), st)
            if dv.name in ("abc.abstractmethod", "typing.overload", "functools.lru_cache", "functools.cache", "typing.final", "typing.no_type_check"):
                return n(fv, st)
            if dv.name == "abc.abstractproperty":
                return n(Wrap("prop", fv, ()), st)
            if dv.name in ("dataclasses.dataclass",):
                if isinstance(fv, Cls):
                    self.prog.make_dataclass(fv.c, st, self.ip)
                return n(fv, st)
            if dv.name.startswith("functools.wraps") or dv.name == "deco":
                return n(fv, st)
        if isinstance(dv, R):
            o = st.get(dv)
            if o.kind == "opq" and o.name == "dataclass-deco":
                if isinstance(fv, Cls):
                    fz = st.res(o.attrs.get("frozen", FALSE))
                    self.prog.make_dataclass(fv.c, st, self.ip, frozen=fz == TRUE)
                return n(fv, st)
            if o.kind == "opq" and o.name == "identity-deco":
                return n(fv, st)
        if isinstance(dv, (Fn, BM)):
            return self.ip.call(dv, [fv], {}, st, fr)
        return n(fv, st)

    def with_(self, cm, inner, st, fr):
        """inner(value, st) -> body outcomes"""
        outs = []
        for cm1, s in self.norm(cm, st):
            if isinstance(cm1, R):
                o = s.get(cm1)
                if o.kind == "gen":
                    outs.extend(self.with_gen(o, inner, s, fr))
                    continue
                if o.kind == "inst":
                    for en, s2, _ in self.find_method(cm1, "__enter__", s):
                        if en is None:
                            outs.extend(self.ip.raise_("TypeError", s2))
                            continue
                        for t, v, s3 in self.ip.call(en, [], {}, s2, fr):
                            if t != "n":
                                outs.append((t, v, s3))
                                continue
                            for t4, v4, s4 in inner(v, s3):
                                a = [NONE, NONE, NONE]
                                if t4 == "x":
                                    a = [self.type_of(v4, s4), v4, X("tb")]
                                for ex, s5, _ in self.find_method(cm1, "__exit__", s4):
                                    for t6, v6, s6 in self.ip.call(ex, a, {}, s5, fr):
                                        if t6 != "n":
                                            outs.append((t6, v6, s6))
                                        elif t4 == "x":
                                            for t7, b, s7 in self.truth(v6, s6, fr):
                                                outs.append(("n", NONE, s7) if b else ("x", v4, s7))
                                        else:
                                            outs.append((t4, v4, s6))
                    continue
                if o.kind == "opq":
                    s.ev = s.ev + (("enter", o.name, fr.line),)
                    val = o.attrs.get("enter", cm1)
                    for t, v, s2 in inner(val, s):
                        s2.ev = s2.ev + (("exit", o.name, fr.line),)
                        if o.name == "suppress" and t == "x":
                            for b, s3 in self.isinstance_(v, o.attrs["of"], s2):
                                outs.append(("n", NONE, s3) if b else ("x", v, s3))
                        else:
                            outs.append((t, v, s2))
                    continue
            if isinstance(cm1, Top):
                s.imp("with unknown")
            outs.extend(inner(cm1, s))
        return outs

    def with_gen(self, g, inner, st, fr):
        tok = object()

        def cb(v, s):
            r = []
            for t, x, s2 in inner(v, s):
                if t == "x":
                    s2.exc = s2.exc
                    r.append(("x", x, s2))
                else:
                    s2.pend = ((t, x), s2.pend)
                    r.append(("n", NONE, s2))
            return r

        depth = st.pend
        outs = []

        def plen(p):
            c = 0
            while p is not None:
                p = p[1]
                c += 1
            return c

        d0 = plen(depth)
        for t, v, s in self.ip.run_gen(g, st, fr, cb):
            if t in ("n", "r"):
                if plen(s.pend) > d0:
                    (tt, vv), rest = s.pend
                    s.pend = rest
                    outs.append((tt, vv, s))
                else:
                    outs.append(("n", NONE, s))  # exception swallowed by the generator
            else:
                if plen(s.pend) > d0:
                    s.pend = s.pend[1]
                outs.append((t, v, s))
        return outs

    # ------------------------------------------------------------ calls
    def call(self, fv, args, kwargs, st, fr, node=None):
        fv = st.res(fv)
        t = type(fv)
        if t is Fn:
            return self.ip.call_fn(fv, args, kwargs, st, fr, node=node)
        if t is BM:
            f = fv.fn
            if isinstance(f, Fn):
                return self.ip.call_fn(f, [fv.self] + list(args), kwargs, st, fr, node=node)
            if isinstance(f, Wrap):
                return self.call(f, [fv.self] + list(args), kwargs, st, fr, node)
            if isinstance(f, tuple):
                return self.ext_super(f, fv.self, args, kwargs, st, fr)
            return self.method(fv.self, f, args, kwargs, st, fr)
        if t is Cls:
            return self.instantiate(fv.c, args, kwargs, st, fr)
        if t is X:
            h = self.ext.get(fv.name)
            if h is not None:
                return h(args, kwargs, st, fr)
            return self.unknown_call(fv.name, args, kwargs, st, fr)
        if t is K:
            if isinstance(fv.v, type):
                h = self.ext.get("T:" + fv.v.__name__)
                if h is not None:
                    return h(args, kwargs, st, fr)
                if issubclass(fv.v, BaseException):
                    return n(self.ip.mkexc(fv.v, st, args), st)
                ci = self.prog.abc.get(fv.v)
                return self.unknown_call(fv.v.__name__, args, kwargs, st, fr)
            if fv.v is None or isinstance(fv.v, PRIMS):
                return self.ip.raise_("TypeError", st)
            return n(Top("call const"), st)
        if t is Wrap:
            if fv.kind == "cm":
                return self.call(fv.fn, args, kwargs, st, fr, node)
            return self.call(fv.fn, args, kwargs, st, fr, node)
        if t is S:
            outs = []
            for v1, s in self.norm(fv, st):
                if isinstance(v1, S):
                    if self.ptype_of(v1, s) in PRIMS:
                        outs.extend(self.ip.raise_("TypeError", s))
                    else:
                        outs.extend(self.user_call(v1, args, s))
                else:
                    outs.extend(self.call(v1, args, kwargs, s, fr, node))
            return outs
        if t is TypeOf:
            outs = []
            for c, s in self.concretize_type(fv, st):
                outs.extend(self.call(c, args, kwargs, s, fr, node))
            return outs
        if t is R:
            o = st.get(fv)
            if o.kind == "inst":
                outs = []
                for m, s, _ in self.find_method(fv, "__call__", st):
                    outs.extend(self.call(m, args, kwargs, s, fr, node) if m is not None else self.ip.raise_("TypeError", s))
                return outs
            if o.kind == "opq":
                h = self.ext.get("O:" + o.name)
                if h is not None:
                    return h(args, kwargs, st, fr, fv)
                return n(st.new(Opq(o.name + "()")), st)
            return self.ip.raise_("TypeError", st)
        if t is Ann:
            return self.call(fv.origin, args, kwargs, st, fr, node)
        st.imp("call of unknown")
        return n(Top("call"), st)

    def user_call(self, v, args, st):
        """call of user-supplied code: any result, or any exception"""
        st.ev = st.ev + (("usercall",),)
        s2 = st.fork()
        return [("n", st.new(Opq("userresult")), st), ("x", self.ip.mkexc("UserError" if False else "Exception", s2), s2)]

    def unknown_call(self, name, args, kwargs, st, fr):
        if name.endswith("()") or True:
            return n(st.new(Opq("ret:" + name)), st)

    def ext_super(self, f, obj, args, kwargs, st, fr):
        if f[0] == "super":
            _, m, name = f
            if name == "__init__":
                if issubclass(m, BaseException) and isinstance(obj, R):
                    st.mut(obj).attrs["args"] = T(args)
                return n(NONE, st)
            if name == "__setattr__" and len(args) == 2:
                k = st.res(args[0])
                if isinstance(k, K):
                    return [("n", NONE, s) for s in self.set_raw(obj, k.v, args[1], st)]
            if name == "__eq__":
                return n(NOTIMPL, st)
            if name == "__str__" or name == "__repr__":
                return n(st.sym((A_STR,), "str"), st)
            if name == "__new__":
                return n(st.new(Inst((self.cval(st.res(args[0])),))), st)
            if name == "__dir__":
                return n(st.new(L([], True)), st)
            return n(st.new(Opq("super." + name)), st)
        h = self.ext.get("xbase:" + f[1])
        if h is not None:
            return h([obj] + list(args), kwargs, st, fr)
        return n(st.new(Opq("xbase." + f[1])), st)

    def instantiate(self, ci, args, kwargs, st, fr):
        if ci.is_enum:
            if not ci.members:
                return n(Top("enum"), st)
            outs = []
            cur = [st]
            for nm, m in ci.members.items():
                nx = []
                for s in cur:
                    a = s.res(args[0])
                    if a == m:
                        outs.append(("n", m, s))
                        continue
                    for b, s2 in self.prim_eq(args[0], s.get(m).attrs["value"], s):
                        if b:
                            outs.append(("n", m, s2))
                        else:
                            nx.append(s2)
                cur = nx
            for s in cur:
                for b, s2 in self.partition(args[0], s, lambda t: t is ci):
                    if b:
                        outs.append(("n", args[0], s2))
                    else:
                        outs.extend(self.ip.raise_("ValueError", s2))
            return outs
        h = self.ext.get("C:" + ci.name)
        if h is not None:
            r = h(ci, args, kwargs, st, fr)
            if r is not None:
                return r
        nw = self.type_lookup(ci, "__new__", st)
        r = st.new(Inst((ci,), {}))
        ini = self.type_lookup(ci, "__init__", st)
        if ini is not None and isinstance(ini[1], Fn) and isinstance(ini[0], ClassInfo) and not (ci.is_dc and self.dc_after(ci, ini[0])):
            outs = []
            st.roots = st.roots + (r.i,)
            for t, v, s in self.ip.call_fn(ini[1], [r] + list(args), kwargs, st, fr):
                s.roots = s.roots[:-1]
                outs.append((t, r if t == "n" else v, s))
            return outs
        if ci.is_dc:
            return self.init_dc(ci, r, args, kwargs, st, fr)
        if issub(ci, BaseException):
            st.mut(r).attrs["args"] = T(args)
            return n(r, st)
        if ini is not None and isinstance(ini[1], Fn):
            outs = []
            for t, v, s in self.ip.call_fn(ini[1], [r] + list(args), kwargs, st, fr):
                outs.append((t, r if t == "n" else v, s))
            return outs
        if (args or kwargs) and not self.has_program_base_unknown(ci) and not isinstance(nw, tuple):
            return self.ip.raise_("TypeError", st)
        return n(r, st)

    def dc_after(self, ci, owner):
        """is a dataclass-generated __init__ more derived than owner's __init__"""
        for m in ci.mro:
            if m is owner:
                return False
            if isinstance(m, ClassInfo) and m.fields is not None and m.is_dc:
                return True
        return False

    def dc_init(self, f, st):
        """does the generated __init__ take this field"""
        d = st.res(f[2]) if f[2] is not None else None
        return not (isinstance(d, R) and st.get(d).kind == "opq" and st.get(d).name == "field" and st.get(d).attrs.get("init", TRUE) == FALSE)

    def init_dc(self, ci, r, args, kwargs, st, fr):
        names = [f[0] for f in ci.fields if self.dc_init(f, st)]
        if len(args) > len(names):
            return self.ip.raise_("TypeError", st)
        vals = dict(zip(names, args))
        for k, v in kwargs.items():
            if k in vals or (k not in names and k != "**"):
                return self.ip.raise_("TypeError", st)
            vals[k] = v
        cur = [("n", NONE, st)]
        o = st.mut(r)
        for nm, ann, dflt, own in ci.fields:
            nx = []
            for t, x, s in cur:
                if t != "n":
                    nx.append((t, x, s))
                    continue
                if nm in vals:
                    s.mut(r).attrs[nm] = vals[nm]
                    nx.append(("n", NONE, s))
                elif dflt is None:
                    if "**" in kwargs:
                        s.mut(r).attrs[nm] = Top("**")
                        nx.append(("n", NONE, s))
                    else:
                        nx.extend(self.ip.raise_("TypeError", s))
                else:
                    d = s.res(dflt)
                    if isinstance(d, R) and s.get(d).kind == "opq" and s.get(d).name == "field":
                        fa = s.get(d).attrs
                        if "default_factory" in fa:
                            for t2, v2, s2 in self.call(fa["default_factory"], [], {}, s, fr):
                                if t2 == "n":
                                    s2.mut(r).attrs[nm] = v2
                                nx.append((t2, v2, s2))
                        elif "default" in fa:
                            s.mut(r).attrs[nm] = fa["default"]
                            nx.append(("n", NONE, s))
                        else:
                            nx.extend(self.ip.raise_("TypeError", s))
                    else:
                        s.mut(r).attrs[nm] = dflt
                        nx.append(("n", NONE, s))
            cur = nx
        outs = []
        for t, x, s in cur:
            if t != "n":
                outs.append((t, x, s))
                continue
            pi = self.type_lookup(ci, "__post_init__", s)
            if pi is not None and isinstance(pi[1], Fn):
                for t2, v2, s2 in self.ip.call_fn(pi[1], [r], {}, s, fr):
                    outs.append((t2, r if t2 == "n" else v2, s2))
            else:
                outs.append(("n", r, s))
        return outs

    # ------------------------------------------------------------ methods of built-in objects
    def method(self, o, name, args, kwargs, st, fr):
        o = st.res(o)
        if isinstance(o, R):
            ob = st.get(o)
            h = getattr(self, f"m_{ob.kind}_{name}", None)
            if h is not None:
                return h(o, args, kwargs, st, fr)
            if ob.kind == "opq":
                h = self.ext.get(f"M:{ob.name}.{name}")
                if h is not None:
                    return h(args, kwargs, st, fr, o)
                return n(st.new(Opq(f"{ob.name}.{name}")), st)
            if ob.kind == "inst":
                return self.inst_builtin(o, name, args, kwargs, st, fr)
            if ob.kind == "list" and name in ("__len__",):
                return n(K(len(ob.xs)), st)
            if ob.kind == "list" and name == "__contains__":
                return self.contains(o, args[0], st, fr)
            if name in ("__repr__", "__str__"):
                return n(st.sym((A_STR,), "str"), st)
            if name == "__eq__":
                return self.eq(o, args[0], st, fr)
            if name == "__iter__":
                return self.iter(o, st, fr)
            if name == "__getitem__":
                return self.getitem(o, args[0], st, fr)
            if name == "__setitem__":
                return self.setitem(o, args[0], args[1], st, fr)
            st.imp(f"method {ob.kind}.{name}")
            return n(Top(name), st)
        if isinstance(o, DV):
            return self.m_dv(o, name, args, kwargs, st, fr)
        if isinstance(o, T):
            if name == "index":
                st.imp("tuple.index")
                return n(st.sym((A_INT,), "i"), st)
            if name == "count":
                return n(st.sym((A_INT,), "i"), st)
            if name == "__contains__":
                return self.contains(o, args[0], st, fr)
            if name == "__len__":
                return n(K(len(o.xs)), st)
            st.imp("tuple." + name)
            return n(Top(name), st)
        if isinstance(o, X):
            h = self.ext.get(f"{o.name}.{name}")
            if h is not None:
                return h(args, kwargs, st, fr)
            if o.name == "os.environ" and name == "get":
                v = st.sym((A_STR, A_INTERP, MISS), "env")
                s2 = st.fork()
                return n(v, st) + n(args[1] if len(args) > 1 else NONE, s2)
            return n(st.new(Opq(f"{o.name}.{name}")), st)
        if isinstance(o, Fn) and name == "__get__":
            return n(BM(o, args[0]) if args and st.res(args[0]) != NONE else o, st)
        if isinstance(o, (K, S)):
            pt = self.ptype_of(o, st)
            if pt is str:
                return self.m_str(o, name, args, kwargs, st, fr)
            if isinstance(o, K) and isinstance(o.v, slice) and name == "indices":
                a = st.res(args[0])
                if isinstance(a, K):
                    return n(self.lift(o.v.indices(a.v)), st)
            if name in ("__eq__", "__ne__"):
                outs = []
                for t, r, s in self.eq(o, args[0], st, fr):
                    if t == "n" and name == "__ne__" and isinstance(s.res(r), K):
                        r = K(not s.res(r).v)
                    outs.append((t, r, s))
                return outs
            if isinstance(o, K) and all(isinstance(st.res(a), K) for a in args) and not kwargs:
                try:
                    r = getattr(o.v, name)(*[st.res(a).v for a in args])
                    if r is None or isinstance(r, (bool, int, float, str, bytes)):
                        return n(K(r), st)
                except Exception as e:
                    if isinstance(o.v, (int, float, bytes, str, bool)):
                        return self.ip.raise_(type(e).__name__, st)
            return n(st.new(Opq(f"{getattr(pt, '__name__', '?')}.{name}")), st)
        if isinstance(o, Top):
            return n(Top(o.why), st)
        st.imp("method " + str(name))
        return n(Top(str(name)), st)

    def inst_builtin(self, o, name, args, kwargs, st, fr):
        if name == "with_traceback":
            return n(o, st)
        if name in ("__str__", "__repr__"):
            return n(st.sym((A_STR,), "str"), st)
        if name == "__hash__":
            return n(st.sym((A_INT,), "hash"), st)
        if name == "__eq__":
            return n(K(st.res(args[0]) == o) if st.res(args[0]) == o else NOTIMPL, st)
        if name == "__setattr__":
            k = st.res(args[0])
            if isinstance(k, K):
                return [("n", NONE, s) for s in self.set_raw(o, k.v, args[1], st)]
        if name == "__init__":
            return n(NONE, st)
        if name in ("add_note",):
            return n(NONE, st)
        if name == "__dir__":
            return n(st.new(L([], True)), st)
        return n(st.new(Opq("inst." + str(name))), st)

    def m_dv(self, o, name, args, kwargs, st, fr):
        r = R(o.i)
        if name in ("items", "keys", "values"):
            return n(st.new(View(name, o)), st)
        if name in ("get", "__getitem__", "pop", "__contains__", "setdefault"):
            k = st.res(args[0])
            if not isinstance(k, K):
                st.imp("dynamic __dict__ key")
                return n(Top("__dict__"), st)
            outs = []
            for v, s in self.inst_attr(r, k.v, st):
                if name == "__contains__":
                    outs.append(("n", K(v is not None), s))
                elif v is not None:
                    if name == "pop":
                        del s.mut(r).attrs[k.v]
                    outs.append(("n", v, s))
                elif name == "setdefault":
                    outs.extend(("n", args[1], s2) for s2 in self.set_raw(r, k.v, args[1], s))
                elif len(args) > 1:
                    outs.append(("n", args[1], s))
                elif name == "get":
                    outs.append(("n", NONE, s))
                else:
                    outs.extend(self.ip.raise_("KeyError", s, k))
            return outs
        if name == "update":
            outs = []
            src = st.res(args[0]) if args else None
            cur = [st]
            pairs = [(k, v) for k, v in kwargs.items()]
            if isinstance(src, R) and st.get(src).kind == "dict":
                d = st.get(src)
                if d.open:
                    st.imp("__dict__.update(open)")
                pairs = [(st.res(k).v, v) for k, v in d.ents if isinstance(st.res(k), K)] + pairs
            elif src is not None:
                st.imp("__dict__.update")
            for k, v in pairs:
                cur = [s2 for s in cur for s2 in self.set_raw(r, k, v, s)]
            return [("n", NONE, s) for s in cur]
        if name == "copy":
            outs = []
            for nm, s in self.inst_all(r, st):
                outs.append(("n", s.new(D([(K(a), s.get(r).attrs[a]) for a in nm])), s))
            return outs
        if name == "clear":
            st.mut(r).attrs = {}
            return n(NONE, st)
        st.imp("__dict__." + name)
        return n(Top(name), st)

    # dict methods
    def m_dict_get(self, o, a, kw, st, fr):
        outs = []
        if self.unhashable(a[0], st):
            return self.ip.raise_("TypeError", st)
        for i, s in self.dict_find(o, a[0], st):
            if i is None:
                outs.append(("n", a[1] if len(a) > 1 else kw.get("default", NONE), s))
            elif i == -1:
                outs.append(("n", Top("open dict"), s))
            else:
                outs.append(("n", s.get(o).ents[i][1], s))
        return outs

    def m_dict_pop(self, o, a, kw, st, fr):
        outs = []
        if self.unhashable(a[0], st):
            return self.ip.raise_("TypeError", st)
        for i, s in self.dict_find(o, a[0], st):
            if i is None:
                if len(a) > 1:
                    outs.append(("n", a[1], s))
                else:
                    outs.extend(self.ip.raise_("KeyError", s))
            elif i == -1:
                outs.append(("n", Top("open dict"), s))
            else:
                v = s.get(o).ents[i][1]
                del s.mut(o).ents[i]
                outs.append(("n", v, s))
        return outs

    def m_dict_popitem(self, o, a, kw, st, fr):
        if not st.get(o).ents:
            return self.ip.raise_("KeyError", st)
        k, v = st.mut(o).ents.pop()
        return n(T((k, v)), st)

    def m_dict_setdefault(self, o, a, kw, st, fr):
        outs = []
        for i, s in self.dict_find(o, a[0], st):
            if i is None:
                d = a[1] if len(a) > 1 else NONE
                s.mut(o).ents.append((s.res(a[0]), d))
                outs.append(("n", d, s))
            elif i == -1:
                outs.append(("n", Top("open dict"), s))
            else:
                outs.append(("n", s.get(o).ents[i][1], s))
        return outs

    def m_dict_items(self, o, a, kw, st, fr):
        return n(st.new(View("items", o)), st)

    def m_dict_keys(self, o, a, kw, st, fr):
        return n(st.new(View("keys", o)), st)

    def m_dict_values(self, o, a, kw, st, fr):
        return n(st.new(View("values", o)), st)

    def m_dict_copy(self, o, a, kw, st, fr):
        return n(st.new(st.get(o).copy()), st)

    def m_dict_clear(self, o, a, kw, st, fr):
        ob = st.mut(o)
        ob.ents = []
        ob.open = False
        return n(NONE, st)

    def m_dict_update(self, o, a, kw, st, fr):
        outs = self.dict_update(o, a[0], st, fr) if a else n(NONE, st)
        res = []
        for t, v, s in outs:
            if t != "n":
                res.append((t, v, s))
                continue
            cur = [s]
            for k, x in kw.items():
                cur = [q for p in cur for q in self.dict_set(o, K(k), x, p)]
            res.extend(("n", NONE, p) for p in cur)
        return res

    def m_dict___contains__(self, o, a, kw, st, fr):
        return self.contains(o, a[0], st, fr)

    def m_dict___len__(self, o, a, kw, st, fr):
        return self.ext["builtins.len"]([o], {}, st, fr)

    def m_dict___delitem__(self, o, a, kw, st, fr):
        return self.delitem(o, a[0], st, fr)

    # list methods
    def m_list_append(self, o, a, kw, st, fr):
        st.mut(o).xs.append(a[0])
        return n(NONE, st)

    def m_list_extend(self, o, a, kw, st, fr):
        outs = []
        for t, xs, s in self.to_list(a[0], st, fr):
            if t != "n":
                outs.append((t, xs, s))
            else:
                s.mut(o).xs.extend(xs)
                src = s.res(a[0])
                if isinstance(src, R) and s.get(src).kind == "list" and s.get(src).open:
                    s.mut(o).open = True
                outs.append(("n", NONE, s))
        return outs

    def m_list_insert(self, o, a, kw, st, fr):
        outs = []
        for k, s in self.norm(a[0], st):
            if isinstance(k, K) and isinstance(k.v, int):
                s.mut(o).xs.insert(k.v, a[1])
                outs.append(("n", NONE, s))
            elif isinstance(k, S) and self.ptype_of(k, s) in (int, bool):
                for c, s2 in self.int_cases(k, len(s.get(o).xs), s):
                    s2.mut(o).xs.insert(c, a[1])
                    outs.append(("n", NONE, s2))
            elif isinstance(k, Top):
                s.imp("insert at unknown")
                s.mut(o).xs.append(a[1])
                outs.append(("n", NONE, s))
            else:
                outs.extend(self.ip.raise_("TypeError", s))
        return outs

    def m_list_pop(self, o, a, kw, st, fr):
        if not a:
            xs = st.get(o).xs
            if not xs:
                return self.ip.raise_("IndexError", st)
            return n(st.mut(o).xs.pop(), st)
        outs = []
        for t, v, s in self.seq_get(st.get(o).xs, a[0], st, False, True):
            if t != "n":
                outs.append((t, v, s))
                continue
            for t2, _, s2 in self.delitem(o, a[0], s, fr):
                outs.append((t2, v if t2 == "n" else _, s2))
        return outs

    def m_list_remove(self, o, a, kw, st, fr):
        outs = []
        cur = [st]
        for i, y in enumerate(list(st.get(o).xs)):
            nx = []
            for s in cur:
                for t, r, s2 in self.eq(y, a[0], s, fr):
                    if t != "n":
                        outs.append((t, r, s2))
                        continue
                    for t3, b, s3 in self.truth(r, s2, fr):
                        if t3 == "n" and b:
                            del s3.mut(o).xs[i]
                            outs.append(("n", NONE, s3))
                        elif t3 == "n":
                            nx.append(s3)
                        else:
                            outs.append((t3, b, s3))
            cur = nx
        for s in cur:
            outs.extend(self.ip.raise_("ValueError", s))
        return outs

    def m_list_clear(self, o, a, kw, st, fr):
        st.mut(o).xs.clear()
        return n(NONE, st)

    def m_list_reverse(self, o, a, kw, st, fr):
        st.mut(o).xs.reverse()
        return n(NONE, st)

    def m_list_copy(self, o, a, kw, st, fr):
        return n(st.new(st.get(o).copy()), st)

    def m_list_index(self, o, a, kw, st, fr):
        outs = []
        cur = [st]
        for i, y in enumerate(list(st.get(o).xs)):
            nx = []
            for s in cur:
                for t, r, s2 in self.eq(y, a[0], s, fr):
                    if t != "n":
                        outs.append((t, r, s2))
                        continue
                    for t3, b, s3 in self.truth(r, s2, fr):
                        if t3 == "n" and b:
                            outs.append(("n", K(i), s3))
                        elif t3 == "n":
                            nx.append(s3)
            cur = nx
        for s in cur:
            outs.extend(self.ip.raise_("ValueError", s))
        return outs

    def m_list_count(self, o, a, kw, st, fr):
        return n(st.sym((A_INT,), "count"), st)

    def m_list_sort(self, o, a, kw, st, fr):
        cur = [("n", NONE, st)]
        kf = kw.get("key")
        if kf is not None and st.res(kf) != NONE:
            for x in list(st.get(o).xs):
                nx = []
                for t, v, s in cur:
                    nx.extend(self.call(kf, [x], {}, s, fr) if t == "n" else [(t, v, s)])
                cur = nx
        outs = []
        for t, v, s in cur:
            if t != "n":
                outs.append((t, v, s))
                continue
            if len(s.get(o).xs) > 1:
                s2 = s.fork()
                s2.mut(o).xs.reverse()
                outs.append(("n", NONE, s2))
                outs.extend(self.ip.raise_("TypeError", s.fork()))
            outs.append(("n", NONE, s))
        return outs

    # set methods
    def m_set_add(self, o, a, kw, st, fr):
        if self.unhashable(a[0], st):
            return self.ip.raise_("TypeError", st)
        return [("n", NONE, s) for s in self.set_add(o, a[0], st)]

    def m_set_remove(self, o, a, kw, st, fr, err=True):
        outs = []
        cur = [st]
        for i, y in enumerate(list(st.get(o).xs)):
            nx = []
            for s in cur:
                for b, s2 in self.prim_eq(y, a[0], s):
                    if b:
                        del s2.mut(o).xs[i]
                        outs.append(("n", NONE, s2))
                    else:
                        nx.append(s2)
            cur = nx
        for s in cur:
            outs.extend(self.ip.raise_("KeyError", s) if err and not s.get(o).open else n(NONE, s))
        return outs

    def m_set_discard(self, o, a, kw, st, fr):
        return self.m_set_remove(o, a, kw, st, fr, False)

    def m_set_copy(self, o, a, kw, st, fr):
        return n(st.new(st.get(o).copy()), st)

    def m_set_update(self, o, a, kw, st, fr):
        outs = []
        for t, xs, s in self.to_list(a[0], st, fr):
            if t != "n":
                outs.append((t, xs, s))
                continue
            cur = [s]
            for x in xs:
                cur = [q for p in cur for q in self.set_add(o, x, p)]
            outs.extend(("n", NONE, p) for p in cur)
        return outs

    def m_set_union(self, o, a, kw, st, fr):
        return self.set_op("or", o, a[0], st, fr)

    def m_set_intersection(self, o, a, kw, st, fr):
        return self.set_op("and", o, a[0], st, fr)

    def m_set_difference(self, o, a, kw, st, fr):
        return self.set_op("sub", o, a[0], st, fr)

    def m_iter___next__(self, o, a, kw, st, fr):
        outs = []
        for t, v, s in self.next(o, st, fr):
            outs.extend(self.ip.raise_("StopIteration", s) if t == "stop" else [(t, v, s)])
        return outs

    def m_iter___iter__(self, o, a, kw, st, fr):
        return n(o, st)

    # strings
    def m_str(self, o, name, args, kwargs, st, fr):
        outs = []
        if isinstance(o, K) and not kwargs:
            conc = [st.res(a) for a in args]
            if name == "join" and conc:
                for t, xs, s in self.to_list(conc[0], st, fr):
                    if t != "n":
                        outs.append((t, xs, s))
                        continue
                    xs = [s.res(x) for x in xs]
                    if all(isinstance(x, K) and isinstance(x.v, str) for x in xs):
                        outs.append(("n", K(o.v.join(x.v for x in xs)), s))
                    else:
                        outs.append(("n", s.sym((A_STR,), "join"), s))
                return outs
            if all(isinstance(a, K) or (isinstance(a, T) and all(isinstance(x, K) for x in a.xs)) for a in conc):
                try:
                    av = [a.v if isinstance(a, K) else tuple(x.v for x in a.xs) for a in conc]
                    r = getattr(o.v, name)(*av)
                except Exception as e:
                    return self.ip.raise_(type(e).__name__, st)
                if isinstance(r, list):
                    return n(st.new(L([K(x) for x in r])), st)
                if isinstance(r, tuple):
                    return n(self.lift(r), st)
                if isinstance(r, (str, bool, int, bytes)):
                    return n(K(r), st)
        inter = isinstance(o, S) and any(isinstance(e, Atom) and e.name in ("INTERP", "ANYSTR") for e in st.dom(o))
        dom = (A_STR, A_INTERP, MISS) if inter else (A_STR,)
        if name in ("startswith", "endswith", "isidentifier", "isdigit", "isalpha", "isalnum", "isspace", "isupper", "islower", "isnumeric", "isdecimal"):
            return self.fork_fact_v(("strp", name, o) + tuple(st.res(a) for a in args), st)
        if name in ("split", "rsplit", "splitlines"):
            key = ("split", o) + tuple(st.res(a) for a in args)
            return n(st.new(L([st.sym(dom, "piece")], True)), st)
        if name in ("partition", "rpartition"):
            return n(T([st.sym(dom, "piece"), st.sym((A_STR,), "sep"), st.sym(dom, "piece")]), st)
        if name in ("find", "index", "rfind", "rindex", "count", "__len__", "__hash__"):
            v = st.sym((A_INT,), "pos")
            return n(v, st)
        if name == "encode":
            return n(st.sym((A_BYTES,), "bytes"), st)
        if name in ("__eq__", "__ne__"):
            for t, r, s in self.eq(o, args[0], st, fr):
                if t == "n" and name == "__ne__":
                    outs.extend((t2, K(not b), s2) for t2, b, s2 in self.truth(r, s, fr))
                else:
                    outs.append((t, r, s))
            return outs
        if name == "__contains__":
            return self.contains(o, args[0], st, fr)
        if name in ("strip", "lstrip", "rstrip", "lower", "upper", "replace", "format", "title", "capitalize", "join", "removeprefix", "removesuffix", "expandtabs", "translate", "zfill", "ljust", "rjust", "center", "swapcase", "__str__", "format_map", "casefold"):
            key = ("strf", name, o) + tuple(st.res(a) for a in args)
            v = st.facts.get(key)
            if v is None:
                v = st.sym(dom, name)
                st.facts[key] = v
            return n(v, st)
        st.imp("str." + name)
        return n(Top("str." + name), st)
