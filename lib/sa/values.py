"""Abstract values, heap objects and abstract states.

An abstract value is one of
  K(v)      a constant known to the analysis (None, literals, stdlib classes / functions by identity)
  S(i)      an unknown value; its finite abstract domain lives in the state (see State.syms)
  R(i)      a reference to an abstract heap object
  T(xs)     a tuple of abstract values
  Cls/Fn/BM/...  program classes, functions, bound methods
  X(n)      an opaque external thing, known by name only
  Ann(o,a)  a typing annotation  o[a...]
  TypeOf(v) type(v) for a v whose class is not decided yet
  Top       nothing is known (every path that branches on Top is imprecise: no alarm is raised on it)
"""
import itertools


class V:
    __slots__ = ()


class K(V):
    __slots__ = ("v", "_h")

    def __init__(self, v):
        self.v = v
        try:
            self._h = hash((type(v), v))
        except TypeError:
            self._h = id(v)

    def __eq__(self, o):
        if not isinstance(o, K) or self._h != o._h or type(self.v) is not type(o.v):
            return False
        if self.v is o.v:
            return True
        try:
            return self.v == o.v
        except Exception:
            return False

    def __hash__(self):
        return self._h

    def __repr__(self):
        return f"K({self.v!r})"


class S(V):
    __slots__ = ("i",)

    def __init__(self, i):
        self.i = i

    def __eq__(self, o):
        return isinstance(o, S) and o.i == self.i

    def __hash__(self):
        return hash(("S", self.i))

    def __repr__(self):
        return f"S{self.i}"


class R(V):
    __slots__ = ("i",)

    def __init__(self, i):
        self.i = i

    def __eq__(self, o):
        return isinstance(o, R) and o.i == self.i

    def __hash__(self):
        return hash(("R", self.i))

    def __repr__(self):
        return f"R{self.i}"


class T(V):
    __slots__ = ("xs",)

    def __init__(self, xs):
        self.xs = tuple(xs)

    def __eq__(self, o):
        return isinstance(o, T) and o.xs == self.xs

    def __hash__(self):
        return hash(("T", self.xs))

    def __repr__(self):
        return f"T{self.xs!r}"


class Top(V):
    __slots__ = ("why",)

    def __init__(self, why=""):
        self.why = why

    def __eq__(self, o):
        return isinstance(o, Top)

    def __hash__(self):
        return 7

    def __repr__(self):
        return f"Top({self.why})"


class _Struct(V):
    """value with structural equality over its slots"""

    __slots__ = ()

    def _key(self):
        return tuple(getattr(self, s) for s in self.__slots__)

    def __eq__(self, o):
        return type(o) is type(self) and o._key() == self._key()

    def __hash__(self):
        return hash((type(self).__name__, self._key()))

    def __repr__(self):
        return f"{type(self).__name__}{self._key()!r}"


class X(_Struct):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class Ann(_Struct):
    """typing annotation: origin is K(real class)/K(typing.Union)/Cls; args tuple of V"""

    __slots__ = ("origin", "args")

    def __init__(self, origin, args):
        self.origin = origin
        self.args = tuple(args)


class Cls(_Struct):
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __repr__(self):
        return f"Cls({self.c.name})"


class Fn(_Struct):
    __slots__ = ("f", "env", "defaults", "kwdefaults")

    def __init__(self, f, env, defaults, kwdefaults):
        self.f = f
        self.env = env
        self.defaults = defaults
        self.kwdefaults = kwdefaults

    def __repr__(self):
        return f"Fn({self.f.qual})"


class BM(_Struct):
    """bound method; fn is Fn or a builtin-method name (str)"""

    __slots__ = ("fn", "self")

    def __init__(self, fn, self_):
        self.fn = fn
        self.self = self_


class Wrap(_Struct):
    """descriptor wrappers: kind in static, classm, prop, cm, abstract"""

    __slots__ = ("kind", "fn", "extra")

    def __init__(self, kind, fn, extra=None):
        self.kind = kind
        self.fn = fn
        self.extra = extra


class Mod(_Struct):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class TypeOf(_Struct):
    __slots__ = ("of",)

    def __init__(self, of):
        self.of = of


class Sup(_Struct):
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class DV(_Struct):
    """the __dict__ of an instance, as a live view"""

    __slots__ = ("i",)

    def __init__(self, i):
        self.i = i


NONE = K(None)
TRUE = K(True)
FALSE = K(False)
NOTIMPL = K(NotImplemented)


# ---------------------------------------------------------------- heap objects
class Inst:
    """instance of a program class or a modelled real class. cls: tuple of candidate classes."""

    __slots__ = ("cls", "attrs", "schema")
    kind = "inst"

    def __init__(self, cls, attrs=None, schema=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.schema = schema

    def copy(self):
        return Inst(self.cls, dict(self.attrs), self.schema)


class D:
    __slots__ = ("ents", "open", "ptype", "factory")
    kind = "dict"

    def __init__(self, ents=None, open_=False, ptype=dict, factory=None):
        self.ents = ents if ents is not None else []
        self.open = open_
        self.ptype = ptype
        self.factory = factory

    def copy(self):
        return D(list(self.ents), self.open, self.ptype, self.factory)


class L:
    __slots__ = ("xs", "open")
    kind = "list"

    def __init__(self, xs=None, open_=False):
        self.xs = xs if xs is not None else []
        self.open = open_

    def copy(self):
        return L(list(self.xs), self.open)


class Set_:
    __slots__ = ("xs", "open")
    kind = "set"

    def __init__(self, xs=None, open_=False):
        self.xs = xs if xs is not None else []
        self.open = open_

    def copy(self):
        return Set_(list(self.xs), self.open)


class Env:
    __slots__ = ("vars", "parent", "skip")
    kind = "env"

    def __init__(self, vars_=None, parent=None):
        self.vars = vars_ if vars_ is not None else {}
        self.parent = parent
        self.skip = False

    def copy(self):
        e = Env(dict(self.vars), self.parent)
        return e


class Iter:
    """iterator over a closed sequence of values (snapshot) or an unknown one"""

    __slots__ = ("xs", "pos", "open", "src")
    kind = "iter"

    def __init__(self, xs, pos=0, open_=False, src=None):
        self.xs = xs
        self.pos = pos
        self.open = open_
        self.src = src

    def copy(self):
        return Iter(self.xs, self.pos, self.open, self.src)


class Gen:
    """suspended generator call: function + its bound environment"""

    __slots__ = ("fn", "env", "cm")
    kind = "gen"

    def __init__(self, fn, env, cm=False):
        self.fn = fn
        self.env = env
        self.cm = cm

    def copy(self):
        return Gen(self.fn, self.env, self.cm)


class View:
    """dict.keys()/values()/items() live views"""

    __slots__ = ("what", "of")
    kind = "view"

    def __init__(self, what, of):
        self.what = what
        self.of = of

    def copy(self):
        return View(self.what, self.of)


class Opq:
    """opaque external object (file handle, regex match, ...)"""

    __slots__ = ("name", "attrs")
    kind = "opq"

    def __init__(self, name, attrs=None):
        self.name = name
        self.attrs = attrs if attrs is not None else {}

    def copy(self):
        return Opq(self.name, dict(self.attrs))


_ids = itertools.count(1)
SITE = [None]  # frame being interpreted, for reports


def newid():
    return next(_ids)


LINKS = {}  # content symbol of a mapping <-> symbol of its object type: a special content has no object type


class State:
    __slots__ = ("heap", "own", "syms", "bind", "facts", "init", "trace", "imprec", "exc", "roots", "ev", "pend", "scn", "frz")

    def __init__(self):
        self.heap = {}
        self.own = set()
        self.syms = {}
        self.bind = {}
        self.facts = {}
        self.init = {}
        self.trace = None
        self.imprec = ()
        self.exc = ()
        self.roots = ()
        self.ev = ()
        self.pend = None
        self.scn = None
        self.frz = None

    def fork(self):
        s = State.__new__(State)
        s.heap = dict(self.heap)
        self.own = set()
        s.own = set()
        s.syms = dict(self.syms)
        s.bind = dict(self.bind)
        s.facts = dict(self.facts)
        s.init = dict(self.init)
        s.trace = self.trace
        s.imprec = self.imprec
        s.exc = self.exc
        s.roots = self.roots
        s.ev = self.ev
        s.pend = self.pend
        s.scn = self.scn
        s.frz = self.frz
        return s

    def new(self, obj):
        i = next(_ids)
        self.heap[i] = obj
        self.own.add(i)
        return R(i)

    def get(self, r):
        return self.heap[r.i]

    def mut(self, r, what=None):
        i = r.i
        if i in self.init:
            fr = SITE[0]
            if fr is not None:
                self.trace = (self.trace, ("write", i, fr.file, fr.line, what))
        if i in self.own:
            return self.heap[i]
        o = self.heap[i].copy()
        self.heap[i] = o
        self.own.add(i)
        return o

    def new_init(self, obj):
        """a pre-existing object: remember its initial content"""
        r = self.new(obj)
        self.init[r.i] = obj.copy()
        return r

    def sym(self, dom, name):
        i = next(_ids)
        self.syms[i] = (tuple(dom), name)
        return S(i)

    def note(self, txt):
        self.trace = (self.trace, txt)

    def imp(self, why):
        if why not in self.imprec:
            self.imprec = self.imprec + (why,)

    def res(self, v):
        """follow symbol bindings"""
        while isinstance(v, S):
            b = self.bind.get(v.i)
            if b is None:
                return v
            v = b
        return v

    def dom(self, s):
        return self.syms[s.i][0]

    def linked(self, i):
        """a decision on the content of a mapping decides its object type, and the other way round"""
        j, kind, orig = LINKS[i]
        b = self.res(S(i))
        if isinstance(b, S) and b.i != i:
            return
        dom = self.syms[i][0] if isinstance(b, S) else (b,)
        if kind == "content":
            if all(isinstance(e, R) for e in dom):
                self.bind[j] = orig
            elif not any(isinstance(e, R) for e in dom):
                self.bind[j] = K(None)
            return
        if len(dom) != 1 or isinstance(self.bind.get(j), V):
            return
        d, nm = self.syms[j]
        special = dom[0] == K(None)
        d = tuple(e for e in d if isinstance(e, R) != special)
        self.syms[j] = (d, nm)
        if len(d) == 1 and (isinstance(d[0], R) or isinstance(d[0], K)):
            self.bind[j] = d[0]
