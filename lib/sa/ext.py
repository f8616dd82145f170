"""Transfer functions for built-in and external callables, by name."""
import ast
import enum
import re
import sys
import typing

from .interp import A_ANYSTR, A_BYTES, A_FLOAT, A_INT, A_INTERP, A_STR, MISS, Atom, ClassInfo, Frame
from .values import *  # noqa


def n(v, st):
    return [("n", v, st)]


def lift(v):
    if isinstance(v, tuple):
        return T([lift(x) for x in v])
    return K(v)


def idval(v):
    if isinstance(v, R):
        return X(f"id:{v.i}")
    return X(f"id:{v!r}")


def install(m):
    ip = m.ip
    E = m.ext

    def reg(*names):
        def deco(f):
            for nm in names:
                E[nm] = f
            return f

        return deco

    def const(v):
        return lambda a, kw, st, fr: n(v, st)

    def fresh(dom, name):
        return lambda a, kw, st, fr: n(st.sym(dom, name), st)

    # ------------------------------------------------------------ builtins
    @reg("builtins.len")
    def _len(a, kw, st, fr):
        outs = []
        for v, s in m.norm(a[0], st):
            if isinstance(v, T):
                outs.append(("n", K(len(v.xs)), s))
            elif isinstance(v, K):
                try:
                    outs.append(("n", K(len(v.v)), s))
                except TypeError:
                    outs.extend(ip.raise_("TypeError", s))
            elif isinstance(v, S):
                if m.ptype_of(v, s) in (str, bytes):
                    key = ("len", v)
                    if key not in s.facts:
                        s.facts[key] = s.sym((A_INT,), "len")
                    outs.append(("n", s.facts[key], s))
                else:
                    outs.extend(ip.raise_("TypeError", s))
            elif isinstance(v, R):
                o = s.get(v)
                if o.kind in ("list", "set"):
                    outs.append(("n", K(len(o.xs)) if not o.open else s.sym((A_INT,), "len"), s))
                elif o.kind == "dict":
                    outs.append(("n", K(len(o.ents)) if not o.open else s.sym((A_INT,), "len"), s))
                elif o.kind == "view":
                    if isinstance(o.of, DV):
                        outs.extend(("n", K(len(nm)), s2) for nm, s2 in m.inst_all(R(o.of.i), s))
                    else:
                        outs.extend(_len([o.of], {}, s, fr))
                elif o.kind == "inst":
                    for fv, s2, _ in m.find_method(v, "__len__", s):
                        if fv is None:
                            outs.extend(ip.raise_("TypeError", s2))
                        else:
                            outs.extend(ip.call(fv, [], {}, s2, fr))
                elif o.kind == "opq":
                    outs.append(("n", s.sym((A_INT,), "len"), s))
                else:
                    outs.extend(ip.raise_("TypeError", s))
            elif isinstance(v, DV):
                outs.extend(("n", K(len(nm)), s2) for nm, s2 in m.inst_all(R(v.i), s))
            elif isinstance(v, Cls) and v.c.is_enum:
                outs.append(("n", K(len(v.c.members)), s))
            else:
                s.imp("len of unknown")
                outs.append(("n", s.sym((A_INT,), "len"), s))
        return outs

    @reg("builtins.isinstance")
    def _isinstance(a, kw, st, fr):
        return [("n", K(b), s) for b, s in m.isinstance_(a[0], a[1], st)]

    @reg("builtins.issubclass")
    def _issubclass(a, kw, st, fr):
        outs = []
        for v, s in m.concretize_type(a[0], st):
            outs.extend(m.issubclass_(v, a[1], s, fr))
        return outs

    def attrname(v, st):
        v = st.res(v)
        return v.v if isinstance(v, K) and isinstance(v.v, str) else None

    def name_cases(k, st):
        """attribute-name argument -> (name, state, may be used as a name)"""
        for k1, s in m.norm(k, st):
            ok = True
            if isinstance(k1, K):
                ok = isinstance(k1.v, str)
            elif isinstance(k1, S):
                ok = m.ptype_of(k1, s) in (str, None)
            elif isinstance(k1, (T, Cls)) or isinstance(k1, R):
                ok = False
            yield k1, s, ok

    @reg("builtins.getattr")
    def _getattr(a, kw, st, fr):
        outs = []
        for k, s, ok in name_cases(a[1], st):
            if not ok:
                outs.extend(ip.raise_("TypeError", s, K("attribute name must be string")))
                continue
            nm = attrname(k, s)
            if nm is None:
                r = _dyn_getattr(a[0], k, s, fr)
            else:
                r = m.getattr(a[0], nm, s, fr)
            for t, v, s2 in r:
                if t == "x" and len(a) > 2:
                    for b, s3 in m.isinstance_(v, K(AttributeError), s2):
                        outs.append(("n", a[2], s3) if b else ("x", v, s3))
                else:
                    outs.append((t, v, s2))
        return outs

    def _dyn_getattr(o, k, st, fr):
        """attribute whose name is an unknown string: program __getattr__ when there is one"""
        outs = []
        for o1, s in m.norm(o, st):
            if isinstance(o1, R) and s.get(o1).kind == "inst" and isinstance(k, S):
                c0 = s.get(o1).cls[0]
                g = m.type_lookup(c0, "__getattr__", s)
                if g is not None and isinstance(g[1], Fn):
                    outs.extend(ip.call(BM(g[1], o1), [k], {}, s, fr))
                    continue
                outs.extend(m.attr_error(o1, "?", s))
                continue
            if isinstance(o1, Cls) and o1.c.is_enum:
                for nm, mem in o1.c.members.items():
                    for b, s2 in m.prim_eq(k, K(nm), s.fork()):
                        if b:
                            outs.append(("n", mem, s2))
                outs.extend(m.attr_error(o1, "?", s))
                continue
            s.imp("getattr with unknown name")
            outs.append(("n", Top("getattr"), s))
        return outs

    @reg("builtins.hasattr")
    def _hasattr(a, kw, st, fr):
        outs = []
        nm = attrname(a[1], st)
        if nm is None:
            st.imp("hasattr with unknown name")
            return n(TRUE, st) + n(FALSE, st.fork())
        v0 = st.res(a[0])
        if isinstance(v0, X) and v0.name in sys.modules:
            return n(K(hasattr(sys.modules[v0.name], nm)), st)
        if isinstance(v0, X) and not v0.name.startswith("id"):
            return [("n", K(b), s) for _, b, s in m.fork_fact(("hasattr", v0, nm), st)]
        if isinstance(v0, Top):
            st.imp("hasattr of unknown")
            return n(TRUE, st) + n(FALSE, st.fork())
        for t, v, s2 in m.getattr(a[0], nm, st, fr):
            if t == "x":
                for b, s3 in m.isinstance_(v, K(AttributeError), s2):
                    outs.append(("n", FALSE, s3) if b else ("x", v, s3))
            else:
                outs.append(("n", TRUE, s2))
        return outs

    @reg("builtins.setattr")
    def _setattr(a, kw, st, fr):
        outs = []
        for k, s, ok in name_cases(a[1], st):
            if ok:
                outs.extend(_setattr1([a[0], k] + list(a[2:]), kw, s, fr))
            else:
                outs.extend(ip.raise_("TypeError", s, K("attribute name must be string")))
        return outs

    def _setattr1(a, kw, st, fr):
        nm = attrname(a[1], st)
        if nm is None:
            outs = []
            for o1, s in m.norm(a[0], st):
                if isinstance(o1, R) and s.get(o1).kind == "inst":
                    for fv, s2, _ in m.find_method(o1, "__setattr__", s):
                        if fv is not None:
                            outs.extend(ip.call(fv, [a[1], a[2]], {}, s2, fr))
                        else:
                            s2.imp("setattr with unknown name")
                            outs.append(("n", NONE, s2))
                else:
                    s.imp("setattr with unknown name")
                    outs.append(("n", NONE, s))
            return outs
        return m.setattr(a[0], nm, a[2], st, fr)

    @reg("builtins.delattr")
    def _delattr(a, kw, st, fr):
        outs = []
        for k, s, ok in name_cases(a[1], st):
            if ok:
                outs.extend(_delattr1([a[0], k] + list(a[2:]), kw, s, fr))
            else:
                outs.extend(ip.raise_("TypeError", s, K("attribute name must be string")))
        return outs

    def _delattr1(a, kw, st, fr):
        nm = attrname(a[1], st)
        if nm is None:
            outs = []
            for o1, s in m.norm(a[0], st):
                if isinstance(o1, R) and s.get(o1).kind == "inst":
                    for fv, s2, _ in m.find_method(o1, "__delattr__", s):
                        if fv is not None:
                            outs.extend(ip.call(fv, [a[1]], {}, s2, fr))
                        else:
                            s2.imp("delattr with unknown name")
                            outs.append(("n", NONE, s2))
                else:
                    s.imp("delattr with unknown name")
                    outs.append(("n", NONE, s))
            return outs
        return m.delattr(a[0], nm, st, fr)

    @reg("builtins.callable")
    def _callable(a, kw, st, fr):
        outs = []
        for v, s in m.norm(a[0], st):
            if isinstance(v, (Fn, BM, Cls, Wrap, TypeOf, Ann)):
                b = True
            elif isinstance(v, K):
                b = callable(v.v)
            elif isinstance(v, R) and s.get(v).kind == "inst":
                for fv, s2, _ in m.find_method(v, "__call__", s):
                    outs.append(("n", K(fv is not None), s2))
                continue
            elif isinstance(v, R) and s.get(v).kind == "opq":
                outs.extend(m.fork_fact_v(("callable", v), s))
                continue
            elif isinstance(v, X):
                b = not v.name.startswith("id")
            elif isinstance(v, Top):
                s.imp("callable of unknown")
                outs.append(("n", TRUE, s))
                outs.append(("n", FALSE, s.fork()))
                continue
            else:
                b = False
            outs.append(("n", K(b), s))
        return outs

    @reg("builtins.iter")
    def _iter(a, kw, st, fr):
        return m.iter(a[0], st, fr)

    @reg("builtins.next")
    def _next(a, kw, st, fr):
        outs = []
        for it, s in m.norm(a[0], st):
            for t, v, s2 in m.next(it, s, fr):
                if t == "stop":
                    outs.extend(n(a[1], s2) if len(a) > 1 else ip.raise_("StopIteration", s2))
                else:
                    outs.append((t, v, s2))
        return outs

    @reg("builtins.id")
    def _id(a, kw, st, fr):
        return [("n", idval(v), s) for v, s in m.norm(a[0], st)]

    @reg("builtins.hash")
    def _hash(a, kw, st, fr):
        outs = []
        for v, s in m.norm(a[0], st):
            if m.unhashable(v, s):
                outs.extend(ip.raise_("TypeError", s))
                continue
            if isinstance(v, R) and s.get(v).kind == "inst":
                for fv, s2, cs in m.find_method(v, "__hash__", s):
                    if isinstance(fv, BM) and isinstance(fv.fn, Fn):
                        outs.extend(ip.call(fv, [], {}, s2, fr))
                    else:
                        outs.append(("n", hsym(v, s2), s2))
                continue
            if isinstance(v, T):
                cur = [("n", NONE, s)]
                for x in v.xs:
                    nx = []
                    for t, r, s2 in cur:
                        nx.extend(_hash([x], {}, s2, fr) if t == "n" else [(t, r, s2)])
                    cur = nx
                outs.extend((t, hsym(v, s2) if t == "n" else r, s2) for t, r, s2 in cur)
                continue
            outs.append(("n", hsym(v, s), s))
        return outs

    def hsym(v, s):
        key = ("hash", v)
        if key not in s.facts:
            s.facts[key] = s.sym((A_INT,), "hash")
        return s.facts[key]

    def strlike(dunders):
        def f(a, kw, st, fr):
            if not a:
                return n(K(""), st)
            outs = []
            for v, s in m.norm(a[0], st):
                if isinstance(v, K):
                    if isinstance(v.v, (str, int, float, bool, type(None), bytes)):
                        try:
                            outs.append(("n", K(str(v.v) if dunders[0] == "__str__" else repr(v.v)), s))
                        except Exception:
                            outs.append(("n", s.sym((A_STR,), "str"), s))
                        continue
                    outs.append(("n", s.sym((A_STR,), "str"), s))
                elif isinstance(v, S) and m.ptype_of(v, s) is str and dunders[0] == "__str__":
                    outs.append(("n", v, s))
                elif isinstance(v, S):
                    key = ("str", dunders[0], v)
                    if key not in s.facts:
                        s.facts[key] = s.sym((A_STR,), "str")
                    outs.append(("n", s.facts[key], s))
                elif isinstance(v, R) and s.get(v).kind == "inst":
                    c0 = s.get(v).cls[0]
                    fn = None
                    for d in dunders:
                        g = m.type_lookup(c0, d, s)
                        if g is not None:
                            fn = g[1]
                            break
                    if isinstance(fn, Fn):
                        outs.extend(ip.call(BM(fn, v), [], {}, s, fr))
                    else:
                        key = ("str", v)
                        if key not in s.facts:
                            s.facts[key] = s.sym((A_STR,), "str")
                        outs.append(("n", s.facts[key], s))
                elif isinstance(v, R) and s.get(v).kind in ("list", "dict", "set"):
                    # repr of elements
                    o = s.get(v)
                    xs = o.xs if o.kind != "dict" else [y for e in o.ents for y in e]
                    cur = [("n", NONE, s)]
                    for x in list(xs):
                        nx = []
                        for t, r, s2 in cur:
                            nx.extend(E["builtins.repr"]([x], {}, s2, fr) if t == "n" else [(t, r, s2)])
                        cur = nx
                    outs.extend((t, s2.sym((A_STR,), "str") if t == "n" else r, s2) for t, r, s2 in cur)
                else:
                    outs.append(("n", s.sym((A_STR,), "str"), s))
            return outs

        return f

    E["T:str"] = strlike(("__str__", "__repr__"))
    E["builtins.repr"] = strlike(("__repr__",))
    E["builtins.ascii"] = E["builtins.repr"]
    E["builtins.format"] = E["T:str"]

    @reg("builtins.sorted")
    def _sorted(a, kw, st, fr):
        outs = []
        for t, xs, s in m.to_list(a[0], st, fr):
            if t != "n":
                outs.append((t, xs, s))
            else:
                src = s.res(a[0])
                op = isinstance(src, R) and getattr(s.get(src), "open", False) is True
                outs.append(("n", s.new(L(list(xs), op)), s))
        return outs

    def anyall(stop):
        def f(a, kw, st, fr):
            def body(x, s):
                r = []
                for t, b, s2 in m.truth(x, s, fr):
                    if t != "n":
                        r.append((t, b, s2))
                    elif b == stop:
                        r.append(("b", NONE, s2))
                    else:
                        r.append(("n", NONE, s2))
                return r

            outs = []
            for t, v, s in ip.iterate(a[0], st, fr, body):
                if t == "b":
                    outs.append(("n", K(stop), s))
                elif t == "n":
                    outs.append(("n", K(not stop), s))
                else:
                    outs.append((t, v, s))
            return outs

        return f

    E["builtins.any"] = anyall(True)
    E["builtins.all"] = anyall(False)

    @reg("builtins.map", "T:map")
    def _map(a, kw, st, fr):
        if len(a) != 2:
            st.imp("map")
            return n(st.new(Iter((), 0, True)), st)
        cur = []
        for t, xs, s in m.to_list(a[1], st, fr):
            if t != "n":
                cur.append((t, xs, s))
                continue
            c = [("n", [], s)]
            for x in xs:
                nx = []
                for t2, l, s2 in c:
                    if t2 != "n":
                        nx.append((t2, l, s2))
                        continue
                    nx.extend((t3, l + [r] if t3 == "n" else r, s3) for t3, r, s3 in ip.call(a[0], [x], {}, s2, fr))
                c = nx
            cur.extend((t2, s2.new(Iter(tuple(l))) if t2 == "n" else l, s2) for t2, l, s2 in c)
        return cur

    @reg("builtins.filter", "T:filter")
    def _filter(a, kw, st, fr):
        outs = []
        for t, xs, s in m.to_list(a[1], st, fr):
            if t != "n":
                outs.append((t, xs, s))
                continue
            c = [("n", [], s)]
            for x in xs:
                nx = []
                for t2, l, s2 in c:
                    if t2 != "n":
                        nx.append((t2, l, s2))
                        continue
                    rs = n(x, s2) if s2.res(a[0]) == NONE else ip.call(a[0], [x], {}, s2, fr)
                    for t3, r, s3 in rs:
                        if t3 != "n":
                            nx.append((t3, r, s3))
                            continue
                        nx.extend((t4, (l + [x] if b else l) if t4 == "n" else b, s4) for t4, b, s4 in m.truth(r, s3, fr))
                c = nx
            outs.extend((t2, s2.new(Iter(tuple(l))) if t2 == "n" else l, s2) for t2, l, s2 in c)
        return outs

    @reg("builtins.print", "warnings.warn", "warnings.simplefilter")
    def _print(a, kw, st, fr):
        return n(NONE, st)

    def minmax(a, kw, st, fr):
        if len(a) == 1:
            outs = []
            for t, xs, s in m.to_list(a[0], st, fr):
                outs.extend(n(xs[0], s) if t == "n" and len(xs) == 1 else n(s.sym((A_INT,), "minmax"), s) if t == "n" else [(t, xs, s)])
            return outs
        vs = [st.res(x) for x in a]
        if all(isinstance(v, K) for v in vs):
            try:
                return n(K((min if kw.get("_min", True) else max)(v.v for v in vs)), st)
            except TypeError:
                return ip.raise_("TypeError", st)
        return n(st.sym((A_INT,), "minmax"), st)

    E["builtins.min"] = minmax
    E["builtins.max"] = lambda a, kw, st, fr: minmax(a, dict(kw, _min=False), st, fr)
    for nm in ("abs", "sum", "round", "ord", "pow"):
        E["builtins." + nm] = fresh((A_INT,), nm)
    E["builtins.chr"] = fresh((A_STR,), "chr")
    E["builtins.dir"] = lambda a, kw, st, fr: n(st.new(L([], True)), st)
    E["builtins.vars"] = lambda a, kw, st, fr: m.getattr(a[0], "__dict__", st, fr)
    E["builtins.globals"] = lambda a, kw, st, fr: n(st.new(D(open_=True)), st)

    @reg("builtins.open", "io.open")
    def _open(a, kw, st, fr):
        mode = st.res(a[1]) if len(a) > 1 else st.res(kw.get("mode", K("r")))
        md = mode.v if isinstance(mode, K) else "?"
        f = st.new(Opq("file", {"mode": K(md)}))
        st.ev = st.ev + (("open", md, fr.line),)
        s2 = st.fork()
        return n(f, st) + ip.raise_("OSError", s2)

    # ------------------------------------------------------------ constructors
    def num(kind):
        atom = {"int": A_INT, "float": A_FLOAT}[kind]

        def f(a, kw, st, fr):
            if not a:
                return n(K(0 if kind == "int" else 0.0), st)
            outs = []
            for v, s in m.norm(a[0], st):
                if isinstance(v, K) and isinstance(v.v, (str, int, float, bool, bytes, type(None))) and len(a) == 1:
                    try:
                        outs.append(("n", K(int(v.v) if kind == "int" else float(v.v)), s))
                    except Exception as e:
                        outs.extend(ip.raise_(type(e).__name__, s))
                    continue
                if isinstance(v, S):
                    pt = m.ptype_of(v, s)
                    if pt is str:
                        key = ("num", kind, v) + tuple(s.res(x) for x in a[1:])
                        r = s.facts.get(key)
                        if r is not None:
                            outs.extend(n(r, s) if r != FALSE else ip.raise_("ValueError", s))
                            continue
                        s2 = s.fork()
                        x = s.sym((atom,), kind)
                        s.facts[key] = x
                        outs.append(("n", x, s))
                        s2.facts[key] = FALSE
                        outs.extend(ip.raise_("ValueError", s2))
                    elif pt is int and kind == "int" or pt is float and kind == "float":
                        outs.append(("n", v, s))
                    elif pt in (int, bool, float):
                        key = ("num", kind, v)
                        r = s.facts.get(key)
                        if r is not None:
                            outs.extend(n(r, s) if not isinstance(r, str) else ip.raise_(r, s))
                            continue
                        for ex in {int: ("OverflowError",), bool: (), float: ("OverflowError", "ValueError")}[pt]:
                            s2 = s.fork()
                            s2.facts[key] = ex
                            outs.extend(ip.raise_(ex, s2))
                        s.facts[key] = x = s.sym((atom,), kind)
                        outs.append(("n", x, s))
                    elif pt is bytes:
                        s2 = s.fork()
                        outs.append(("n", s.sym((atom,), kind), s))
                        outs.extend(ip.raise_("ValueError", s2))
                    else:
                        outs.extend(ip.raise_("TypeError", s))
                    continue
                if isinstance(v, R) and s.get(v).kind == "inst":
                    for fv, s2, _ in m.find_method(v, f"__{kind}__", s):
                        if isinstance(fv, BM) and isinstance(fv.fn, Fn):
                            outs.extend(ip.call(fv, [], {}, s2, fr))
                        else:
                            outs.extend(ip.raise_("TypeError", s2))
                    continue
                if isinstance(v, Top):
                    outs.append(("n", Top(kind), s))
                    continue
                if isinstance(v, R) and s.get(v).kind == "opq":
                    s2 = s.fork()
                    outs.append(("n", s.sym((atom,), kind), s))
                    outs.extend(ip.raise_("ValueError", s2))
                    continue
                if isinstance(v, X):
                    outs.append(("n", s.sym((atom,), kind), s))
                    continue
                outs.extend(ip.raise_("TypeError", s))
            return outs

        return f

    E["T:int"] = num("int")
    E["T:float"] = num("float")

    @reg("T:bool")
    def _bool(a, kw, st, fr):
        if not a:
            return n(FALSE, st)
        return [(t, K(b) if t == "n" else b, s) for t, b, s in m.truth(a[0], st, fr)]

    @reg("T:bytes")
    def _bytes(a, kw, st, fr):
        return n(st.sym((A_BYTES,), "bytes"), st)

    def srcopen(v, st):
        v = st.res(v)
        return isinstance(v, R) and getattr(st.get(v), "open", False) is True

    @reg("T:list")
    def _list(a, kw, st, fr):
        if not a:
            return n(st.new(L()), st)
        op = srcopen(a[0], st)
        return [(t, s.new(L(list(x), op)) if t == "n" else x, s) for t, x, s in m.to_list(a[0], st, fr)]

    @reg("T:tuple")
    def _tuple(a, kw, st, fr):
        if not a:
            return n(T(()), st)
        return [(t, T(x) if t == "n" else x, s) for t, x, s in m.to_list(a[0], st, fr)]

    @reg("T:set", "T:frozenset")
    def _set(a, kw, st, fr):
        if not a:
            return n(st.new(Set_()), st)
        outs = []
        op = srcopen(a[0], st)
        for t, xs, s in m.to_list(a[0], st, fr):
            if t != "n":
                outs.append((t, xs, s))
                continue
            if any(m.unhashable(x, s) for x in xs):
                outs.extend(ip.raise_("TypeError", s))
                continue
            r = s.new(Set_([], op))
            cur = [s]
            for x in xs:
                cur = [q for p in cur for q in m.set_add(r, x, p)]
            outs.extend(("n", r, p) for p in cur)
        return outs

    @reg("T:dict", "T:OrderedDict")
    def _dict(a, kw, st, fr):
        d = st.new(D())
        outs = m.dict_update(d, a[0], st, fr) if a else n(d, st)
        res = []
        for t, v, s in outs:
            if t != "n":
                res.append((t, v, s))
                continue
            cur = [s]
            for k, x in kw.items():
                if k == "**":
                    s.mut(d).open = True
                    continue
                cur = [q for p in cur for q in m.dict_set(d, K(k), x, p)]
            res.extend(("n", d, p) for p in cur)
        return res

    @reg("T:defaultdict")
    def _ddict(a, kw, st, fr):
        return n(st.new(D([], False, dict, a[0] if a else None)), st)

    @reg("T:object")
    def _object(a, kw, st, fr):
        return n(st.new(Opq("object")), st)

    @reg("T:type")
    def _type(a, kw, st, fr):
        if len(a) == 1:
            return n(m.type_of(a[0], st), st)
        st.imp("type()")
        return n(Top("type()"), st)

    @reg("T:super")
    def _super(a, kw, st, fr):
        c = st.res(a[0])
        if isinstance(c, Cls) and len(a) > 1:
            return n(Sup(c.c, a[1]), st)
        return n(Top("super"), st)

    @reg("T:range")
    def _range(a, kw, st, fr):
        vs = [st.res(x) for x in a]
        if not vs:
            st.imp("range of unknown")
            return n(st.new(Iter((), 0, True)), st)
        if all(isinstance(v, K) and isinstance(v.v, int) for v in vs):
            return n(K(range(*[v.v for v in vs])), st)
        if any(isinstance(v, K) and not isinstance(v.v, int) for v in vs):
            return ip.raise_("TypeError", st)
        st.imp("range of unknown")
        return n(st.new(Iter((), 0, True)), st)

    @reg("T:enumerate")
    def _enumerate(a, kw, st, fr):
        start = st.res(a[1]) if len(a) > 1 else st.res(kw.get("start", K(0)))
        b = start.v if isinstance(start, K) else 0
        outs = []
        op = srcopen(a[0], st)
        for t, xs, s in m.to_list(a[0], st, fr):
            outs.append((t, s.new(Iter(tuple(T((K(b + i), x)) for i, x in enumerate(xs)), 0, op)) if t == "n" else xs, s))
        return outs

    @reg("T:zip", "itertools.zip_longest", "T:zip_longest")
    def _zip(a, kw, st, fr):
        outs = [("n", [], st)]
        for x in a:
            nx = []
            for t, ls, s in outs:
                if t != "n":
                    nx.append((t, ls, s))
                    continue
                nx.extend((t2, ls + [l] if t2 == "n" else l, s2) for t2, l, s2 in m.to_list(x, s, fr))
            outs = nx
        return [(t, s.new(Iter(tuple(T(z) for z in zip(*ls)))) if t == "n" else ls, s) for t, ls, s in outs]

    @reg("T:zip_longest", "itertools.zip_longest")
    def _zipl(a, kw, st, fr):
        outs = [("n", [], st)]
        fill = kw.get("fillvalue", NONE)
        for x in a:
            nx = []
            for t, ls, s in outs:
                if t != "n":
                    nx.append((t, ls, s))
                    continue
                nx.extend((t2, ls + [l] if t2 == "n" else l, s2) for t2, l, s2 in m.to_list(x, s, fr))
            outs = nx
        import itertools

        return [(t, s.new(Iter(tuple(T(z) for z in itertools.zip_longest(*ls, fillvalue=fill)))) if t == "n" else ls, s) for t, ls, s in outs]

    @reg("T:reversed")
    def _reversed(a, kw, st, fr):
        return [(t, s.new(Iter(tuple(reversed(x)))) if t == "n" else x, s) for t, x, s in m.to_list(a[0], st, fr)]

    @reg("T:slice")
    def _slice(a, kw, st, fr):
        vs = [st.res(x) for x in a]
        if all(isinstance(v, K) for v in vs):
            return n(K(slice(*[v.v for v in vs])), st)
        vs = {1: [NONE, vs[0], NONE], 2: vs + [NONE], 3: vs}[len(vs)]
        return n(st.new(Opq("slice", {"start": vs[0], "stop": vs[1], "step": vs[2]})), st)

    @reg("T:islice", "itertools.islice")
    def _islice(a, kw, st, fr):
        outs = []
        for t, xs, s in m.to_list(a[0], st, fr):
            if t != "n":
                outs.append((t, xs, s))
                continue
            b = [s.res(x) for x in a[1:]]
            if all(isinstance(x, K) for x in b):
                import itertools

                outs.append(("n", s.new(Iter(tuple(itertools.islice(xs, *[x.v for x in b])))), s))
            else:
                outs.append(("n", s.new(Iter(tuple(xs), 0, True)), s))
        return outs

    @reg("T:chain", "itertools.chain")
    def _chain(a, kw, st, fr):
        outs = [("n", [], st)]
        for x in a:
            nx = []
            for t, ls, s in outs:
                if t != "n":
                    nx.append((t, ls, s))
                    continue
                nx.extend((t2, ls + l if t2 == "n" else l, s2) for t2, l, s2 in m.to_list(x, s, fr))
            outs = nx
        return [(t, s.new(Iter(tuple(ls))) if t == "n" else ls, s) for t, ls, s in outs]

    @reg("T:PosixPath", "T:Path", "T:PurePath", "T:WindowsPath")
    def _path(a, kw, st, fr):
        import pathlib

        outs = []
        for v, s in m.norm(a[0], st) if a else [(K(""), st)]:
            t = m.ptype_of(v, s) if not isinstance(v, Top) else str
            if t is str or (isinstance(t, type) and issubclass(t, pathlib.PurePath)):
                outs.append(("n", s.new(Inst((pathlib.PosixPath,), {"s": v})), s))
            else:
                outs.extend(ip.raise_("TypeError", s))
        return outs

    # ------------------------------------------------------------ object.*
    @reg("object.__new__")
    def _new(a, kw, st, fr):
        c = m.cval(st.res(a[0]))
        if c is None:
            outs = []
            for cv, s in m.concretize_type(a[0], st):
                c = m.cval(cv)
                outs.append(("n", s.new(Inst((c,), {})) if c is not None else Top("new"), s))
            return outs
        if isinstance(c, ClassInfo):
            return n(st.new(Inst((c,), {})), st)
        return n(st.new(Opq("object")), st)

    @reg("object.__setattr__")
    def _osa(a, kw, st, fr):
        k = attrname(a[1], st)
        if k is None:
            st.imp("object.__setattr__ unknown name")
            return n(NONE, st)
        outs = []
        for o, s in m.norm(a[0], st):
            if isinstance(o, R) and s.get(o).kind == "inst":
                c0 = s.get(o).cls[0]
                if k == "__dict__":
                    outs.extend(m.replace_dict(o, a[2], s))
                    continue
                outs.extend(("n", NONE, s2) for s2 in m.set_raw(o, k, a[2], s))
            else:
                outs.append(("n", NONE, s))
        return outs

    @reg("object.__getattribute__")
    def _oga(a, kw, st, fr):
        k = attrname(a[1], st)
        if k is None:
            st.imp("object.__getattribute__ unknown name")
            return n(Top("getattribute"), st)
        outs = []
        for o, s in m.norm(a[0], st):
            if k == "__dict__" and isinstance(o, R):
                outs.append(("n", DV(o.i), s))
                continue
            got = False
            for v, s2 in m.inst_attr(o, k, s):
                if v is not None:
                    outs.append(("n", v, s2))
                    continue
                cs = s2.get(o).cls
                r = m.type_lookup(cs[0], k, s2)
                if r is None:
                    outs.extend(m.attr_error(o, k, s2))
                else:
                    outs.extend(m.from_class(o, k, r, False, list(cs), s2, fr))
        return outs

    @reg("object.__delattr__")
    def _oda(a, kw, st, fr):
        k = attrname(a[1], st)
        if k is not None:
            o = st.res(a[0])
            if isinstance(o, R) and st.get(o).kind == "inst":
                st.mut(o).attrs.pop(k, None)
        return n(NONE, st)

    # ------------------------------------------------------------ copy
    def memo_get(memo, key, st):
        for k, v in st.get(memo).ents:
            if k == key:
                return v
        return None

    def dcopy(v, memo, st, fr):
        outs = []
        for v1, s in m.norm(v, st):
            outs.extend(_dcopy(v1, memo, s, fr))
        return outs

    def dseq(xs, memo, st, fr):
        cur = [("n", [], st)]
        for x in xs:
            nx = []
            for t, l, s in cur:
                if t != "n":
                    nx.append((t, l, s))
                    continue
                nx.extend((t2, l + [y] if t2 == "n" else y, s2) for t2, y, s2 in dcopy(x, memo, s, fr))
            cur = nx
        return cur

    def _dcopy(v, memo, st, fr):
        if isinstance(v, T):
            return [(t, T(l) if t == "n" else l, s) for t, l, s in dseq(v.xs, memo, st, fr)]
        if isinstance(v, DV):
            outs = []
            for nm, s in m.inst_all(R(v.i), st):
                at = s.get(R(v.i)).attrs
                for t, l, s2 in dseq([at[a] for a in nm], memo, s, fr):
                    outs.append((t, s2.new(D([(K(a), b) for a, b in zip(nm, l)])) if t == "n" else l, s2))
            return outs
        if not isinstance(v, R):
            return n(v, st)
        key = idval(v)
        mm = st.res(memo)
        if isinstance(mm, R) and st.get(mm).kind == "dict":
            hit = memo_get(mm, key, st)
            if hit is not None:
                return n(hit, st)
        o = st.get(v)
        k = o.kind

        def remember(y, s):
            m2 = s.res(memo)
            if isinstance(m2, R) and s.get(m2).kind == "dict":
                s.mut(m2).ents.append((key, y))
            return y

        if k == "list":
            y = st.new(L([], o.open))
            remember(y, st)
            outs = []
            st.roots = st.roots + (y.i,)
            for t, l, s in dseq(o.xs, memo, st, fr):
                s.roots = s.roots[:-1]
                if t == "n":
                    s.mut(y).xs = list(l)
                outs.append((t, y if t == "n" else l, s))
            return outs
        if k == "set":
            outs = []
            for t, l, s in dseq(o.xs, memo, st, fr):
                outs.append((t, remember(s.new(Set_(list(l), o.open)), s) if t == "n" else l, s))
            return outs
        if k == "dict":
            y = st.new(D([], o.open, o.ptype, o.factory))
            remember(y, st)
            outs = []
            st.roots = st.roots + (y.i,)
            flat = [x for e in o.ents for x in e]
            for t, l, s in dseq(flat, memo, st, fr):
                s.roots = s.roots[:-1]
                if t == "n":
                    s.mut(y).ents = [(l[i], l[i + 1]) for i in range(0, len(l), 2)]
                outs.append((t, y if t == "n" else l, s))
            return outs
        if k == "inst":
            if any(isinstance(c, ClassInfo) and c.is_enum for c in o.cls):
                return n(v, st)
            outs = []
            for fv, s, cs in m.find_method(v, "__deepcopy__", st):
                if fv is not None:
                    for t, r, s2 in ip.call(fv, [memo], {}, s, fr):
                        outs.append((t, remember(r, s2) if t == "n" else r, s2))
                    continue
                outs.extend(recon(v, cs, True, memo, s, fr, remember))
            return outs
        if k == "opq" and o.name in ("file",):
            return ip.raise_("TypeError", st)
        return n(v, st)

    def recon(v, cs, deep, memo, st, fr, remember):
        """copy._reconstruct for __reduce_ex__(4) objects"""
        outs = []
        for gv, s, cs2 in m.find_method(v, "__getstate__", st):
            if isinstance(gv, BM) and isinstance(gv.fn, Fn):
                sts = ip.call(gv, [], {}, s, fr)
            else:
                sts = []
                for nm, s2 in m.inst_all(v, s):
                    at = s2.get(v).attrs
                    sts.append(("n", s2.new(D([(K(a), at[a]) for a in nm])), s2))
            for t, sv, s2 in sts:
                if t != "n":
                    outs.append((t, sv, s2))
                    continue
                y = s2.new(Inst(s2.get(v).cls, {}))
                if remember:
                    remember(y, s2)
                s2.roots = s2.roots + (y.i,)
                rs = dcopy(sv, memo, s2, fr) if deep else n(sv, s2)
                for t3, sv3, s3 in rs:
                    if t3 != "n":
                        s3.roots = s3.roots[:-1]
                        outs.append((t3, sv3, s3))
                        continue
                    for xv, s4, _ in m.find_method(y, "__setstate__", s3):
                        if isinstance(xv, BM) and isinstance(xv.fn, Fn):
                            r4 = ip.call(xv, [sv3], {}, s4, fr)
                        else:
                            r4 = m.m_dv(DV(y.i), "update", [sv3], {}, s4, fr)
                        for t5, v5, s5 in r4:
                            s5.roots = s5.roots[:-1]
                            outs.append((t5, y if t5 == "n" else v5, s5))
        return outs

    @reg("copy.deepcopy")
    def _deepcopy(a, kw, st, fr):
        memo = a[1] if len(a) > 1 else kw.get("memo", NONE)
        if st.res(memo) == NONE:
            memo = st.new(D())
        return dcopy(a[0], memo, st, fr)

    @reg("copy.copy")
    def _copy(a, kw, st, fr):
        outs = []
        for v, s in m.norm(a[0], st):
            if isinstance(v, DV):
                for nm, s2 in m.inst_all(R(v.i), s):
                    outs.append(("n", s2.new(D([(K(x), s2.get(R(v.i)).attrs[x]) for x in nm])), s2))
                continue
            if not isinstance(v, R):
                outs.append(("n", v, s))
                continue
            o = s.get(v)
            if o.kind in ("list", "dict", "set"):
                outs.append(("n", s.new(o.copy()), s))
            elif o.kind == "inst":
                if any(isinstance(c, ClassInfo) and c.is_enum for c in o.cls):
                    outs.append(("n", v, s))
                    continue
                for fv, s2, cs in m.find_method(v, "__copy__", s):
                    if fv is not None:
                        outs.extend(ip.call(fv, [], {}, s2, fr))
                    else:
                        outs.extend(recon(v, cs, False, NONE, s2, fr, None))
            else:
                outs.append(("n", v, s))
        return outs

    # ------------------------------------------------------------ typing / dataclasses / attr
    @reg("typing.cast")
    def _cast(a, kw, st, fr):
        return n(a[1], st)

    E["typing.TypeVar"] = lambda a, kw, st, fr: n(X("typevar"), st)
    E["typing.NewType"] = lambda a, kw, st, fr: n(a[1], st)
    E["T:TypeVar"] = E["typing.TypeVar"]

    def eval_ann(own, ann, st):
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            ann = ast.parse(ann.value, mode="eval").body
        fr2 = Frame(None, None, own.module, own, m.prog.modfile[own.module], None)
        r = ip.ev(ann, fr2, st)
        if r and r[0][0] == "n":
            v = r[0][1]
            return K(type(None)) if v == NONE else v
        return Top("annotation")

    m.eval_ann = eval_ann

    @reg("typing.get_type_hints")
    def _hints(a, kw, st, fr):
        c = st.res(a[0])
        if isinstance(c, R) and st.get(c).kind == "inst":
            c = m.tval(st.get(c).cls[0])
        if isinstance(c, Cls) and c.c.fields is not None:
            return n(st.new(D([(K(f[0]), eval_ann(f[3], f[1], st)) for f in c.c.fields])), st)
        return n(st.new(D(open_=True)), st)

    def dcls(v, st):
        v = st.res(v)
        if isinstance(v, R) and st.get(v).kind == "inst":
            v = m.tval(st.get(v).cls[0])
        return v.c if isinstance(v, Cls) and v.c.is_dc else None

    @reg("dataclasses.fields")
    def _fields(a, kw, st, fr):
        c = dcls(a[0], st)
        if c is None:
            return ip.raise_("TypeError", st)
        xs = []
        for nm, ann, dflt, own in c.fields:
            d = st.res(dflt) if dflt is not None else None
            at = {"name": K(nm), "type": eval_ann(own, ann, st), "default": X("dataclasses.MISSING"), "default_factory": X("dataclasses.MISSING"), "init": TRUE,
                  "metadata": st.new(D())}
            if isinstance(d, R) and st.get(d).kind == "opq" and st.get(d).name == "field":
                at.update({k: v for k, v in st.get(d).attrs.items() if k in ("default", "default_factory", "init", "metadata")})
            elif d is not None:
                at["default"] = d
            xs.append(st.new(Opq("dcfield", at)))
        return n(T(xs), st)

    @reg("dataclasses.is_dataclass")
    def _isdc(a, kw, st, fr):
        outs = []
        for v, s in m.norm(a[0], st):
            outs.append(("n", K(dcls(v, s) is not None), s))
        return outs

    @reg("dataclasses.field")
    def _field(a, kw, st, fr):
        return n(st.new(Opq("field", dict(kw))), st)

    @reg("dataclasses.dataclass")
    def _dataclass(a, kw, st, fr):
        if a:
            return m.decorate(X("dataclasses.dataclass"), a[0], st, fr)
        return n(st.new(Opq("dataclass-deco", dict(kw))), st)

    @reg("attr.has")
    def _attrhas(a, kw, st, fr):
        return n(FALSE, st)

    # ------------------------------------------------------------ misc modules
    @reg("contextlib.nullcontext", "T:nullcontext")
    def _null(a, kw, st, fr):
        return n(st.new(Opq("nullcontext", {"enter": a[0] if a else NONE})), st)

    @reg("contextlib.suppress", "T:suppress")
    def _supp(a, kw, st, fr):
        return n(st.new(Opq("suppress", {"of": T(a)})), st)

    @reg("sys.exc_info")
    def _exc(a, kw, st, fr):
        if st.exc:
            return n(T((m.type_of(st.exc[-1], st), st.exc[-1], X("tb"))), st)
        return n(T((NONE, NONE, NONE)), st)

    E["sys.gettrace"] = const(NONE)
    E["re.compile"] = lambda a, kw, st, fr: n(st.new(Opq("pattern", {"pat": a[0], "flags": a[1] if len(a) > 1 else kw.get("flags", K(0))})), st)

    def concrete_pattern(p, st):
        """the compiled stdlib regex when pattern and flags are known constants"""
        p = st.res(p)
        if isinstance(p, K) and isinstance(p.v, str):
            pat, fl = p, K(0)
        elif isinstance(p, R) and st.get(p).kind == "opq" and "pat" in st.get(p).attrs:
            at = st.get(p).attrs
            pat, fl = st.res(at["pat"]), st.res(at["flags"])
        else:
            return None
        if isinstance(pat, K) and isinstance(fl, K) and isinstance(pat.v, str) and isinstance(fl.v, int):
            try:
                return re.compile(pat.v, fl.v)
            except re.error:
                return None
        return None

    def mkmatch(mt):
        return {"=group": K(mt.group()), "=groups": lift(mt.groups()), "=start": K(mt.start()), "=end": K(mt.end()), "=span": lift(mt.span()), "=all": lift((mt.group(),) + mt.groups())}

    def eachstr(f):
        def g(a, kw, st, fr, *o):
            outs = []
            for v, s in m.norm(a[-1], st):
                outs.extend(f(list(a[:-1]) + [v], kw, s, fr, *o))
            return outs

        return g

    @eachstr
    def refindall(a, kw, st, fr, *o):
        arg = st.res(a[-1])
        c = concrete_pattern(o[0] if o else a[0], st)
        if c is not None and isinstance(arg, K) and isinstance(arg.v, str):
            return n(st.new(L([lift(x) for x in c.findall(arg.v)])), st)
        return n(Top("findall"), st)

    def matchfield(name):
        def f(a, kw, st, fr, o=None):
            at = st.get(o).attrs
            if "=" + name in at and not a:
                return n(at["=" + name], st)
            if name == "group" and "=all" in at and isinstance(st.res(a[0]), K) and isinstance(a[0].v, int):
                return n(at["=all"].xs[a[0].v], st)
            if name == "group":
                return n(st.sym((A_STR,), "group"), st)
            if name in ("start", "end"):
                return n(st.sym((A_INT,), "pos"), st)
            return n(Top(name), st)

        return f

    def rematch(how):
        @eachstr
        def f(a, kw, st, fr, *o):
            arg = st.res(a[-1])
            c = concrete_pattern(o[0] if o else a[0], st)
            if c is not None and isinstance(arg, K) and isinstance(arg.v, str):
                mt = getattr(c, how)(arg.v)
                return n(st.new(Opq("match", mkmatch(mt))) if mt else NONE, st)
            return rematch_(a, kw, st, fr, *o)

        return f

    def rematch_(a, kw, st, fr, *o):
        arg = st.res(a[-1])
        key = ("match", o[0] if o else st.res(a[0]), arg)
        outs = []
        for _, b, s in m.fork_fact(key, st):
            outs.append(("n", s.new(Opq("match")) if b else NONE, s))
        return outs

    for x in ("match", "fullmatch", "search"):
        E["M:pattern." + x] = rematch(x)
        E["re." + x] = rematch(x)
    E["M:pattern.findall"] = E["re.findall"] = refindall
    E["M:pattern.sub"] = fresh((A_STR, A_INTERP, MISS), "sub")
    E["re.sub"] = E["M:pattern.sub"]
    for x in ("group", "groups", "start", "end", "span"):
        E["M:match." + x] = matchfield(x)
    E["textwrap.dedent"] = lambda a, kw, st, fr: n(a[0], st)
    E["inspect.cleandoc"] = fresh((A_STR,), "doc")
    E["T:Template"] = lambda a, kw, st, fr: n(st.new(Opq("template")), st)
    E["M:template.safe_substitute"] = lambda a, kw, st, fr, o=None: n(st.sym((A_STR,), "msg"), st)
    E["M:template.substitute"] = E["M:template.safe_substitute"]
    E["math.isnan"] = lambda a, kw, st, fr: m.fork_fact_v(("isnan", st.res(a[0])), st)
    E["yaml.safe_load"] = E["yaml.load"] = lambda a, kw, st, fr: _yaml(st)

    def _yaml(st):
        d = st.new(D([(st.sym((A_STR,), "yk"), st.sym((A_STR, A_INT, NONE, A_INTERP, MISS), "yv"))]))
        l = st.new(L([st.sym((A_STR, A_INT, NONE), "yv")]))
        s2 = st.fork()
        return n(st.sym((d, l, A_STR, A_INT, NONE), "yaml"), st) + ip.raise_("Exception", s2)

    E["yaml.dump"] = fresh((A_STR,), "yaml")
    E["os.environ.get"] = lambda a, kw, st, fr: n(NONE, st) if st.res(a[0]) == K("OC_CAUSE") else n(st.sym((A_STR, A_INTERP, MISS), "env"), st) + n(a[1] if len(a) > 1 else NONE, st.fork())
    E["M:file.write"] = lambda a, kw, st, fr, o=None: _fw("write", st, fr)
    E["M:file.close"] = lambda a, kw, st, fr, o=None: _fw("close", st, fr)
    E["M:file.flush"] = lambda a, kw, st, fr, o=None: _fw("flush", st, fr)
    E["M:file.read"] = lambda a, kw, st, fr, o=None: n(st.sym((A_STR, A_INTERP), "data"), st)

    def _fw(what, st, fr):
        st.ev = st.ev + (("file." + what, fr.line),)
        return n(NONE, st)

    @reg("inspect.signature")
    def _sig(a, kw, st, fr):
        f = st.res(a[0])
        if isinstance(f, BM):
            f = f.fn
        if isinstance(f, Fn):
            ar = f.f.node.args
            d = st.new(D([(K(x.arg), X("param")) for x in list(ar.posonlyargs) + list(ar.args) + list(ar.kwonlyargs)]))
            return n(st.new(Opq("signature", {"parameters": d})), st)
        s2 = st.fork()
        return n(st.new(Opq("signature", {"parameters": st.new(D([]))})), st) + ip.raise_("ValueError", s2)

    @reg("M:slice.indices")
    def _indices(a, kw, st, fr, o=None):
        at = st.get(o).attrs
        vs = [st.res(at[x]) for x in ("start", "stop", "step")] + [st.res(a[0])]
        if all(isinstance(v, K) for v in vs):
            try:
                return n(lift(slice(*[v.v for v in vs[:3]]).indices(vs[3].v)), st)
            except (TypeError, ValueError) as e:
                return ip.raise_(type(e).__name__, st)
        st.imp("slice.indices of unknown")
        return n(Top("indices"), st)

    E["functools.partial"] = lambda a, kw, st, fr: n(st.new(Opq("partial", {"f": a[0], "a": T(a[1:])})), st)
    E["T:partial"] = E["functools.partial"]

    def callpartial(a, kw, st, fr, fv):
        o = st.get(fv)
        return ip.call(o.attrs["f"], list(o.attrs["a"].xs) + list(a), kw, st, fr)

    E["O:partial"] = callpartial
