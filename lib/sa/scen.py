"""Scenario machinery: abstract pre-states, entry points, and predicates over final abstract states."""
import ast
import os
import sys
import time

from . import summaries
from .interp import (A_SUBBYTES, A_SUBFLOAT, A_SUBINT, A_SUBSTR, A_ANYSTR, A_BYTES, A_FLOAT, A_INT, A_INTERP, A_STR, MISS, Atom, Budget, ClassInfo)
from .program import Program
from .values import *  # noqa
from .values import SITE

HERE = os.path.dirname(os.path.abspath(__file__))
CLIENT = os.path.join(HERE, "..", "client", "client.py")

PRIM_DOM = (NONE, MISS, A_INTERP, A_STR, A_INT)


def cname(c):
    """name of an analysed or of a stdlib class"""
    return c.name if isinstance(c, ClassInfo) else getattr(c, "__name__", "?")


class Lab:
    def __init__(self, root, summ=True):
        with open(CLIENT) as f:
            src = f.read()
        self.root = root
        self.prog = Program(root, extra={"client": src})
        self.ip = self.prog.ip
        self.m = self.ip.m
        if summ:
            summaries.install(self.ip)
            summaries.install_grammar(self.ip)
            summaries.install_yaml(self.ip)
            summaries.install_split_key(self.ip)
        self.cls = {c.name: c for c in self.prog.classes}
        self._fcache = {}
        self.field_types = {c.name: {f[0]: self.m.eval_ann(f[3], f[1], self.prog.st0) for f in c.fields} for c in self.prog.classes if c.is_dc and c.fields}

    # ------------------------------------------------------------ running
    def fn(self, name):
        return self.prog.module_var("client", name, self.prog.st0)

    def call(self, name, args, st, kwargs=None):
        f = self.fn(name) if isinstance(name, str) else name
        return self.ip.call(f, list(args), dict(kwargs or {}), st, None)

    def start(self):
        return self.prog.st0.fork()

    def run1(self, name, args, st):
        """a set-up step: every normal outcome -> [(value, st)]"""
        return [(v, s) for t, v, s in self.call(name, args, st) if t == "n"]

    # ------------------------------------------------------------ heap access
    def attr(self, r, name, st):
        return st.res(st.get(r).attrs.get(name, NONE))

    def isnode(self, v, st):
        return isinstance(v, R) and st.get(v).kind == "inst" and isinstance(st.get(v).cls[0], ClassInfo) and any(cname(c) == "Node" for c in st.get(v).cls[0].mro)

    def clsname(self, v, st):
        return st.get(v).cls[0].name

    def isa(self, v, name, st):
        return isinstance(v, R) and st.get(v).kind == "inst" and any(cname(c) == name for c in self.prog.lin(st.get(v).cls[0]))

    def content(self, r, st):
        c = self.attr(r, "_content", st)
        return c

    def child(self, r, k, st):
        c = self.content(r, st)
        if isinstance(c, S):
            for e in st.dom(c):
                if isinstance(e, R):
                    c = e
        o = st.get(c)
        if o.kind == "dict":
            for a, b in o.ents:
                if a == K(k):
                    return b
        elif o.kind == "list":
            return o.xs[k]
        raise KeyError(k)

    def path(self, r, p, st):
        for k in p:
            r = self.child(r, k, st)
        return r

    def nodes(self, r, st, acc=None):
        """all config nodes below r in a concrete pre-state"""
        acc = [] if acc is None else acc
        if not self.isnode(r, st) or r in acc:
            return acc
        acc.append(r)
        c = self.content(r, st)
        if isinstance(c, S):
            for e in st.dom(c):
                if isinstance(e, R):
                    c = e
        if isinstance(c, R):
            o = st.get(c)
            if o.kind == "dict":
                for _, b in o.ents:
                    self.nodes(b, st, acc)
            elif o.kind == "list":
                for b in o.xs:
                    self.nodes(b, st, acc)
            elif self.isnode(c, st):
                self.nodes(c, st, acc)
        return acc

    def reach(self, st, roots):
        """ids of all heap objects reachable from values"""
        seen = set()
        todo = list(roots)

        def push(v):
            todo.append(v)

        while todo:
            v = todo.pop()
            if isinstance(v, S):
                b = st.bind.get(v.i)
                if b is not None:
                    todo.append(b)
                else:
                    for e in st.syms[v.i][0]:
                        if isinstance(e, V):
                            todo.append(e)
                continue
            if isinstance(v, T):
                todo.extend(v.xs)
                continue
            if isinstance(v, BM):
                todo.append(v.self)
                if isinstance(v.fn, V):
                    todo.append(v.fn)
                continue
            if isinstance(v, Fn):
                if v.env:
                    todo.append(R(v.env))
                todo.extend(v.defaults)
                continue
            if isinstance(v, DV):
                v = R(v.i)
            if not isinstance(v, R) or v.i in seen or v.i not in st.heap:
                continue
            seen.add(v.i)
            o = st.heap[v.i]
            if o.kind == "inst" or o.kind == "opq":
                todo.extend(o.attrs.values())
            elif o.kind == "dict":
                for a, b in o.ents:
                    todo.append(a)
                    todo.append(b)
                if o.factory is not None:
                    todo.append(o.factory)
            elif o.kind in ("list", "set"):
                todo.extend(o.xs)
            elif o.kind == "env":
                todo.extend(o.vars.values())
                if o.parent:
                    todo.append(R(o.parent))
            elif o.kind == "iter":
                todo.extend(o.xs or ())
                if isinstance(o.src, V):
                    todo.append(o.src)
            elif o.kind == "view":
                todo.append(o.of)
            elif o.kind == "gen":
                todo.append(R(o.env))
        return seen

    def freeze(self, st, roots):
        """garbage-collect the state and declare what is left pre-existing"""
        base = self.prog.base_ids
        keep = self.reach(st, roots) | base
        st = st.fork()
        st.heap = {i: o for i, o in st.heap.items() if i in keep}
        st.own = set()
        st.facts = {}
        st.trace = None
        st.imprec = ()
        st.ev = ()
        st.exc = ()
        st.init = dict(st.init)
        for i, o in st.heap.items():
            if i not in base:
                st.init[i] = o
            elif o is not self.prog.st0.heap.get(i):
                st.init[i] = o
        st.scn = tuple(roots)
        live = set()
        for i, o in list(st.heap.items()):
            if i in st.init and i not in base or i in keep:
                self._syms(o, st, live)
        for v in roots:
            if isinstance(v, S):
                live.add(v.i)
        st.frz = (newid(), {i: st.syms[i] for i in sorted(live) if i in st.syms})
        return st

    def _syms(self, o, st, acc):
        def go(v):
            if isinstance(v, S) and v.i not in acc:
                acc.add(v.i)
                if v.i in st.bind:
                    go(st.bind[v.i])
                else:
                    for e in st.syms[v.i][0]:
                        if isinstance(e, V):
                            go(e)
            elif isinstance(v, T):
                for e in v.xs:
                    go(e)

        if o.kind in ("inst", "opq"):
            for v in o.attrs.values():
                go(v)
        elif o.kind == "dict":
            for a, b in o.ents:
                go(a)
                go(b)
        elif o.kind in ("list", "set"):
            for v in o.xs:
                go(v)
        elif o.kind == "env":
            for v in o.vars.values():
                go(v)

    # ------------------------------------------------------------ generalisation
    def value_dom(self, node, st):
        nm = self.clsname(node, st)
        opt = self.attr(self.attr(node, "_metadata", st), "optional", st)
        base = {"AnyNode": (A_STR, A_INT), "StringNode": (A_STR,), "IntegerNode": (A_INT,), "FloatNode": (A_FLOAT,), "BytesNode": (A_BYTES,), "BooleanNode": (TRUE, FALSE)}.get(nm)
        if base is None:
            return None
        if self.inunion(node, st):
            return base  # the union node itself holds missing values and interpolations
        d = (MISS, A_INTERP) + base
        if opt == TRUE:
            d = (NONE,) + d
        return d

    def inunion(self, node, st):
        p = self.attr(node, "_parent", st)
        return isinstance(p, R) and self.clsname(p, st) == "UnionNode"

    def union_dom(self, nd, st):
        d = (st.get(nd).attrs["_content"], MISS)
        return d + (NONE,) if self.attr(st.get(nd).attrs["_metadata"], "optional", st) == TRUE else d

    def generalise(self, root, st, leaves=True, containers=(), content_of=("none", "missing", "interp")):
        """replace concrete leaf values by symbolic ones; let given containers also be special"""
        st = st.fork()
        left = leaves if leaves is not True else 1 << 30
        for nd in self.nodes(root, st):
            o = st.get(nd)
            if self.clsname(nd, st) == "UnionNode" and left:
                left -= 1
                st.mut(nd).attrs["_content"] = st.sym(self.union_dom(nd, st) + (A_INTERP,), "leaf")
            elif "_val" in o.attrs and left:
                d = self.value_dom(nd, st)
                left -= d is not None
                if d is not None:
                    st.mut(nd).attrs["_val"] = st.sym(d, "leaf")
            elif "_content" in o.attrs and nd in containers:
                c = o.attrs["_content"]
                if isinstance(st.res(c), R):
                    opt = self.attr(self.attr(nd, "_metadata", st), "optional", st)
                    d = [c]
                    if "none" in content_of and opt == TRUE:
                        d.append(NONE)
                    if "missing" in content_of:
                        d.append(MISS)
                    if "interp" in content_of:
                        d.append(A_INTERP)
                    self.special(nd, d, st)
        return st

    def special(self, nd, dom, st):
        """let the content of a container be one of dom; a special content comes without an object type"""
        o = st.mut(nd)
        sym = o.attrs["_content"] = st.sym(dom, "content")
        ot = self.attr(o.attrs["_metadata"], "object_type", st)
        if ot != NONE and self.clsname(nd, st) == "DictConfig" and not isinstance(ot, S):
            osym = st.sym((ot, NONE), "object_type")
            st.mut(o.attrs["_metadata"]).attrs["object_type"] = osym
            LINKS[sym.i] = (osym.i, "content", ot)
            LINKS[osym.i] = (sym.i, "type", ot)

    def literal_leaves(self, root, st, lits, only=None):
        """leaf values symbolic over: a value of the type of the leaf, None, missing, and given texts"""
        st = st.fork()
        i = 0
        for nd in self.nodes(root, st):
            o = st.get(nd)
            union = self.clsname(nd, st) == "UnionNode"
            if "_val" not in o.attrs and not union or self.inunion(nd, st):
                continue
            i += 1
            if only is not None and (i > only if isinstance(only, int) else i not in only):
                continue
            if union:
                st.mut(nd).attrs["_content"] = st.sym(self.union_dom(nd, st) + tuple(K(x) for x in lits), "leaf")
                continue
            d = self.value_dom(nd, st)
            if d is None:
                d = (MISS, o.attrs["_val"]) + ((NONE,) if self.attr(o.attrs["_metadata"], "optional", st) == TRUE else ())
            d = tuple(e for e in d if e not in (A_INTERP, A_STR) or e == A_STR and self.clsname(nd, st) == "StringNode")
            st.mut(nd).attrs["_val"] = st.sym(d + tuple(K(x) for x in lits), "leaf")
        return st

    # ------------------------------------------------------------ argument values
    def args_dom(self, st, kinds):
        """-> (domain, st, input roots): possible argument values"""
        dom = []
        roots = []
        mk = {"none": NONE, "missing": MISS, "interp": A_INTERP, "str": A_STR, "int": A_INT, "float": A_FLOAT, "bool": TRUE, "bytes": A_BYTES, "false": FALSE, "dflt": K("dflt"), "subint": A_SUBINT, "subfloat": A_SUBFLOAT, "substr": A_SUBSTR, "subbytes": A_SUBBYTES}
        for k in kinds:
            if k in mk:
                dom.append(mk[k])
                continue
            if k == "dict":
                v = st.new(D([(K("a"), st.sym((NONE, A_INT, A_STR, MISS, A_INTERP), "dv"))]))
            elif k == "newdict":
                v = st.new(D([(K("nw"), st.sym((A_INT, A_STR), "dv"))]))
            elif k == "list":
                v = st.new(L([st.sym((NONE, A_INT, A_STR, MISS, A_INTERP), "lv")]))
            elif k == "emptylist":
                v = st.new(L([]))
            elif k == "emptydict":
                v = st.new(D([]))
            elif k == "tuple":
                v = T((st.sym((A_INT, A_STR), "tv"),))
            elif k == "enum":
                v = self.cls["Color"].members["RED"]
            elif k == "class":
                v = Cls(self.cls["Addr"])
            elif k == "object":
                v = st.new(Inst((self.cls["Foo"],), {}))
            elif k == "path":
                import pathlib

                v = st.new(Inst((pathlib.PosixPath,), {"s": K("p")}))
            else:
                r = self.run1("v_" + k, [], st)
                assert len(r) == 1, (k, r)
                v, st = r[0]
                if self.isnode(v, st):
                    top = v
                    p = self.attr(v, "_parent", st)
                    while isinstance(p, R):
                        top = p
                        p = self.attr(p, "_parent", st)
                    st = self.generalise(top, st)
                    roots.append(top)
            if isinstance(v, (R, T)):
                roots.append(v)
            dom.append(v)
        return dom, st, roots

    # ------------------------------------------------------------ observation
    META = ("ref_type", "object_type", "optional", "key", "flags", "key_type", "element_type")

    def tree(self, v, st, init, seen=(), meta=META, flags=True):
        """structural picture of a config tree; init=True: as it was in the pre-state"""
        v = st.res(v)
        if isinstance(v, T):
            return ("T",) + tuple(self.tree(x, st, init, seen, meta) for x in v.xs)
        if not isinstance(v, R):
            return v
        o = st.init.get(v.i) if init else st.heap.get(v.i)
        if o is None:
            return ("new", v.i)
        if v.i in seen:
            return ("cycle", seen.index(v.i))
        seen = seen + (v.i,)
        if o.kind == "dict":
            return ("dict",) + tuple((self.tree(a, st, init, seen, meta), self.tree(b, st, init, seen, meta)) for a, b in o.ents)
        if o.kind == "list":
            return ("list",) + tuple(self.tree(b, st, init, seen, meta) for b in o.xs)
        if o.kind == "set":
            return ("set", frozenset(self.tree(b, st, init, seen, meta) for b in o.xs))
        if o.kind == "inst":
            c0 = o.cls[0]
            if isinstance(c0, ClassInfo) and c0.is_enum:
                return v
            if any(cname(c) == "Node" for c in self.prog.lin(c0)):
                md = st.res(o.attrs.get("_metadata", NONE))
                mo = (st.init.get(md.i) if init else st.heap.get(md.i)) if isinstance(md, R) else None
                ms = tuple((a, self.tree(mo.attrs.get(a, NONE), st, init, seen, meta)) for a in meta) if mo is not None else ()
                body = self.tree(o.attrs.get("_content", o.attrs.get("_val", NONE)), st, init, seen, meta)
                return ("node", c0.name, ms, body)
            return ("inst", cname(c0), tuple((a, self.tree(b, st, init, seen, meta)) for a, b in sorted(o.attrs.items())))
        if o.kind == "env":
            return ("env", v.i)
        return ("obj", v.i)

    def integrity(self, root, st, parent=None):
        """parent links and keys of a final-state tree -> list of problems"""
        out = []
        root = st.res(root)
        seen = set()

        def walk(v, par, key, where):
            v = st.res(v)
            if isinstance(v, S):
                if any(isinstance(e, R) for e in st.dom(v)):
                    for e in st.dom(v):
                        if isinstance(e, R):
                            walk(e, par, key, where)
                return
            if not self.isnode(v, st):
                if par is not None:
                    out.append((where, "raw", f"a raw {self.show(v, st)} is stored where a config node belongs"))
                return
            if v.i in seen:
                out.append((where, "shared", "the same node object occurs twice in one config"))
                return
            seen.add(v.i)
            if par is not None:
                p = self.attr(v, "_parent", st)
                if p != par:
                    out.append((where, "parent", f"parent link of the node at {where} does not refer to its container"))
                md = self.attr(v, "_metadata", st)
                k = self.attr(md, "key", st)
                if key is not None and not self.samekey(k, key, st):
                    out.append((where, "key", f"key recorded by the node at {where} is {self.show(k, st)}, its position is {self.show(key, st)}"))
            c = st.res(st.get(v).attrs.get("_content", NONE))
            if isinstance(c, S):
                for e in st.dom(c):
                    if isinstance(e, R):
                        c = e
            if isinstance(c, R):
                o = st.get(c)
                if o.kind == "dict":
                    for a, b in o.ents:
                        walk(b, v, a, where + "." + self.show(a, st))
                elif o.kind == "list":
                    for i, b in enumerate(o.xs):
                        walk(b, v, K(i), f"{where}[{i}]")
                elif self.isnode(c, st):
                    walk(c, v, None, where + "<boxed>")

        walk(root, parent, None, "$")
        return out

    def samekey(self, a, b, st):
        a, b = st.res(a), st.res(b)
        if a == b:
            return True
        if isinstance(a, S) or isinstance(b, S):
            f = st.facts.get(("eq", a, b), st.facts.get(("eq", b, a)))
            return f is not False and not (isinstance(a, S) and isinstance(b, S)) and False
        return False

    def show(self, v, st):
        v = st.res(v)
        if isinstance(v, K):
            return repr(v.v)
        if isinstance(v, S):
            return "<" + "|".join(e.name if isinstance(e, Atom) else repr(e.v) if isinstance(e, K) else "obj" for e in st.dom(v)) + ">"
        if isinstance(v, R):
            o = st.get(v)
            if o.kind == "inst":
                return cname(o.cls[0])
            return o.kind
        if isinstance(v, Cls):
            return v.c.name
        return repr(v)

    def excname(self, v, st):
        v = st.res(v)
        if isinstance(v, R) and st.get(v).kind == "inst":
            c = st.get(v).cls[0]
            return cname(c)
        return "?"

    def excnames(self, v, st):
        """names of the class of an exception and all its bases"""
        v = st.res(v)
        if isinstance(v, R) and st.get(v).kind == "inst":
            return [cname(b) for b in self.prog.lin(st.get(v).cls[0])]
        return []

    def exc_isa(self, v, name, st):
        v = st.res(v)
        c = st.get(v).cls[0]
        for b in self.prog.lin(c):
            if cname(b) == name:
                return True
        return False

    def effective_flag(self, n, name, st, init=False):
        """nearest value of a flag on the way to the root"""
        h = st.init if init else st.heap
        i = n.i
        while i is not None and i in h:
            o = h[i]
            md = st.res(o.attrs.get("_metadata", NONE))
            if isinstance(md, R):
                fl = st.res(h[md.i].attrs.get("flags", NONE))
                if isinstance(fl, R):
                    for a, b in h[fl.i].ents:
                        if a == K(name) and st.res(b) != NONE:
                            return st.res(b)
                if h[md.i].attrs.get("flags_root") == TRUE:
                    return NONE
            p = st.res(o.attrs.get("_parent", NONE))
            i = p.i if isinstance(p, R) else None
        return NONE

    # ------------------------------------------------------------ traces
    def trace(self, st, limit=60):
        out = []
        t = st.trace
        while t is not None:
            t, x = t
            out.append(x)
        out.reverse()
        return out

    def site(self, st, ids=None):
        """last write to a pre-existing object (one of ids, when given) on this path"""
        t = st.trace
        while t is not None:
            t, x = t
            if x[0] == "write" and x[4] not in self.IGNORED_ATTRS and (ids is None or x[1] in ids):
                return f"{x[2]}:{x[3]}"
        return None

    IGNORED_ATTRS = ("_flags_cache",)

    def changed(self, st, ids):
        """pre-existing objects whose own state differs from the pre-state"""
        out = set()
        for i in ids:
            a, b = st.init.get(i), st.heap.get(i)
            if a is None or b is None or a is b or a.kind != b.kind:
                continue
            if a.kind in ("inst", "opq"):
                ks = set(a.attrs) | set(b.attrs)
                if any(st.res(a.attrs.get(k, NONE)) != st.res(b.attrs.get(k, NONE)) for k in ks if k not in self.IGNORED_ATTRS):
                    out.add(i)
            elif a.kind == "dict":
                if [(st.res(x), st.res(y)) for x, y in a.ents] != [(st.res(x), st.res(y)) for x, y in b.ents]:
                    out.add(i)
            elif a.kind in ("list", "set"):
                if [st.res(x) for x in a.xs] != [st.res(x) for x in b.xs]:
                    out.add(i)
        return out

    def func_at(self, site):
        """qualified name of the function of the analysed package containing file:line"""
        if not site:
            return "?"
        file, line = site.rsplit(":", 1)
        line = int(line)
        best = None
        for mod, f in self.prog.modfile.items():
            if f == file or os.path.join(self.root, file) == f or f.endswith("/" + file) or file.endswith(f):
                tree = self.prog.trees.get(mod)
                if tree is None:
                    continue
                for q, nd in self._funcs(mod, tree):
                    if nd.lineno <= line <= nd.end_lineno and (best is None or nd.lineno >= best[1].lineno):
                        best = (q, nd)
        return best[0] if best else site

    def _funcs(self, mod, tree):
        if mod in self._fcache:
            return self._fcache[mod]
        out = []

        def walk(n, pre):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    q = pre + c.name
                    if not isinstance(c, ast.ClassDef):
                        out.append((q, c))
                    walk(c, q + ".")
                else:
                    walk(c, pre)

        walk(tree, "")
        self._fcache[mod] = out
        return out

    def describe(self, st, limit=80):
        """human-readable path: calls, branches and writes"""
        lines = []
        depth = 0
        for x in self.trace(st):
            if x[0] == "call":
                lines.append("  " * depth + f"-> {x[1]}  (from {x[2]}:{x[3]})")
                depth += 1
            elif x[0] == "ret":
                depth = max(0, depth - 1)
                if x[2] == "x":
                    lines.append("  " * depth + f"<- {x[1]} raises")
            elif x[0] == "write":
                if x[4] not in self.IGNORED_ATTRS:
                    lines.append("  " * depth + f"** writes {('.' + x[4] + ' of ') if x[4] else ''}a pre-existing object at {x[2]}:{x[3]}")
            else:
                lines.append("  " * depth + f"{x[0]}:{x[1]} {x[2]}")
        if len(lines) > limit:
            lines = lines[: limit // 4] + ["  ..."] + lines[-(limit * 3 // 4) :]
        return lines


# -------------------------------------------------------------------- typing of stored values
def _strip_optional(t):
    """-> (optional, type) of a type expression as the engine represents it"""
    import typing

    if isinstance(t, K) and typing.get_origin(t.v) is typing.Union and type(None) in typing.get_args(t.v):
        rest = tuple(a for a in typing.get_args(t.v) if a is not type(None))
        return True, K(typing.Union[rest] if len(rest) > 1 else rest[0])
    if isinstance(t, Ann) and isinstance(t.origin, K) and t.origin.v is typing.Union and K(type(None)) in t.args:
        rest = tuple(a for a in t.args if a != K(type(None)))
        return True, rest[0] if len(rest) == 1 else Ann(t.origin, rest)
    return False, t


LEAF_CLASS = {str: "StringNode", int: "IntegerNode", float: "FloatNode", bool: "BooleanNode", bytes: "BytesNode"}
LEAF_TYPE = {"StringNode": str, "IntegerNode": int, "FloatNode": float, "BooleanNode": bool, "BytesNode": bytes}


class Typing:
    """every node of a final state holds only what its declared type allows"""

    def __init__(self, lab, st):
        self.lab = lab
        self.st = st
        self.out = []

    def meta(self, n, name):
        return self.lab.attr(self.lab.attr(n, "_metadata", self.st), name, self.st)

    def special(self, n, v):
        if v == NONE:
            if self.meta(n, "optional") != TRUE:
                return "None in a field that is not optional"
            return None
        if v == MISS or v == A_INTERP:
            return None
        if isinstance(v, K) and isinstance(v.v, str) and "${" in v.v:
            return None
        return False

    def pytype(self, v):
        if isinstance(v, Atom):
            return v.pytype
        if isinstance(v, K):
            return type(v.v)
        return None

    def leaf(self, n, v, where):
        cls = self.lab.clsname(n, self.st)
        r = self.special(n, v)
        if r is None:
            return
        if r:
            self.out.append((where, "none", f"{r} at {where}"))
            return
        st = self.st
        if cls in LEAF_TYPE:
            if self.pytype(v) is not LEAF_TYPE[cls]:
                self.out.append((where, "type", f"{cls} at {where} holds {self.lab.show(v, st)}"))
        elif cls == "PathNode":
            if not (isinstance(v, R) and st.get(v).kind == "inst" and "Path" in cname(st.get(v).cls[0])):
                self.out.append((where, "type", f"PathNode at {where} holds {self.lab.show(v, st)}"))
        elif cls == "EnumNode":
            rt = self.meta(n, "ref_type")
            ok = isinstance(v, R) and st.get(v).kind == "inst" and isinstance(rt, Cls) and st.get(v).cls[0] is rt.c
            if not ok:
                self.out.append((where, "type", f"EnumNode at {where} holds {self.lab.show(v, st)}"))
        elif cls == "AnyNode":
            if self.lab.effective_flag(n, "allow_objects", st) == TRUE:
                return
            if isinstance(v, (T, Cls)) or isinstance(v, R) and not (st.get(v).kind == "inst" and (getattr(st.get(v).cls[0], "is_enum", False) or "Path" in cname(st.get(v).cls[0]))):
                self.out.append((where, "type", f"an untyped leaf at {where} holds {self.lab.show(v, st)}"))

    def dom(self, v):
        v = self.st.res(v)
        return self.st.dom(v) if isinstance(v, S) else (v,)

    def node(self, n, where, declared=None, seen=()):
        st, lab = self.st, self.lab
        n = st.res(n)
        if isinstance(n, S):
            for e in st.dom(n):
                if isinstance(e, R):
                    self.node(e, where, declared, seen)
            return
        if not lab.isnode(n, st) or n.i in seen:
            return
        seen = seen + (n.i,)
        if declared is not None:
            self.declared(n, declared, where)
        o = st.get(n)
        if "_val" in o.attrs:
            for v in self.dom(o.attrs["_val"]):
                self.leaf(n, v, where)
            return
        for c in self.dom(o.attrs.get("_content", NONE)):
            if not isinstance(c, R):
                r = self.special(n, c)
                if r:
                    self.out.append((where, "none", f"{r} at {where}"))
                elif r is False:
                    self.out.append((where, "type", f"container at {where} holds {lab.show(c, st)}"))
                continue
            co = st.get(c)
            if lab.isnode(c, st):  # union
                rt = self.meta(n, "ref_type")
                crt = self.meta(c, "ref_type")
                alts = self.alts(rt)
                if alts is not None and crt not in alts:
                    self.out.append((where, "union", f"the union field at {where} holds a {lab.clsname(c, st)}, which none of its types allows"))
                self.node(c, where, None, seen)
                continue
            et = self.meta(n, "element_type")
            et = None if et in (NONE,) or isinstance(et, K) and str(et.v) == "typing.Any" else et
            kt = self.meta(n, "key_type") if co.kind == "dict" else NONE
            ot = self.meta(n, "object_type")
            if isinstance(ot, S) and ot.i in LINKS:
                ot = LINKS[ot.i][2]  # this content goes with this type
            fields = self.fields(ot)
            if co.kind == "dict":
                for a, b in co.ents:
                    self.key(n, kt, a, where)
                    d = fields.get(st.res(a).v) if fields and isinstance(st.res(a), K) and isinstance(st.res(a).v, str) else None
                    self.node(b, where + "." + lab.show(a, st), et if et is not None else d, seen)
            elif co.kind == "list":
                for i, b in enumerate(co.xs):
                    self.node(b, f"{where}[{i}]", et, seen)
            rt = self.meta(n, "ref_type")
            if isinstance(rt, Cls) and isinstance(ot, Cls) and rt.c not in lab.prog.lin(ot.c):
                self.out.append((where, "class", f"the field at {where} is declared {rt.c.name} but holds a {ot.c.name}"))
            elif isinstance(rt, Cls) and not isinstance(ot, Cls) and lab.clsname(n, st) == "DictConfig":
                self.out.append((where, "class", f"the field at {where} is declared {rt.c.name} but holds a plain mapping"))

    KEYTYPES = (str, int, float, bool, bytes)

    def key(self, n, kt, a, where):
        st = self.st
        for k in self.dom(a):
            t = self.pytype(k)
            enum = isinstance(k, R) and st.get(k).kind == "inst" and getattr(st.get(k).cls[0], "is_enum", False)
            if not enum and t not in self.KEYTYPES:
                self.out.append((where, "key", f"a mapping at {where} has the key {self.lab.show(k, st)}"))
            elif isinstance(kt, K) and kt.v in self.KEYTYPES and t is not kt.v and not (kt.v is int and t is bool):
                self.out.append((where, "key", f"a mapping at {where} with keys of type {kt.v.__name__} has the key {self.lab.show(k, st)}"))
            elif isinstance(kt, Cls) and not (enum and st.get(k).cls[0] is kt.c):
                self.out.append((where, "key", f"a mapping at {where} with keys of type {kt.c.name} has the key {self.lab.show(k, st)}"))

    def alts(self, t):
        import typing

        _, t = _strip_optional(t)
        if isinstance(t, K) and typing.get_origin(t.v) is typing.Union:
            return [K(a) for a in typing.get_args(t.v)]
        if isinstance(t, Ann) and isinstance(t.origin, K) and t.origin.v is typing.Union:
            return list(t.args)
        return None

    def fields(self, ot):
        return self.lab.field_types.get(ot.c.name) if isinstance(ot, Cls) else None

    def declared(self, n, d, where):
        st, lab = self.st, self.lab
        opt, t = _strip_optional(d)
        rt = self.meta(n, "ref_type")
        cls = lab.clsname(n, st)
        if isinstance(t, K) and str(t.v) == "typing.Any":
            return
        if rt != t:
            self.out.append((where, "ref", f"the element at {where} is declared {t} but its node says {rt}"))
        want = None
        if isinstance(t, K) and t.v in LEAF_CLASS:
            want = LEAF_CLASS[t.v]
        elif isinstance(t, Cls) and t.c.is_enum:
            want = "EnumNode"
        elif isinstance(t, Cls):
            want = "DictConfig"
        elif self.alts(t):
            want = "UnionNode"
        elif isinstance(t, K) and "Path" in str(t.v):
            want = "PathNode"
        if want and cls != want:
            self.out.append((where, "class", f"the element at {where} is declared {t} but is stored as {cls}"))
        if (self.meta(n, "optional") == TRUE) != opt:
            self.out.append((where, "opt", f"the element at {where}: optional is {self.meta(n, 'optional')}, declared {opt}"))


def typing_problems(lab, root, st):
    t = Typing(lab, st)
    t.node(root, "$")
    return t.out


# -------------------------------------------------------------------- ownership
def owned(lab, st, roots, init=False):
    """ids of the mutable objects that make up configs / plain containers (parents are not followed)"""
    h = st.init if init else st.heap
    seen = {}
    todo = [(r, "$") for r in roots]
    while todo:
        v, w = todo.pop()
        v = st.res(v)
        if isinstance(v, S):
            todo.extend((e, w) for e in st.dom(v) if isinstance(e, (R, T)))
            continue
        if isinstance(v, T):
            todo.extend((x, w + "()") for x in v.xs)
            continue
        if not isinstance(v, R) or v.i in seen or v.i not in h:
            continue
        o = h[v.i]
        if o.kind == "dict":
            seen[v.i] = w
            todo.extend((b, f"{w}.{lab.show(a, st)}") for a, b in o.ents)
        elif o.kind in ("list", "set"):
            seen[v.i] = w
            todo.extend((b, f"{w}[{i}]") for i, b in enumerate(o.xs))
        elif o.kind == "inst":
            c0 = o.cls[0]
            if isinstance(c0, ClassInfo) and not c0.is_enum and (c0.is_dc or any(cname(c) == "Node" for c in lab.prog.lin(c0))):
                if c0.dc_frozen:
                    continue
                seen[v.i] = w
                for a, b in o.attrs.items():
                    if a not in ("_parent", "_flags_cache"):
                        todo.append((b, w if a == "_content" else w + "@" + a))
    return seen


def links(lab, st, roots, init):
    """parent link and key of every node below roots"""
    h = st.init if init else st.heap
    out = {}
    for i in owned(lab, st, roots, init):
        o = h.get(i)
        if o is not None and o.kind == "inst" and lab.isnode(R(i), st):
            out[i] = st.res(o.attrs.get("_parent", NONE))
    return out
