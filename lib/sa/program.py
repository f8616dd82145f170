"""Loading of the analysed program: module and class bodies are abstractly interpreted once."""
import ast
import collections.abc
import enum
import importlib
import os
import sys
import typing

from .interp import ClassInfo, Frame, FuncInfo, Interp
from .values import *  # noqa
from .values import State

EXTERNAL_PREFIX = ("omegaconf.grammar.gen", "omegaconf.vendor")
ABC_NAMES = ["Hashable", "Iterable", "Iterator", "Reversible", "Sized", "Container", "Collection", "Set", "MutableSet",
             "Mapping", "MutableMapping", "MappingView", "KeysView", "ItemsView", "ValuesView", "Sequence", "MutableSequence"]


def lift(v):
    if isinstance(v, tuple):
        return T([lift(x) for x in v])
    return K(v)


class Program:
    def __init__(self, root, package="omegaconf", extra=None):
        self.root = root
        self.package = package
        self.finfos = {}
        self.modenv = {}
        self.modfile = {}
        self.trees = {}
        self.classes = []
        self.class_envs = {}
        self.base_ids = set()
        self.abc = {}
        self.file_lines = {}
        self.st0 = State()
        self.extra = extra or {}  # module name -> source text of synthetic client modules
        self.ip = Interp(self)
        self.booting = True
        self.load_abc()
        self.load(package)
        for m in self.extra:
            self.load(m)
        self.booting = False
        self.base_ids = set(self.st0.heap)
        self.st0.trace = None
        self.st0.own = set()
        self.load_imprec = self.st0.imprec
        self.st0.imprec = ()
        for i, o in self.st0.heap.items():
            if o.kind != "env":
                self.st0.init[i] = o
        for e in list(self.modenv.values()) + [c.env for c in self.classes]:
            if e is not None and e in self.st0.heap:
                self.st0.init[e] = self.st0.heap[e]

    # -------------------------------------------------------------- loading
    def path_of(self, name):
        base = os.path.join(self.root, *name.split("."))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            return os.path.join(base, "__init__.py"), True
        if os.path.exists(base + ".py"):
            return base + ".py", False
        return None, False

    def is_program(self, name):
        if name in self.extra:
            return True
        if not (name == self.package or name.startswith(self.package + ".")):
            return False
        if name.startswith(EXTERNAL_PREFIX):
            return False
        return self.path_of(name)[0] is not None

    def load(self, name):
        if name in self.modenv:
            return
        parent = name.rpartition(".")[0]
        if parent and self.is_program(parent):
            self.load(parent)
        if name in self.modenv:
            return
        if name in self.extra:
            src, path = self.extra[name], f"<{name}>"
        else:
            path, _ = self.path_of(name)
            with open(path, encoding="utf-8") as f:
                src = f.read()
        rel = os.path.relpath(path, self.root) if not path.startswith("<") else path
        tree = ast.parse(src, path)
        self.trees[name] = tree
        self.modfile[name] = rel
        env = self.st0.new(Env({"__name__": K(name), "__file__": K(path)}))
        self.modenv[name] = env.i
        fr = Frame(None, None, name, None, rel, None)
        self.run_body(tree.body, fr)
        if parent and parent in self.modenv:
            vs = self.st0.mut(R(self.modenv[parent])).vars
            vs.setdefault(name.rpartition(".")[2], Mod(name))

    def run_body(self, body, fr):
        """module body: statement by statement, keeping one normal outcome"""
        for s in body:
            keep = self.st0
            try:
                outs = self.ip.ex([s], fr, keep)
            except RecursionError:
                raise
            ok = [o for o in outs if o[0] == "n"]
            if ok:
                self.adopt(ok[0][2])
            elif outs:
                self.adopt(outs[0][2])

    def adopt(self, st):
        if st is not self.st0:
            o = self.st0
            for a in State.__slots__:
                setattr(o, a, getattr(st, a))

    def load_abc(self):
        import _collections_abc

        path = _collections_abc.__file__
        with open(path) as f:
            tree = ast.parse(f.read(), path)
        name = "_collections_abc"
        env = self.st0.new(Env({"__name__": K("collections.abc")}))
        self.modenv[name] = env.i
        self.modfile[name] = path
        fr0 = Frame(None, None, name, None, path, None)
        for s in tree.body:
            if isinstance(s, ast.ClassDef) and s.name in ABC_NAMES:
                real = getattr(collections.abc, s.name)
                ci = ClassInfo(s.name, name)
                ci.node = s
                ci.mro = [ci]
                cenv = self.st0.new(Env({}))
                ci.env = cenv.i
                self.class_envs[cenv.i] = ci
                fr = Frame(cenv.i, None, name, ci, path, None)
                for b in s.body:
                    if isinstance(b, ast.FunctionDef):
                        abstract = any(isinstance(d, ast.Name) and d.id == "abstractmethod" for d in b.decorator_list)
                        if abstract:
                            continue
                        decs = [d.id for d in b.decorator_list if isinstance(d, ast.Name)]
                        r = self.ip.mkfn(b, fr, self.st0, b.name)
                        f = r[0][1]
                        if "classmethod" in decs:
                            f = Wrap("classm", f)
                        self.st0.mut(cenv).vars[b.name] = f
                    elif isinstance(b, ast.Assign) and isinstance(b.targets[0], ast.Name):
                        nm = b.targets[0].id
                        if nm == "__marker":
                            o = self.st0.new(Opq("marker"))
                            self.st0.mut(cenv).vars["__marker"] = o
                            self.st0.mut(cenv).vars[f"_{s.name}__marker"] = o
                        elif isinstance(b.value, ast.Constant):
                            self.st0.mut(cenv).vars[nm] = K(b.value.value)
                        elif isinstance(b.value, ast.Name) and b.value.id in self.st0.heap[cenv.i].vars:
                            self.st0.mut(cenv).vars[nm] = self.st0.heap[cenv.i].vars[b.value.id]
                self.abc[real] = ci
                if s.name in ("KeysView", "ItemsView", "ValuesView"):
                    bases = [self.abc[collections.abc.MappingView]]
                    ci.mro = [ci] + bases + [real]
                    self.st0.mut(env).vars[s.name] = Cls(ci)
                else:
                    self.st0.mut(env).vars[s.name] = K(real)

    # -------------------------------------------------------------- names
    def module_var(self, mod, name, st):
        e = self.modenv.get(mod)
        if e is None:
            return None
        o = st.heap.get(e) or self.st0.heap.get(e)
        return o.vars.get(name)

    def set_module_var(self, mod, name, v, st):
        e = self.modenv.get(mod)
        if e is not None:
            st.mut(R(e)).vars[name] = v

    def outer_env(self, env, st):
        while env is not None and env in self.class_envs:
            env = st.heap[env].parent
        return env

    def import_module(self, name, level, frm):
        if self.is_program(name):
            self.load(name)
            return Mod(name)
        return X(name)

    def import_from(self, module, level, name, frm, st):
        if level:
            pk = frm.split(".")
            ispkg = frm not in self.extra and self.path_of(frm)[1]
            drop = level - (1 if ispkg else 0)
            base = pk[: len(pk) - drop] if drop else pk
            full = ".".join(base + ([module] if module else []))
        else:
            full = module
        if self.is_program(full):
            self.load(full)
            v = self.module_var(full, name, st)
            if v is not None:
                return v
            sub = full + "." + name
            if self.is_program(sub):
                self.load(sub)
                return Mod(sub)
            return X(full + "." + name)
        return self.ext_attr(full, name)

    def ext_attr(self, mod, name):
        top = mod.split(".")[0]
        if top in sys.stdlib_module_names and top not in ("antigravity", "this"):
            try:
                m = importlib.import_module(mod)
            except ImportError:
                return X(mod + "." + name)
            if hasattr(m, name):
                o = getattr(m, name)
                if isinstance(o, type) or top == "typing" or isinstance(o, (str, int, tuple, float)):
                    if top == "typing" and callable(o) and type(o).__name__ == "function":
                        return X(mod + "." + name)
                    if isinstance(o, type) and (mod, name) in (("contextlib", "nullcontext"),):
                        return X(mod + "." + name)
                    return lift(o)
        return X(mod + "." + name)

    # -------------------------------------------------------------- classes
    def find_class(self, name):
        for c in self.classes:
            if c.name == name:
                return c
        return None

    def find_classes(self):
        return {c.name: c for c in self.classes}

    def class_defaults(self, cls, st):
        return {}

    def lin(self, c):
        if isinstance(c, ClassInfo):
            return list(c.mro)
        if isinstance(c, type):
            return list(c.__mro__)
        return [c]

    def c3(self, ci, bases):
        seqs = [self.lin(b) for b in bases] + [list(bases)]
        res = [ci]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                break
            for s in seqs:
                cand = s[0]
                if not any(cand in t[1:] for t in seqs):
                    break
            else:
                cand = seqs[0][0]
            res.append(cand)
            for s in seqs:
                if cand in s:
                    s.remove(cand)
        if object not in res:
            res.append(object)
        return res

    def exec_classdef(self, ip, s, fr, st):
        outs = []
        for tag, bs, x in ip.evs(list(s.bases), fr, st):
            if tag != "n":
                outs.append((tag, bs, x))
                continue
            ci = ClassInfo(s.name, fr.module)
            ci.node = s
            ci.qual = (fr.cls.qual + "." if fr.cls is not None else "") + s.name
            bases = []
            for b in bs:
                b = x.res(b)
                if isinstance(b, Cls):
                    bases.append(b.c)
                elif isinstance(b, K):
                    o = b.v
                    if not isinstance(o, type):
                        o = typing.get_origin(o) or o
                    if o is typing.Generic:
                        continue
                    bases.append(o)
                elif isinstance(b, Ann):
                    o = b.origin
                    bases.append(o.c if isinstance(o, Cls) else o.v)
                else:
                    bases.append(("X", getattr(b, "name", "?")))
            ci.bases = bases
            ci.orig_bases = tuple(bs)
            ci.mro = self.c3(ci, bases)
            ci.is_enum = enum.Enum in ci.mro
            env = x.new(Env({"__qualname__": K(ci.qual), "__module__": K(fr.module)}, fr.env))
            ci.env = env.i
            self.class_envs[env.i] = ci
            self.classes.append(ci)
            f2 = Frame(env.i, None, fr.module, ci, fr.file, fr)
            f2.fn = None
            # functions nested in functions need the enclosing env
            res = ip.ex(s.body, f2, x)
            for t2, v2, s2 in res[:1]:
                if t2 != "n":
                    outs.append((t2, v2, s2))
                    continue
                cv = Cls(ci)
                if ci.is_enum:
                    self.make_enum(ci, s, s2)
                if any(isinstance(b, ClassInfo) and b.is_dc for b in bases):
                    ci.fields = [f for b in bases if isinstance(b, ClassInfo) and b.fields for f in b.fields]
                    ci.is_dc = True
                for d in reversed(s.decorator_list):
                    r = ip.ev(d, f2, s2)
                    if r and r[0][0] == "n":
                        rr = ip.m.decorate(r[0][1], cv, r[0][2], f2)
                        if rr:
                            s2 = rr[0][2]
                            if rr[0][0] == "n":
                                cv = rr[0][1]
                ip.bindname(s.name, cv, fr, s2)
                outs.append(("n", NONE, s2))
        return outs

    def make_enum(self, ci, s, st):
        vs = st.mut(R(ci.env)).vars
        for b in s.body:
            if isinstance(b, ast.Assign) and isinstance(b.targets[0], ast.Name):
                nm = b.targets[0].id
                if nm.startswith("_"):
                    continue
                val = vs.get(nm)
                m = st.new(Inst((ci,), {"name": K(nm), "value": val, "_name_": K(nm), "_value_": val}))
                ci.members[nm] = m
                vs[nm] = m

    def make_dataclass(self, ci, st, ip, frozen=False):
        fields = []
        for b in ci.bases:
            if isinstance(b, ClassInfo) and b.fields:
                fields.extend(b.fields)
        vs = st.heap[ci.env].vars
        for b in ci.node.body:
            if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                nm = b.target.id
                ann = b.annotation
                if "ClassVar" in ast.dump(ann):
                    continue
                fields = [f for f in fields if f[0] != nm]
                fields.append((nm, ann, vs.get(nm) if b.value is not None else None, ci))
        ci.fields = fields
        ci.is_dc = True
        ci.dc_frozen = frozen
