"""Summaries used in place of the bodies of a few functions (string formatting and the grammar)."""
import re

from .interp import A_FLOAT, A_INT, A_INTERP, A_STR, MISS
from .values import *  # noqa


def pure_str(name):
    def f(ip, fv, args, kwargs, st, fr):
        return [("n", st.sym((A_STR,), name), st)]

    return f


def install(ip, names=("type_str", "full_key")):
    S = ip.summaries
    if "type_str" in names:
        S["omegaconf._utils.type_str"] = pure_str("type_str")
    if "full_key" in names:
        for q in ("DictConfig._get_full_key", "ListConfig._get_full_key", "Node._get_full_key", "Container._get_full_key", "BaseContainer._get_full_key", "ValueNode._get_full_key", "UnionNode._get_full_key"):
            S[q] = pure_str("full_key")


# --------------------------------------------------------------------------- the grammar
# parse() and the parse-tree visitor are replaced by their contract: a text either fails to parse or
# yields a tree; visiting a tree evaluates its interpolations, left to right, through the two callbacks
# given to the visitor.  Literal interpolations of the client program are evaluated exactly; for an
# unknown text every alternative of the contract is taken.
_NODE = re.compile(r"\$\{\s*([\w.\[\]]+)\s*\}")
_RES = re.compile(r"\$\{\s*([\w.]+)\s*:\s*([^{}$]*)\}")


def parts_of(text):
    out = []
    i = 0
    while i < len(text):
        m = _NODE.match(text, i)
        if m:
            out.append(("node", m.group(1)))
            i = m.end()
            continue
        m = _RES.match(text, i)
        if m:
            a = m.group(2).strip()
            out.append(("res", m.group(1), tuple(x.strip() for x in a.split(",")) if a else ()))
            i = m.end()
            continue
        if text.startswith("${", i):
            return None
        if out and out[-1][0] == "text":
            out[-1] = ("text", out[-1][1] + text[i])
        else:
            out.append(("text", text[i]))
        i += 1
    return out


def prim(s):
    try:
        return K(int(s))
    except ValueError:
        return K({"null": None, "true": True, "false": False}.get(s.lower(), s))


def install_grammar(ip, keys=("a", "nokey")):
    """keys: what an interpolation of unknown text may refer to"""

    def gerr(st):
        ge = next((c for c in ip.prog.classes if c.name == "GrammarParseError"), None)
        return ip.raise_(ge if ge is not None else "Exception", st, K("parse error"))

    def parse(ip_, fv, args, kwargs, st, fr):
        v = st.res(args[0] if args else kwargs.get("value", NONE))
        if isinstance(v, S) and any(isinstance(e, K) and e != MISS for e in st.dom(v)):
            outs = []
            for v2, s2 in ip_.m.norm(v, st):
                outs.extend(parse(ip_, fv, [v2] + list(args[1:]), dict(kwargs, value=v2) if not args else kwargs, s2, fr) if not isinstance(v2, S) else parse_unknown(args, kwargs, s2))
            return outs
        rule = st.res(args[1] if len(args) > 1 else kwargs.get("parser_rule", K("configValue")))
        if rule == K("configValue") and isinstance(v, K) and isinstance(v.v, str):
            p = parts_of(v.v)
            if p is None:
                return gerr(st)
            return [("n", st.new(Opq("parsetree", {"text": v})), st)]
        return parse_unknown(args, kwargs, st)

    def parse_unknown(args, kwargs, st):
        rule = st.res(args[1] if len(args) > 1 else kwargs.get("parser_rule", K("configValue")))
        s2 = st.fork()
        return [("n", st.new(Opq("parsetree", {"unknown": rule})), st)] + gerr(s2)

    def cb(obj, name, args, st, fr):
        f = st.get(obj).attrs.get(name)
        if f is None:
            st.imp("visitor without " + name)
            return [("n", Top("visit"), st)]
        if name.startswith("node"):
            return ip.call(f, [args[0], st.get(obj).attrs.get("memo", NONE)], {}, st, fr)
        return ip.call(f, [], {"name": args[0], "args": args[1], "args_str": args[2]}, st, fr)

    def visit(a, kw, st, fr):
        obj, tree = a[0], st.res(a[1])
        at = st.get(tree).attrs if isinstance(tree, R) and st.get(tree).kind == "opq" and st.get(tree).name == "parsetree" else None
        if at is None:
            st.imp("unknown parse tree")
            return [("n", Top("visit"), st)]
        if "unknown" in at:
            outs = []
            if at["unknown"] != K("configValue"):
                return [("n", st.sym((NONE, TRUE, A_INT, A_FLOAT, A_STR), "decoded"), st)]
            for k in keys:
                outs.extend(cb(obj, "node_interpolation_callback", [K(k)], st.fork(), fr))
            ext = [("n", st.sym((A_STR,), "interpolated"), st)]
            return outs + ext
        ps = parts_of(at["text"].v)

        def one(p, s):
            if p[0] == "node":
                return cb(obj, "node_interpolation_callback", [K(p[1])], s, fr)
            return cb(obj, "resolver_interpolation_callback", [K(p[1]), T([prim(x) for x in p[2]]), T([K(x) for x in p[2]])], s, fr)

        if len(ps) == 1 and ps[0][0] != "text":
            return one(ps[0], st)
        cur = [st]
        outs = []
        for p in ps:
            if p[0] == "text":
                continue
            nx = []
            for s in cur:
                for t, v, s2 in one(p, s):
                    if t == "n":
                        nx.append(s2)
                    else:
                        outs.append((t, v, s2))
            cur = nx
        for s in cur:
            outs.append(("n", s.sym((A_STR,), "interpolated"), s))
        return outs

    ip.summaries["omegaconf.grammar_parser.parse"] = parse
    ip.m.ext["xbase:visit"] = visit


def install_yaml(ip):
    def loader(ip_, fv, args, kwargs, st, fr):
        return [("n", st.new(Opq("yamlloader")), st)]

    ip.summaries["omegaconf._utils.get_yaml_loader"] = loader


def install_split_key(ip):
    """an unknown key text stands for a single key component; literal keys are split by the analysed code"""

    def split(ip_, fv, args, kwargs, st, fr):
        k = st.res(args[0] if args else kwargs.get("key", NONE))
        if not isinstance(k, S):
            return None
        outs = []
        for v, s in ip_.m.norm(k, st):
            if isinstance(v, S):
                outs.append(("n", s.new(L([v])), s))
            else:
                outs.extend(ip_.call_fn(fv, [v], {}, s, fr))
        return outs

    ip.summaries["omegaconf._utils.split_key"] = split
