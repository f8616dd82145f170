# Client program of the analysed package.  This text is never executed: the abstract interpreter
# reads it as part of the analysed program (entry points, user-defined classes, initial configs).
from dataclasses import dataclass, field
from enum import Enum
from typing import Any, Dict, List, Optional, Tuple, Union

import copy
from pathlib import Path

from omegaconf.base import Metadata
from omegaconf import (
    AnyNode,
    BooleanNode,
    BytesNode,
    DictConfig,
    EnumNode,
    FloatNode,
    IntegerNode,
    ListConfig,
    ListMergeMode,
    OmegaConf,
    PathNode,
    SCMode,
    StringNode,
    UnionNode,
    flag_override,
    open_dict,
    read_write,
)


class Color(Enum):
    RED = 1
    GREEN = 2


class Foo:
    pass


@dataclass
class Addr:
    street: str = "x"
    no: int = 1


@dataclass
class User:
    name: str = "n"
    age: Optional[int] = None
    addr: Addr = field(default_factory=Addr)
    lst: List[int] = field(default_factory=lambda: [1, 2])
    dct: Dict[str, int] = field(default_factory=lambda: {"k": 1})
    u: Union[int, str] = 1


@dataclass(frozen=True)
class Froz:
    q: int = 1
    sub: Addr = field(default_factory=Addr)


# ---------------------------------------------------------------- initial configs
def s_dict():
    return OmegaConf.create({"a": 1, "b": {"x": 1, "y": 2}, "c": [1, {"z": 1}]})


def s_list():
    return OmegaConf.create([1, {"x": 1}, [1, 2]])


def s_struct():
    return OmegaConf.structured(User)


def s_typed_dict():
    return OmegaConf.create({"t": DictConfig({"k": 1, "m": 2}, key_type=str, element_type=int)})


def s_typed_list():
    return OmegaConf.create({"t": ListConfig([1, 2], element_type=int)})


def s_dict_of_user():
    return OmegaConf.create({"t": DictConfig({"k": Addr}, element_type=Addr)})


def s_empty():
    return OmegaConf.create({"d": {}, "l": []})


def s_short():
    return OmegaConf.create({"l": [1], "e": [], "d": {"x": 1}, "ed": {}})


def s_elsewhere():
    return OmegaConf.create({"n": 1, "d": {"e": 1}, "l": [1]})


def set_flag(t, name, val):
    OmegaConf.set_flag if False else None
    t._set_flag(name, val)


def set_ro(t):
    OmegaConf.set_readonly(t, True)


def set_rw(t):
    OmegaConf.set_readonly(t, False)


def set_struct(t, v):
    OmegaConf.set_struct(t, v)


# ---------------------------------------------------------------- mutators
def m_setitem(t, k, v):
    t[k] = v


def m_setattr(t, k, v):
    setattr(t, k, v)


def m_delitem(t, k, v):
    del t[k]


def m_delattr(t, k, v):
    delattr(t, k)


def m_pop(t, k, v):
    t.pop(k)


def m_pop_default(t, k, v):
    t.pop(k, v)


def m_popitem(t, k, v):
    t.popitem()


def m_clear(t, k, v):
    t.clear()


def m_setdefault(t, k, v):
    t.setdefault(k, v)


def m_update(t, k, v):
    t.update({k: v})


def m_update_kw(t, k, v):
    t.update(a=v)


def m_merge_with(t, k, v):
    t.merge_with(v)


def m_merge_with_key(t, k, v):
    t.merge_with({k: v})


def m_ior(t, k, v):
    t |= {k: v}


def m_append(t, k, v):
    t.append(v)


def m_insert(t, k, v):
    t.insert(k, v)


def m_extend(t, k, v):
    t.extend([v])


def m_iadd(t, k, v):
    t += [v]


def m_remove(t, k, v):
    t.remove(v)


def m_lpop(t, k, v):
    t.pop()


def m_sort(t, k, v):
    t.sort()


def m_reverse(t, k, v):
    t.reverse()


def m_setslice(t, k, v):
    t[0:1] = [v]


def m_delslice(t, k, v):
    del t[0:1]


def m_delslice_back(t, k, v):
    del t[::-1]


def m_delslice_step(t, k, v):
    del t[0::2]


def m_delslice_tail(t, k, v):
    del t[-1:]


def m_delslice_none(t, k, v):
    del t[9:]


def m_setslice_all(t, k, v):
    t[:] = [v, v]


def m_setslice_end(t, k, v):
    t[9:] = [v]


def m_setslice_step(t, k, v):
    t[0::9] = [v]


def m_sort_reverse(t, k, v):
    t.sort(reverse=True)


def m_extend_empty(t, k, v):
    t.extend([])


def m_extend_two(t, k, v):
    t.extend((v, v))


def m_oc_update_force(t, k, v):
    OmegaConf.update(t, k, v, force_add=True)


def m_oc_update(t, k, v):
    OmegaConf.update(t, k, v)


def m_oc_update_merge(t, k, v):
    OmegaConf.update(t, k, v, merge=True)


def m_oc_update_nomerge(t, k, v):
    OmegaConf.update(t, k, v, merge=False)


def m_resolve(t, k, v):
    OmegaConf.resolve(t)


def m_merge_dotlist(t, k, v):
    t.merge_with_dotlist(["a=1"])


def m_merge_list(t, k, v):
    t.merge_with([v])


def m_merge_extend(t, k, v):
    t._merge_with([v], list_merge_mode=ListMergeMode.EXTEND)


# ---------------------------------------------------------------- argument values
def v_node():
    return AnyNode(1)


def v_intnode():
    return IntegerNode(1)


def v_cfg():
    return OmegaConf.create({"o": {"a": 1}}).o


def v_lcfg():
    return OmegaConf.create({"o": [1]}).o


def v_childnode():
    return OmegaConf.create({"o": {"a": 1}}).o._get_node("a")


def v_userobj():
    return Addr()


def v_nonecfg():
    return DictConfig(None)


def v_nonelist():
    return ListConfig(None)


def v_interpcfg():
    return DictConfig("${zz}")


def v_missingcfg():
    return DictConfig("???")


def v_flagcfg():
    return DictConfig({}, flags={"readonly": False, "struct": True})


def v_flaglist():
    return ListConfig("???", flags={"readonly": False, "struct": True})


def v_flaglist2():
    return ListConfig([], flags={"readonly": False})


@dataclass
class Nothing:
    pass


def v_emptyobj():
    return Nothing()


def v_typedmiss():
    return ListConfig("???", element_type=int)


def v_objmiss():
    return DictConfig("???", ref_type=Addr)


def v_typedempty():
    return DictConfig({}, ref_type=Dict[str, int], key_type=str, element_type=int)


# ---------------------------------------------------------------- typed set-ups
@dataclass
class Leafs:
    s: str = "x"
    i: int = 1
    f: float = 1.5
    b: bool = True
    by: bytes = b"x"
    p: Path = Path("p")
    e: Color = Color.RED
    oi: Optional[int] = 1
    os: Optional[str] = "x"
    u: Union[int, str] = 1
    ou: Optional[Union[bool, float]] = None
    anyv: Any = 1


@dataclass
class Conts:
    li: List[int] = field(default_factory=lambda: [1])
    lo: List[Optional[str]] = field(default_factory=lambda: ["x"])
    df: Dict[str, float] = field(default_factory=lambda: {"k": 1.5})
    de: Dict[str, Color] = field(default_factory=lambda: {"k": Color.RED})
    a: Addr = field(default_factory=Addr)
    oa: Optional[Addr] = None
    la: List[Addr] = field(default_factory=lambda: [Addr()])
    da: Dict[str, Addr] = field(default_factory=lambda: {"k": Addr()})
    dd: Dict[str, Dict[str, int]] = field(default_factory=lambda: {"k": {"q": 1}})
    lu: List[Union[int, bool]] = field(default_factory=lambda: [1])


@dataclass
class SubAddr(Addr):
    extra: int = 1


@dataclass
class DeepT:
    ld: List[Dict[str, Addr]] = field(default_factory=lambda: [{"k": Addr()}])
    dl: Dict[str, List[Addr]] = field(default_factory=lambda: {"k": [Addr()]})
    do: Dict[str, Optional[Dict[str, Addr]]] = field(default_factory=lambda: {"k": {"q": Addr()}})
    ll: List[List[int]] = field(default_factory=lambda: [[1]])


def s_deept():
    return OmegaConf.structured(DeepT)


def v_frozcfg():
    return OmegaConf.structured(Froz)


def v_nfrozcfg():
    return DictConfig({"k": Froz()})


def v_lfrozcfg():
    return ListConfig([Froz()])


def v_plaincfg():
    return DictConfig({"k": {"no": 1}})


def v_plainlist():
    return ListConfig([{"no": 1}])


def v_badplain():
    return DictConfig({"k": {"zz": 1}})


def v_badplainl():
    return ListConfig([{"zz": 1}])


def v_intcfg():
    return DictConfig({"k": DictConfig({"no": 1}, element_type=int)})


def v_ldplain():
    return ListConfig([{"k": {"zz": 1}}])


def v_subcfg():
    return DictConfig({"k": SubAddr()})


def v_dictobj():
    return {"k": Froz()}


def v_listobj():
    return [Froz()]


def s_leafs():
    return OmegaConf.structured(Leafs)


def s_conts():
    return OmegaConf.structured(Conts)


def v_subobj():
    return SubAddr()


def v_numstr():
    return "12"


def set_convert(t, v):
    t._set_flag("convert", v)


def set_objects(t, v):
    t._set_flag("allow_objects", v)


def n_set_value(t, k, v):
    t._get_node(k)._set_value(v)


def c_any(t, k, v):
    return AnyNode(v)


def c_string(t, k, v):
    return StringNode(v, is_optional=k)


def c_integer(t, k, v):
    return IntegerNode(v, is_optional=k)


def c_float(t, k, v):
    return FloatNode(v, is_optional=k)


def c_boolean(t, k, v):
    return BooleanNode(v, is_optional=k)


def c_bytes(t, k, v):
    return BytesNode(v, is_optional=k)


def c_path(t, k, v):
    return PathNode(v, is_optional=k)


def c_enum(t, k, v):
    return EnumNode(Color, v, is_optional=k)


def c_union(t, k, v):
    return UnionNode(v, ref_type=Union[int, str], is_optional=k)


def c_union2(t, k, v):
    return UnionNode(v, ref_type=Union[bool, Color], is_optional=k)


def c_list_int(t, k, v):
    return ListConfig([v], element_type=int)


def c_dict_float(t, k, v):
    return DictConfig({"k": v}, key_type=str, element_type=float)


def c_dict_ref(t, k, v):
    return DictConfig(v, ref_type=Addr, is_optional=k)


def c_list_ref(t, k, v):
    return ListConfig(v, ref_type=List[int], element_type=int, is_optional=k)


def c_structured_int(t, k, v):
    return OmegaConf.structured(Leafs(i=v))


def c_structured_union(t, k, v):
    return OmegaConf.structured(Leafs(u=v))


def c_structured_addr(t, k, v):
    return OmegaConf.structured(Conts(a=v))


def s_keyed():
    return OmegaConf.create(
        {
            "i": DictConfig({1: 1}, key_type=int, element_type=Any),
            "f": DictConfig({1.5: 1}, key_type=float, element_type=Any),
            "b": DictConfig({True: 1}, key_type=bool, element_type=Any),
            "by": DictConfig({b"k": 1}, key_type=bytes, element_type=Any),
            "s": DictConfig({"k": 1}, key_type=str, element_type=int),
            "any": DictConfig({"k": 1, 1: 2}),
            "e": DictConfig({Color.RED: 1}, key_type=Color, element_type=Any),
        }
    )


def k_roundtrip(t, k, v):
    t[k] = 5
    return (k in t, t[k], t.get(k), t.setdefault(k, 6), len(t))


def k_rawread(t, k, v):
    return t[k]


def k_get(t, k, v):
    return t.get(k, 77)


def k_in(t, k, v):
    return k in t


def k_pop(t, k, v):
    return t.pop(k, 77)


def k_literal(t, k, v):
    return DictConfig({k: 5}, key_type=t._metadata.key_type, element_type=Any)


def k_merge_new(t, k, v):
    return OmegaConf.merge(t, {k: 5})


# ---------------------------------------------------------------- readers
def r_getitem(t, k, v):
    return t[k]


def r_getattr(t, k, v):
    return getattr(t, k)


def r_get(t, k, v):
    return t.get(k)


def r_get_default(t, k, v):
    return t.get(k, v)


def r_in(t, k, v):
    return k in t


def r_len(t, k, v):
    return (len(t), bool(t))


def r_iter(t, k, v):
    return [x for x in t]


def r_keys(t, k, v):
    return list(t.keys())


def r_values(t, k, v):
    return list(t.values())


def r_items(t, k, v):
    return list(t.items())


def r_items_ex(t, k, v):
    return list(t.items_ex(resolve=False))


def r_eq_self(t, k, v):
    return t == t


def r_eq(t, k, v):
    return t == v


def r_ne(t, k, v):
    return t != v


def r_hash(t, k, v):
    return hash(t)


def r_str(t, k, v):
    return str(t)


def r_repr(t, k, v):
    return repr(t)


def r_dir(t, k, v):
    return dir(t)


def r_slice(t, k, v):
    return t[0:1]


def r_index(t, k, v):
    return t.index(v)


def r_count(t, k, v):
    return t.count(v)


def r_add(t, k, v):
    return t + [v]


def r_radd(t, k, v):
    return [v] + t


def r_copy(t, k, v):
    return t.copy()


def r_copycopy(t, k, v):
    return copy.copy(t)


def r_deepcopy(t, k, v):
    return copy.deepcopy(t)


def r_masked(t, k, v):
    return OmegaConf.masked_copy(t, k)


def r_to_container(t, k, v):
    return OmegaConf.to_container(t)


def r_to_container_resolve(t, k, v):
    return OmegaConf.to_container(t, resolve=True)


def r_to_container_throw(t, k, v):
    return OmegaConf.to_container(t, resolve=True, throw_on_missing=True)


def r_to_object(t, k, v):
    return OmegaConf.to_object(t)


def r_to_container_dictconfig(t, k, v):
    return OmegaConf.to_container(t, structured_config_mode=SCMode.DICT_CONFIG)


def r_to_yaml(t, k, v):
    return OmegaConf.to_yaml(t)


def r_to_yaml_resolve(t, k, v):
    return OmegaConf.to_yaml(t, resolve=True)


def r_select(t, k, v):
    return OmegaConf.select(t, k)


def r_select_default(t, k, v):
    return OmegaConf.select(t, k, default=v, throw_on_missing=True)


def r_is_missing(t, k, v):
    return OmegaConf.is_missing(t, k)


def r_is_interpolation(t, k, v):
    return OmegaConf.is_interpolation(t, k)


def r_missing_keys(t, k, v):
    return OmegaConf.missing_keys(t)


def r_get_type(t, k, v):
    return (OmegaConf.get_type(t), OmegaConf.is_dict(t), OmegaConf.is_list(t), OmegaConf.is_config(t))


def r_flags(t, k, v):
    return (OmegaConf.is_readonly(t), OmegaConf.is_struct(t))


def r_full_key(t, k, v):
    return t._get_full_key(k)


def r_merge(t, k, v):
    return OmegaConf.merge(t, v)


def r_merge_key(t, k, v):
    return OmegaConf.merge(t, {k: v})


def r_merge_into(t, k, v):
    return OmegaConf.merge(v, t)


def r_create(t, k, v):
    return OmegaConf.create(t)


def r_create_dict(t, k, v):
    return OmegaConf.create({"o": t})


def r_dictconfig(t, k, v):
    return DictConfig(t)


def r_listconfig(t, k, v):
    return ListConfig(t)


def r_getstate(t, k, v):
    return t.__getstate__()


def r_from_cfg_args(t, k, v):
    return OmegaConf.create(v)


def r_structured(t, k, v):
    return OmegaConf.structured(v)


def r_create_in(t, k, v):
    return OmegaConf.create({"o": v, "l": [v]})


def r_dictconfig_v(t, k, v):
    return DictConfig({"o": v})


def r_listconfig_v(t, k, v):
    return ListConfig([v, v])


def r_from_dotlist(t, k, v):
    return OmegaConf.from_dotlist(v)


def r_merge3(t, k, v):
    return OmegaConf.merge(t, v, t)


def m_setattr_twice(t, k, v):
    t[k] = v
    t[k] = v


def m_append_twice(t, k, v):
    t.append(v)
    t.append(v)


def v_nested():
    return {"a": {"x": [1, {"y": 1}]}, "b": OmegaConf.create({"q": [1]})}


def v_nestedlist():
    return [[1], {"y": 1}, OmegaConf.create({"q": [1]})]


def v_holder():
    return Conts(a=Addr(no=3))


def v_nodeobj():
    return Addr(no=IntegerNode(3))


def v_badobj():
    return Addr(no="zz")


def v_badcfg():
    return OmegaConf.create({"no": "zz", "k": "zz"})


def v_badlcfg():
    return ListConfig(["zz"])


def v_baddict():
    return {"no": "zz", "k": "zz"}


class Uncopyable:
    def __deepcopy__(self, memo):
        raise RuntimeError("cannot be copied")


def v_uncopy():
    c = OmegaConf.create({"a": 1})
    OmegaConf.get_cache(c)["r"]["x"] = Uncopyable()
    return c


def v_bigint():
    return 10**400


def touch(t):
    """fills the flag caches"""
    OmegaConf.is_readonly(t)
    OmegaConf.is_struct(t)


def s_uncopy():
    """a config with a part that cannot be copied"""
    c = OmegaConf.create({"a": {"b": {"r": 1}, "x": "${top}"}, "l": [1, {"z": 1}], "top": 5})
    OmegaConf.get_cache(c.a.b)["r"]["k"] = Uncopyable()
    OmegaConf.get_cache(c.l[1])["r"]["k"] = Uncopyable()
    return c


@dataclass
class BadHolder:
    a: Addr = field(default_factory=Addr)
    n: Any = 1


def s_fails():
    """a config whose conversion to objects fails half-way"""
    return OmegaConf.create({"a": {"x": 1, "bad": "${nope}", "y": 2}, "l": [1, "${nope}", 2], "m": {"k": "???"}})


# ---------------------------------------------------------------- flags
def touch_all(t):
    """fills the flag caches of a node and everything below it"""
    t._get_flag("readonly")
    t._get_flag("struct")
    t._get_flag("allow_objects")
    if isinstance(t, (DictConfig, ListConfig)):
        c = t.__dict__["_content"]
        for x in c.values() if isinstance(c, dict) else c if isinstance(c, list) else ():
            touch_all(x)


def f_set(t, k, v):
    t._set_flag(k, v)


def f_set_two(t, k, v):
    t._set_flag(["readonly", "struct"], [v, None])


def f_set_both(t, k, v):
    t._set_flag(["readonly", "struct"], v)


def f_readonly(t, k, v):
    OmegaConf.set_readonly(t, v)


def f_struct(t, k, v):
    OmegaConf.set_struct(t, v)


def f_flags_root(t, k, v):
    t._set_flags_root(v)


def f_read(t, k, v):
    return (OmegaConf.is_readonly(t), OmegaConf.is_struct(t), t._get_flag("allow_objects"), t._get_node_flag(k))


def x_read_write(t, k, v):
    with read_write(t):
        t[k] = v


def x_open_dict(t, k, v):
    with open_dict(t):
        t[k] = v


def x_override(t, k, v):
    with flag_override(t, ["readonly", "struct"], [False, True]):
        t[k] = v


def x_override_one(t, k, v):
    with flag_override(t, "readonly", v):
        touch_all(t)
        t[k]


def x_override_none(t, k, v):
    with flag_override(t, ["struct", "readonly"], None):
        t[k]


def x_nested(t, k, v):
    with read_write(t):
        with open_dict(t):
            with flag_override(t, "struct", True):
                touch_all(t)
                t[k] = v


def x_return(t, k, v):
    with read_write(t):
        with open_dict(t):
            return t[k]


def x_inner_set(t, k, v):
    with read_write(t):
        OmegaConf.set_readonly(t, True)
        touch_all(t)


def v_tcfg():
    c = OmegaConf.create({"o": {"a": 1, "s": {"q": 1}}}, flags={"readonly": True, "struct": True})
    touch_all(c)
    return c.o


def v_tlcfg():
    c = OmegaConf.create({"o": [1, {"q": 1}]}, flags={"readonly": True})
    touch_all(c)
    return c.o


# ---------------------------------------------------------------- access protocol
@dataclass
class Acc:
    v: int = 1
    n: Optional[int] = None
    m: int = "???"
    i: int = "${v}"
    ib: Any = "${nope}"
    im: Any = "${m}"
    ni: Any = "${n}"
    d: Addr = field(default_factory=Addr)
    dn: Optional[Addr] = None
    dm: Addr = "???"
    di: Addr = "${d}"
    u: Union[int, str] = 1
    um: Union[int, str] = "???"
    un: Optional[Union[int, str]] = None
    ui: Union[int, str] = "${v}"
    lm: List[int] = "???"
    ln: Optional[List[int]] = None


def s_acc():
    return OmegaConf.create(
        {
            "v": 1,
            "n": None,
            "m": "???",
            "i": "${v}",
            "ib": "${nope}",
            "im": "${m}",
            "ni": "${n}",
            "d": {"x": 1},
            "dn": DictConfig(None),
            "dm": DictConfig("???"),
            "di": DictConfig("${d}"),
            "db": DictConfig("${nope.x}"),
            "l": [1],
            "ln": ListConfig(None),
            "lm": ListConfig("???"),
            "li": ListConfig("${l}"),
            "t": IntegerNode(1),
            "tm": IntegerNode("???"),
            "ti": IntegerNode("${v}"),
            "ts": StringNode("${v}"),
            "tb": IntegerNode("${d}"),
            "z": 0,
            "e": "",
            "f": False,
            "de": {},
            "le": [],
            "dim": DictConfig("${dm}"),
            "lim": ListConfig("${lm}"),
            "din": DictConfig("${dn}"),
            "lb": ListConfig("${nope}"),
            "ii": "${i}",
            "iib": "${ib}",
            "iim": "${im}",
            "rel": "${.v}",
            "up": "${..v}",
            "dx": "${d.x}",
            "lx": "${l.0}",
            "i2m": DictConfig("${dim}"),
            "ie": "${e}",
            "iz": "${z}",
            "tz": IntegerNode(0),
            "tf": BooleanNode(False),
            "tn": FloatNode(None),
            "ty": BytesNode(b"x"),
            "tym": BytesNode("???"),
            "ten": EnumNode(Color, Color.RED),
            "tem": EnumNode(Color, "???"),
        }
    )


def s_acc_ed():
    return OmegaConf.create({"v": 1, "m": "???", "n": None, "c": DictConfig({"v": 1, "z": 0, "n": None, "m": "???", "i": "${v}", "ib": "${nope}", "im": "${m}", "ni": "${n}"}, element_type=Optional[int])})


def s_acc_edd():
    return OmegaConf.create({"v": {"x": 1}, "m": DictConfig("???"), "c": DictConfig({"v": {"x": 1}, "e": {}, "n": None, "m": "???", "i": "${v}", "ib": "${nope}", "im": "${m}"}, element_type=Optional[Dict[str, int]])})


def s_acc_ik():
    return OmegaConf.create({"v": 1, "m": "???", "n": None, "c": DictConfig({0: 1, 1: None, 2: "???", 3: "${v}", 4: "${nope}", 5: "${m}", 6: {"x": 1}, 7: DictConfig("???")}, key_type=int)})


def s_acc_el():
    return OmegaConf.create({"v": 1, "m": "???", "n": None, "c": ListConfig([1, 0, None, "???", "${v}", "${nope}", "${m}", "${n}"], element_type=Optional[int])})


def s_acc_struct():
    return OmegaConf.structured(Acc)


def s_acc_list():
    return OmegaConf.create({"v": 1, "m": "???", "n": None, "l": [1, None, "???", "${v}", "${nope}", "${m}", "${n}", {"x": 1}, DictConfig(None), DictConfig("???"), ListConfig("???"), ListConfig("${l2}")], "l2": [1]})


def r_pop(t, k, v):
    return t.pop(k)


def r_pop_default(t, k, v):
    return t.pop(k, v)


def r_select_d(t, k, v):
    return OmegaConf.select(t, k, default=v)


def r_select_tom(t, k, v):
    return OmegaConf.select(t, k, throw_on_missing=True)


def r_select_quiet(t, k, v):
    return OmegaConf.select(t, k, throw_on_resolution_failure=False)


def r_setdefault(t, k, v):
    return t.setdefault(k, v)


def r_iterlist(t, k, v):
    return [x for x in t]


# ---------------------------------------------------------------- interpolation graphs
def s_graph():
    return OmegaConf.create({"a": 1, "b": 1, "c": 1, "d": {"x": 1, "y": 1}, "l": [1, 1]})


def s_graph_typed():
    return OmegaConf.create({"a": IntegerNode(1), "b": StringNode("1"), "c": 1, "d": {"x": IntegerNode(1), "y": FloatNode(1)}, "l": [1]})


# ---------------------------------------------------------------- pickling, as the protocol prescribes it
def pickled(o, memo):
    """the object that unpickling a pickle of o gives"""
    for a, b in memo:
        if a is o:
            return b
    if isinstance(o, (DictConfig, ListConfig, AnyNode, StringNode, IntegerNode, FloatNode, BooleanNode, BytesNode, PathNode, EnumNode, UnionNode)):
        new = object.__new__(type(o))
        memo.append((o, new))
        state = pickled(o.__getstate__(), memo)
        new.__setstate__(state)
        return new
    if isinstance(o, Metadata):
        new = object.__new__(type(o))
        memo.append((o, new))
        state = pickled(copy.copy(o.__dict__), memo)
        new.__dict__.update(state)
        return new
    if isinstance(o, dict):
        new = {}
        memo.append((o, new))
        for k, v in o.items():
            new[k] = pickled(v, memo)
        return new
    if isinstance(o, list):
        new = []
        memo.append((o, new))
        for v in o:
            new.append(pickled(v, memo))
        return new
    return o


def r_pickle(t, k, v):
    return pickled(t, [])


def r_create_flags(t, k, v):
    return OmegaConf.create(t, flags={"struct": True})


def set_cache(t, k, v):
    OmegaConf.get_cache(t)["r"][k] = v


def set_flags_root(t):
    t._set_flags_root(True)


def s_objs():
    c = OmegaConf.create({"n": AnyNode(1), "b": BytesNode(b"x"), "p": PathNode(Path("x")), "e": EnumNode(Color, value=Color.RED), "f": FloatNode(1.5, is_optional=False), "s": StringNode("s"), "t": BooleanNode(True), "i": IntegerNode(1), "o": Foo(), "l": ListConfig(None), "d": DictConfig("???"), "x": DictConfig("${n}")}, flags={"allow_objects": True})
    c._get_node("i")._set_flag("readonly", True)
    return c


def set_leaf_flags(t):
    """own flags on the leaves of a container"""
    c = t.__dict__["_content"]
    for x in c.values() if isinstance(c, dict) else c:
        if not isinstance(x, (DictConfig, ListConfig)):
            x._set_flag("readonly", False)
            x._set_flag("struct", True)


def s_graph_deep():
    return OmegaConf.create({"a": {"b": {"c": {"d": 1, "e": 1}}, "l": [1, {"m": 1}]}, "t": 1})


# ---------------------------------------------------------------- comparison
def s_eq_dict():
    return OmegaConf.create({"t": 1, "l": {"a": 1, "b": {"x": 1}}, "r": {"b": {"x": 1}, "a": 1}})


def s_eq_list():
    return OmegaConf.create({"t": 1, "l": [1, [1]], "r": [1, [1]]})


def s_eq_typed():
    return OmegaConf.create({"t": 1, "l": {"a": FloatNode(1.0), "s": StringNode("x")}, "r": {"a": IntegerNode(1), "s": AnyNode("x")}})


def s_eq_keys():
    return OmegaConf.create({"t": 1, "l": {"a": 1, "b": 1}, "r": {"a": 1, "c": 1}})


def s_eq_more():
    return OmegaConf.create({"t": 1, "l": {"a": 1}, "r": {"a": 1, "c": 1}})


def s_eq_len():
    return OmegaConf.create({"t": 1, "l": [1], "r": [1, 1]})


def s_eq_kind():
    return OmegaConf.create({"t": 1, "l": {"a": {"x": 1}}, "r": {"a": [1]}})


def s_eq_obj():
    return OmegaConf.create({"t": 1, "l": Addr("x", 1), "r": {"street": "x", "no": 1}})


def s_eq_union():
    return OmegaConf.create({"t": 1, "l": {"a": UnionNode(1, Union[int, str])}, "r": {"a": 1}})


def s_eq_rel():
    return OmegaConf.create({"l": {"z": 1, "n": {"x": "${..z}"}}, "r": {"z": 1, "n": {"x": "${..z}"}}})


def s_eq_rell():
    return OmegaConf.create({"l": {"z": 1, "n": ["${..z}"]}, "r": {"z": 1, "n": ["${..z}"]}})


def s_eq_objmore():
    return OmegaConf.create({"t": 1, "l": Addr("x", 1), "r": {"street": "x", "no": 1, "extra": 1}})


def s_eq_objless():
    return OmegaConf.create({"t": 1, "l": Addr("x", 1), "r": {"street": "x"}})


def s_eq_objs():
    return OmegaConf.create({"t": 1, "l": Addr("x", 1), "r": SubAddr("x", 1, 1)})


def s_eq_ik():
    return OmegaConf.create({"t": 1, "l": {1: 1, "a": 1}, "r": {"1": 1, "a": 1}})


def s_eq_ik2():
    return OmegaConf.create({"t": 1, "l": {1: 1, True: 1}, "r": {1: 1, 2: 1}})


def s_eq_ek():
    return OmegaConf.create({"t": 1, "l": {Color.RED: 1, "a": 1}, "r": {Color.RED: 1, "a": 1}})


def s_eq_nonopt():
    return OmegaConf.create({"t": 1, "l": {"a": IntegerNode(1, is_optional=False)}, "r": {"a": 1}})


def s_eq_nonopt2():
    return OmegaConf.create({"t": 1, "l": {"a": StringNode("x", is_optional=False)}, "r": {"a": StringNode("x")}})


def s_eq_misc():
    return OmegaConf.create({"t": 1, "l": {"a": BytesNode(b"x"), "b": BooleanNode(True)}, "r": {"a": b"x", "b": 1}})


def s_eq_more_l():
    return OmegaConf.create({"t": 1, "l": {"a": [1]}, "r": {"a": [1, 1]}})


def s_eq_deep():
    return OmegaConf.create({"t": 1, "l": {"a": [{"x": 1}, 1]}, "r": {"a": [{"x": 1}, 1]}})


def s_eq_deepkind():
    return OmegaConf.create({"t": 1, "l": [{"a": 1}, 1], "r": [1, 1]})


def s_eq_struct():
    c = OmegaConf.create({"t": 1, "l": {"a": 1, "b": 1}, "r": {"a": 1, "c": 1}})
    OmegaConf.set_struct(c, True)
    return c


def s_eq_ro():
    c = OmegaConf.create({"t": 1, "l": {"a": 1, "b": 1}, "r": {"a": 1, "b": 1}})
    OmegaConf.set_readonly(c._get_node("l"), True)
    return c


def q_eq(t, k, v):
    a, b = t._get_node("l"), t._get_node("r")
    return (a == b, b == a, a != b, b != a)


def q_eq_n(t, k, v):
    a, b = t._get_node("l")._get_node("n"), t._get_node("r")._get_node("n")
    return (a == b, b == a, a != b, b != a)


def q_self(t, k, v):
    a, b = t._get_node("l"), copy.deepcopy(t)._get_node("l")
    return (a == b, b == a, a != b, b != a)


def q_plain(t, k, v):
    a, b = t._get_node("l"), OmegaConf.to_container(t._get_node("r"))
    return (a == b, b == a, a != b, b != a)


def q_detached(t, k, v):
    a, b = OmegaConf.create(OmegaConf.to_container(t._get_node("l"))), t._get_node("r")
    return (a == b, b == a, a != b, b != a)


# ---------------------------------------------------------------- conversion to plain containers
@dataclass
class Conv:
    a: Addr = field(default_factory=Addr)
    la: List[Addr] = field(default_factory=lambda: [Addr()])
    n: Optional[int] = 1
    e: Color = Color.RED
    de: Dict[Color, int] = field(default_factory=lambda: {Color.RED: 1})


@dataclass
class NoInit:
    x: int = 1
    y: int = field(default=2, init=False)
    sub: Addr = field(default_factory=Addr)


def s_conv():
    return OmegaConf.create({"a": 1, "d": {"x": 1, Color.GREEN: 1, 3: "y"}, "l": [1, {"z": 1}, [1], Color.RED], "e": Color.RED, "u": UnionNode(1, Union[int, str]), "b": b"x", "p": Path("x"), "f": 1.5, "t": True})


def s_conv_obj():
    return OmegaConf.create({"o": Conv(), "d": {"o": Addr("s", 2), "x": 1}, "l": [Addr("s", 2), {"o": Addr("s", 2)}], "n": NoInit()})


def s_conv_conts():
    return OmegaConf.create({"n": 1, "d": {"e": 1, "s": {"q": 1}}, "l": [1, [1]], "o": Addr("s", 2), "t": DictConfig({"k": 1}, element_type=int), "tl": ListConfig([1], element_type=int)})


def s_conv_special():
    return OmegaConf.create({"n": 1, "nd": DictConfig(None), "nl": ListConfig(None), "md": DictConfig("???"), "l": [DictConfig(None), ListConfig(None), {"x": ListConfig("???")}]})


def s_conv_inter():
    return OmegaConf.create({"n": 1, "e": Color.RED, "d": {"e": 1, "s": {"q": 1}}, "l": [1, 2], "id": DictConfig("${d}"), "il": ListConfig("${l}"), "o": Addr("s", 2), "io": "${o}", "ie": "${e}", "iu": UnionNode("${n}", Union[int, str]), "ls": ["${d.s}", "${l}", "t${n}"]})


def t_plain(t, k, v):
    return OmegaConf.to_container(t, throw_on_missing=k, enum_to_str=v)


def t_resolve(t, k, v):
    return OmegaConf.to_container(t, resolve=True, throw_on_missing=k, enum_to_str=v)


def t_default(t, k, v):
    return OmegaConf.to_container(t)


def t_dc(t, k, v):
    return OmegaConf.to_container(t, throw_on_missing=k, enum_to_str=v, structured_config_mode=SCMode.DICT_CONFIG)


def t_inst(t, k, v):
    return OmegaConf.to_container(t, throw_on_missing=k, enum_to_str=v, structured_config_mode=SCMode.INSTANTIATE)


def t_object(t, k, v):
    return OmegaConf.to_object(t)


# ---------------------------------------------------------------- merging
def s_mg_leaf():
    return OmegaConf.create({"t": 1, "m": {"q": 1}, "l": {"a": 1, "b": 1}, "r": {"b": 1, "c": 1}})


def s_mg_kinds():
    return OmegaConf.create({"t": 1, "m": {"q": 1}, "l": {"a": {"x": 1}, "b": 1, "c": [1]}, "r": {"a": 1, "b": {"x": 1}, "c": 1}})


def s_mg_nest():
    return OmegaConf.create({"t": 1, "m": {"q": 1}, "l": {"a": {"x": 1, "s": {"p": 1}}, "z": 1}, "r": {"a": {"s": {"p": 1, "o": 1}, "n": 1}, "y": {"k": 1}}})


def s_mg_list():
    return OmegaConf.create({"t": 1, "m": [1], "l": {"a": [1, {"x": 1}], "b": []}, "r": {"a": [1], "b": [2], "c": [3]}})


def s_mg_mixed():
    return OmegaConf.create({"t": 1, "l": {"a": {"x": 1}, "b": [1]}, "r": {"a": [1], "b": {"x": 1}}})


def s_mg_mixed2():
    return OmegaConf.create({"t": 1, "l": {"b": [1]}, "r": {"b": {"x": 1}, "c": 1}})


def s_mg_special():
    return OmegaConf.create({"t": 1, "m": {"q": 1}, "l": {"a": {"x": 1}, "b": {"x": 1}}, "r": {"a": {"x": 2}, "b": {"y": 2}}})


def s_mg_slist():
    return OmegaConf.create({"t": 1, "m": [1], "l": {"a": [1], "b": [1]}, "r": {"a": [2], "b": [2]}})


def s_mg_toplist():
    return OmegaConf.create({"t": 1, "m": [1], "l": [1, {"x": 1}], "r": [1, 2]})


def s_mg_struct():
    return OmegaConf.create({"t": 1, "m": {"q": 1}, "l": User(), "r": {"age": 1, "addr": {"no": 1}, "lst": [1], "dct": {"j": 1}}})


def s_mg_structs():
    return OmegaConf.create({"t": 1, "m": {"q": 1}, "l": {"addr": Addr("s", 1), "x": 1}, "r": {"addr": Addr("s", 1)}})


def s_mg_onto():
    return OmegaConf.create({"t": 1, "m": {"q": 1}, "l": {"no": 1, "x": 1}, "r": {"street": "s", "no": IntegerNode(1)}})


def s_mg_typed():
    return OmegaConf.create({"t": 1, "m": {"q": 1}, "l": DictConfig({"k": 1, "m": 2}, element_type=Optional[int]), "r": DictConfig({"m": 1, "n": 2}, element_type=Optional[int])})


def s_mg_keys():
    return OmegaConf.create({"t": 1, "l": {1: 1, "1": 1, Color.RED: 1}, "r": {1: 1, "RED": 1, True: 1}})


def s_mg_union():
    return OmegaConf.create({"t": 1, "l": {"a": UnionNode(1, Optional[Union[int, str]]), "b": 1}, "r": {"a": 1, "b": UnionNode("x", Union[int, str])}})


def g_parts(t):
    return t._get_node("l"), t._get_node("r")


def g_merge(t, k, v):
    a, b = g_parts(t)
    return OmegaConf.merge(a, b)


def g_with(t, k, v):
    a, b = g_parts(t)
    a.merge_with(b)
    return a


def g_plain(t, k, v):
    a, b = g_parts(t)
    return OmegaConf.merge(a, OmegaConf.to_container(b))


def g_ext(t, k, v):
    a, b = g_parts(t)
    return OmegaConf.merge(a, b, list_merge_mode=ListMergeMode.EXTEND)


def g_unique(t, k, v):
    a, b = g_parts(t)
    a.merge_with(b, list_merge_mode=ListMergeMode.EXTEND_UNIQUE)
    return a


def g_three(t, k, v):
    a, b = g_parts(t)
    return OmegaConf.merge(a, b, a)


def g_empty(t, k, v):
    a, b = g_parts(t)
    return OmegaConf.merge({}, b) if isinstance(b, DictConfig) else OmegaConf.merge([], b)


def g_self(t, k, v):
    a, b = g_parts(t)
    return OmegaConf.merge(b, b)


def g_unsafe(t, k, v):
    a, b = g_parts(t)
    return OmegaConf.unsafe_merge(a, b)
