prop("C01", "A read-only config is never modified",
     "While the read-only flag is in effect for a config node (set on it or inherited from an enclosing config), no public mutating operation started anywhere on it - item or attribute assignment and deletion, list editing, pop, setdefault, clear, update by mapping or dotted key, merge, in-place resolve - changes its values, contents, types, keys or flags. Item, attribute and list-element writes are rejected with an error instead of being silently dropped.",
     ["inputs", "histories", "configurations"],
     "every mutating entry point x every kind of container content (mapping, list, none, missing, interpolation) x every kind of argument, with the flag on the root or on the target",
     "Tests try single calls with a few literal values; the guard has to be on every write path for every argument kind, including merges and in-place resolution, and one unguarded path is enough to break it.",
     ["omegaconf/base.py", "omegaconf/basecontainer.py", "omegaconf/dictconfig.py", "omegaconf/listconfig.py", "omegaconf/nodes.py", "omegaconf/_impl.py"],
     [("flag lookup through the parents", "omegaconf/base.py Node._get_flag"), ("write guards", "omegaconf/basecontainer.py _set_item_impl, _map_merge, _list_merge; dictconfig.py/listconfig.py mutators"), ("value node guard", "omegaconf/base.py ValueNode/Node._set_value, nodes.py")],
     state=[("readonly flag", "per-node tri-state flag, inherited", "Metadata.flags")], observe=["the config tree before and after the call", "the exception"])
prop("C02", "A closed mapping never gains or loses keys",
     "A mapping is closed while struct mode is in effect for it, or while it represents a structured (dataclass/attrs) config that was not explicitly opened. No assignment, setdefault, update, merge, dotted-key update or in-place resolve adds a key to a closed mapping (merging a structured config into an untyped mapping, which then takes over its fields, is the exception), and item deletion, pop and the operations built on them never remove one; the attempt fails and the key set stays as it was.",
     ["inputs", "histories", "configurations"],
     "every mutating entry point on struct-mode and structured configs x existing/absent/unknown keys x every argument kind, at every nesting level",
     "Tests check chosen keys and values on single entry points; the guard is a per-path condition (flag, type, key present) that nested merges, updates and special contents reach in many combinations.",
     ["omegaconf/dictconfig.py", "omegaconf/basecontainer.py", "omegaconf/omegaconf.py", "omegaconf/base.py"],
     [("key validation on access and store", "omegaconf/dictconfig.py _validate_get, __set_impl, pop, __delitem__"), ("merge of unknown keys", "omegaconf/basecontainer.py _map_merge"), ("flag inheritance", "omegaconf/base.py Node._get_flag")])
prop("C03", "A rejected single-element write leaves the config unchanged",
     "When an item or attribute assignment or deletion, a list append or insert, a pop or a setdefault fails with an error, every value, key, type, flag and parent link of the whole config is exactly as it was before the call.",
     ["inputs", "histories", "fault_sequences"],
     "every single-element mutator x every key kind x every argument kind (valid or not) x special container contents x struct mode",
     "Tests assert the raised error, seldom the state after it; whether validation precedes the first write is a property of every failing path.",
     ["omegaconf/basecontainer.py", "omegaconf/dictconfig.py", "omegaconf/listconfig.py", "omegaconf/nodes.py"],
     [("validate before store", "omegaconf/basecontainer.py _set_item_impl"), ("restore on failure", "omegaconf/dictconfig.py, listconfig.py _set_value")])
prop("C04", "Typed fields and typed containers only hold values of their declared types",
     "After any write of plain values, configs or structured objects (assignment, setdefault, append, insert, extend, slice assignment, update, merge, value-node or typed-container construction), whether accepted or rejected, each leaf of a declared type holds a value of exactly that type, or None if optional, or a missing marker or interpolation. Elements of typed lists and mappings and fields of structured configs keep their declared type and optionality, a field declared with a structured type holds only that type or a subtype, a union field one of its alternatives, and an untyped leaf only supported primitives. (A leaf passed as an explicit value-node object keeps its own type and is outside this property.)",
     ["inputs", "configurations", "histories"],
     "every write entry point x every declared leaf/container/union/structured type x every argument kind, with and without conversion",
     "Tests sample value/type pairs per node class; type safety must hold on every path by which a value reaches a typed slot, including merges, wrapped configs and re-typing of assigned containers.",
     ["omegaconf/nodes.py", "omegaconf/base.py", "omegaconf/basecontainer.py", "omegaconf/dictconfig.py", "omegaconf/listconfig.py", "omegaconf/omegaconf.py"],
     [("conversion of leaf values", "omegaconf/nodes.py _validate_and_convert_impl"), ("choice of node class", "omegaconf/omegaconf.py _node_wrap"), ("re-typing of assigned containers", "omegaconf/basecontainer.py _deep_update_type_hint"), ("assignment checks", "dictconfig.py/listconfig.py _validate_set")])
prop("C05", "Every node knows its true parent and its true key",
     "After any mutating operation, successful or failed, every node reachable from the root refers to the container that holds it as its parent and records the key or index under which it is held; no node occurs twice in one config, and containers hold nodes only.",
     ["inputs", "histories", "configurations"],
     "every mutating entry point x every position and key x every argument kind, including nodes and sub-configs taken from other configs",
     "Parent and key links are invisible in values and equality, so tests notice a wrong one only through a later relative interpolation, flag lookup or error message on exactly that node.",
     ["omegaconf/basecontainer.py", "omegaconf/dictconfig.py", "omegaconf/listconfig.py", "omegaconf/base.py"],
     [("re-parenting of stored nodes", "omegaconf/basecontainer.py _set_item_impl, _re_parent"), ("index maintenance", "omegaconf/listconfig.py _update_keys"), ("construction", "omegaconf/omegaconf.py _maybe_wrap")])
prop("C06", "Reading a config never modifies it",
     "Item, attribute and default access, get, membership, length, iteration, keys/values/items, slicing, index and count, comparison, hashing, string, repr and dir, copying, conversion to containers, objects and YAML, select, the is_* queries, missing_keys, full-key lookup, and using a config as an input of merge, create or masked_copy leave the config exactly as it was - same values, contents, types, keys, flags and parent links - whether the call succeeds or raises.",
     ["inputs", "histories", "configurations"],
     "every reading entry point x every kind of container content (mapping, list, none, missing, interpolation) x existing/absent/invalid keys x every kind of operand",
     "Tests check the result of a read, hardly ever that the config and its hidden state (flags, parents, contents of a node given a temporary flag) are the same afterwards, in particular when the read fails half-way.",
     ["omegaconf/base.py", "omegaconf/basecontainer.py", "omegaconf/dictconfig.py", "omegaconf/listconfig.py", "omegaconf/omegaconf.py", "omegaconf/nodes.py"],
     [("temporary flags", "omegaconf/omegaconf.py flag_override and its users"), ("copying before merging", "omegaconf/omegaconf.py merge, basecontainer.py _map_merge"), ("resolution of interpolations into temporary nodes", "omegaconf/base.py _maybe_resolve_interpolation, _wrap_interpolation_result")])
prop("C07", "Configs share no mutable state with their inputs or copies",
     "A value, node, config, container or dataclass object handed to a config (by creation, assignment, setdefault, append, insert, extend, slice assignment, update or merge) is not modified by the call, and the config afterwards owns no mutable object owned by that input. The results of deepcopy, copy, merge, masked_copy, creation from a config, slicing, concatenation and conversion to containers or objects own no mutable object of the configs they were made from, and making them modifies none of these.",
     ["inputs", "histories"],
     "every storing, merging, copying and converting entry point x every kind of argument (plain containers, value nodes, free and attached configs, special-content configs, dataclass objects, nestings of these)",
     "Sharing shows only when one side is modified later; tests modify one chosen place after one chosen call.",
     ["omegaconf/basecontainer.py", "omegaconf/dictconfig.py", "omegaconf/listconfig.py", "omegaconf/omegaconf.py", "omegaconf/_utils.py", "omegaconf/base.py"],
     [("deep copy on store", "omegaconf/basecontainer.py _set_item_impl, _deep_update_type_hint"), ("deep copy on merge", "omegaconf/omegaconf.py merge; basecontainer.py _map_merge"), ("deep copy on creation", "omegaconf/omegaconf.py _create_impl, _maybe_wrap, _node_wrap"), ("copy of metadata", "omegaconf/dictconfig.py, listconfig.py, nodes.py __deepcopy__")])
prop("C11", "Mapping keys are validated and normalised the same way everywhere",
     "For each mapping and key, either the key is valid for the mapping's declared key type - then item access, get, membership, pop, setdefault, deletion, update, merge and construction all treat it as the same normal form (a string or number naming an enum member finds that member) - or it is refused with a key-validation error by all of them (membership answers no). No mapping ever holds a key of an unsupported type or outside its declared key type.",
     ["inputs", "configurations"],
     "every keyed entry point x key types (any, str, int, float, bool, bytes, enum) x keys of every kind",
     "Tests pair some key types with some operations; agreement between all entry points for all keys is a table no sample settles.",
     ["omegaconf/dictconfig.py", "omegaconf/basecontainer.py", "omegaconf/nodes.py"],
     [("key normalisation", "omegaconf/dictconfig.py _validate_and_normalize_key"), ("entry points", "omegaconf/dictconfig.py __getitem__, get, pop, __contains__, __delitem__, __setitem__")])
prop("C10", "Flag queries are exact and temporary flag changes are undone",
     "A read-only/struct/other flag query on any node answers the nearest explicit setting on the way to its root (nothing, if no node sets it up to the root or a flags root), whatever flags were set, unset, overridden or queried before and however nodes were stored, moved or removed. Setting a flag changes that flag of that node only. A block under read_write, open_dict or flag_override leaves every node with exactly the flags it had before, whether the block ends normally or by an exception.",
     ["histories", "inputs", "fault_sequences"],
     "every flag operation, context manager and node-moving mutator x every position of the flag and of the queried node x filled, partially filled and empty flag caches",
     "The answer is cached per node and invalidated by a rule that relies on an invariant over the whole tree; whether some order of queries and changes leaves a stale entry is a question about all histories.",
     ["omegaconf/base.py", "omegaconf/omegaconf.py", "omegaconf/basecontainer.py"],
     [("flag cache and its invalidation", "omegaconf/base.py Node._get_flag, _set_flag, _set_parent, Container._invalidate_flags_cache"), ("temporary flags", "omegaconf/omegaconf.py flag_override, read_write, open_dict")],
     state=[("flag cache", "per-node memo of inherited flag answers", "Node._flags_cache")])
prop("C08", "Reading an element follows one protocol for every kind of content",
     "For every key or index of a config, whatever holds the element (untyped or typed leaf, union, mapping, list, structured config): an ordinary or None value is returned by item, attribute and get access, by select and by pop, is 'in' a mapping and is not missing; a missing value ('???') raises MissingMandatoryValue on item and attribute access, gives the default from get, pop-with-default and select, is not 'in' a mapping, and is_missing answers true; an interpolation gives what it finally refers to, and if it cannot be resolved raises InterpolationResolutionError (also from get with a default) but is 'in' the mapping, is_interpolation answering true exactly for interpolations; an absent key raises a key error on item access, an attribute error on attribute access, and gives the default from get, pop-with-default and select.",
     ["inputs", "configurations"],
     "every reading entry point x every kind of content x every kind of node, plain, closed and read-only",
     "Each entry point has its own code path through node lookup, union unwrapping, default handling and resolution; tests pair some entry points with some contents, never the whole table.",
     ["omegaconf/basecontainer.py", "omegaconf/dictconfig.py", "omegaconf/listconfig.py", "omegaconf/base.py", "omegaconf/_impl.py", "omegaconf/omegaconf.py"],
     [("lookup and defaults", "omegaconf/dictconfig.py _get_impl, __contains__, pop; listconfig.py get, __getitem__"), ("resolution", "omegaconf/basecontainer.py _resolve_with_default; base.py _maybe_resolve_interpolation"), ("select", "omegaconf/_impl.py select_value, select_node; omegaconf.py _select_one")])
prop("C20", "An interpolation gives what its chain of references leads to, or fails cleanly",
     "Reading an element whose value is an interpolation gives exactly the value its chain of references (absolute, relative, through mappings, lists and further interpolations) leads to - the same node content, converted to the declared type if the reading or an intermediate element is typed. A chain that leads nowhere fails with InterpolationKeyError, to a missing value with InterpolationToMissingValueError, in a circle or to an enclosing container with InterpolationResolutionError - never with another kind of error, a silently wrong value or endless recursion. Conversion with resolve=True and OmegaConf.resolve agree with such reads, and OmegaConf.resolve leaves no interpolation behind.",
     ["inputs", "configurations"],
     "every combination of ordinary, None, missing and interpolated contents of seven leaves (absolute, relative, nested, list, in-text, dangling and cyclic references) x reading entry points and whole-config resolution",
     "Reference graphs are combinations; tests use a dozen hand-written ones with one or two links, and never the interplay of relative roots, typed intermediates and cycles.",
     ["omegaconf/base.py", "omegaconf/basecontainer.py", "omegaconf/_impl.py", "omegaconf/omegaconf.py"],
     [("reference lookup", "omegaconf/base.py _resolve_key_and_root, _select_impl, _resolve_node_interpolation"), ("chain and cycle handling", "omegaconf/base.py _maybe_resolve_interpolation, resolve_parse_tree"), ("whole-config resolution", "omegaconf/_impl.py _resolve; basecontainer.py _to_content")])
prop("C12", "A copy of a config is the same config in every respect",
     "The result of copy.deepcopy, copy.copy, .copy() and of unpickling a pickled config has, node for node, the same kind of node, values, key order, keys, declared and runtime types, optionality, key and element types, own flags, flags-root marks and cached resolver results as the original, its inner parent links and keys are consistent, its flag queries give what its settings say, and a copy of a nested config still refers to the parent of the original (deepcopy/copy). Copying does not fail.",
     ["inputs", "configurations", "histories"],
     "every container of every set-up (plain, typed, structured, keyed, special contents, all leaf classes) x copying entry point x own and inherited flags, filled flag caches, cached resolver results, flags roots",
     "Equality ignores types, flags, keys and links, so tests that compare a copy with its original cannot see what was lost; the attributes are set per class in a dozen places.",
     ["omegaconf/dictconfig.py", "omegaconf/listconfig.py", "omegaconf/nodes.py", "omegaconf/base.py", "omegaconf/basecontainer.py"],
     [("deep copy", "omegaconf/dictconfig.py, listconfig.py, nodes.py, base.py __deepcopy__, nodes.py _deepcopy_impl"), ("pickling", "omegaconf/basecontainer.py, base.py __getstate__, __setstate__")])
prop("C22", "Comparing configs compares their contents",
     "For two configs, or a config and a plain container, == always answers True or False, the same both ways round, without raising, and != answers the exact contrary. The answer is True exactly if both are mappings with the same keys or both are lists of the same length, and their elements are pairwise equal after interpolations that can be resolved are replaced by what they refer to; node types do not matter, a missing value equals only a missing value and None only None. (Interpolations that cannot be resolved, and containers that are themselves None, missing or interpolations, are outside this statement.)",
     ["inputs", "configurations"],
     "pairs of configs (mappings, lists, structured, typed and union nodes; same and different keys, lengths, kinds and order) x every combination of ordinary, None, missing and interpolated leaves x comparison with itself, its copy, another config, its plain form and a detached config",
     "Equality is a relation over pairs of contents; tests compare a few chosen pairs, one way round.",
     ["omegaconf/basecontainer.py", "omegaconf/dictconfig.py", "omegaconf/listconfig.py", "omegaconf/nodes.py"],
     [("element comparison", "omegaconf/basecontainer.py _item_eq"), ("container comparison", "omegaconf/dictconfig.py _dict_conf_eq, __eq__, __ne__; omegaconf/listconfig.py _list_eq, __eq__, __ne__"), ("leaf comparison", "omegaconf/nodes.py __eq__, __ne__")])
prop("C21", "Conversion to plain containers keeps the contents",
     "OmegaConf.to_container and to_object give, for every config, plain dicts and lists (and, if asked, objects of the structured classes or, with DICT_CONFIG, configs) with the same keys in the same order and the same values: None stays None; a missing value is given as '???' or, if asked, raises MissingMandatoryValue; an interpolation is given as its text, or, with resolve=True, as the value a read of it gives; enum members are given as members or, if asked, by name; a structured config becomes an instance of its class with the same field values, and fields beyond the class's as attributes. No config node is left inside a plain result. (Containers that are themselves None, missing or interpolations give None, '???' or their text.)",
     ["inputs", "configurations"],
     "every conversion entry point and option x set-ups with mappings, lists, structured, union, typed and enum leaves, nested three deep x every combination of ordinary, None, missing and interpolated contents",
     "The conversion is one recursive function with options that interact (resolve, missing, enum names, structured mode); tests sample a few contents per option.",
     ["omegaconf/basecontainer.py", "omegaconf/omegaconf.py", "omegaconf/dictconfig.py"],
     [("recursive conversion", "omegaconf/basecontainer.py _to_content"), ("instantiation", "omegaconf/dictconfig.py _to_object"), ("entry points", "omegaconf/omegaconf.py to_container, to_object")])
prop("C23", "Merging combines configs key by key, the later source winning",
     "After merging (merge_with, OmegaConf.merge, unsafe_merge), a mapping has its own keys in their order followed by the new keys of the source; a key that both have holds the merge of the two contents: mappings are merged recursively, a missing source leaves the target's content, any other source content (None, an interpolation, a value, a list) replaces it; lists are replaced, or concatenated with EXTEND, or extended by the source's elements not yet in it with EXTEND_UNIQUE; an interpolation in the target that is merged with a mapping is replaced by what it refers to first. A mapping merged with a list fails, and apart from that a merge fails only because of declared types, closed or read-only configs. (A source container that is itself missing, over a leaf, is outside this statement.)",
     ["inputs", "configurations"],
     "pairs and triples of configs (plain, nested, lists, structured, typed, special contents) x merge entry point and list mode x every combination of ordinary, None, missing and interpolated leaves in source and target",
     "Each pair of content kinds has its own branch in the merge; tests hit a chosen pair per test, and the untested pairs were where the defects found here lay.",
     ["omegaconf/basecontainer.py", "omegaconf/omegaconf.py", "omegaconf/listconfig.py"],
     [("mapping merge", "omegaconf/basecontainer.py _map_merge"), ("list merge", "omegaconf/basecontainer.py _list_merge"), ("entry points", "omegaconf/omegaconf.py merge, unsafe_merge; basecontainer.py merge_with")])
