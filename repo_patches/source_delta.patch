From 07cb36b8012c3bb2f1e763a696aaf5c22b061aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:17 +0000
Subject: [PATCH 01/22] fix: reject merge and resolve that replace the content
 of a read-only config

Merging None, an interpolation or a list into a read-only container, merging
into a container that is missing / None / an interpolation, assigning the value
of a union field in a merge, and OmegaConf.resolve() of a container-valued
interpolation all modified configs flagged read-only.
---
 omegaconf/_impl.py         |  2 ++
 omegaconf/base.py          | 11 ++++++++++-
 omegaconf/basecontainer.py |  5 +++++
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/omegaconf/_impl.py b/omegaconf/_impl.py
index 49be303..2ede551 100644
--- a/omegaconf/_impl.py
+++ b/omegaconf/_impl.py
@@ -17,6 +17,7 @@ def _resolve_container_value(cfg: Container, key: Any) -> None:
     node = cfg._get_child(key)
     assert isinstance(node, Node)
     if node._is_interpolation():
+        node._validate_not_readonly()
         try:
             resolved = node._dereference_node()
         except InterpolationToMissingValueError:
@@ -41,6 +42,7 @@ def _resolve_container_value(cfg: Container, key: Any) -> None:
 def _resolve(cfg: Node) -> Node:
     assert isinstance(cfg, Node)
     if cfg._is_interpolation():
+        cfg._validate_not_readonly()
         try:
             resolved = cfg._dereference_node()
         except InterpolationToMissingValueError:
diff --git a/omegaconf/base.py b/omegaconf/base.py
index 39667d9..f5e495c 100644
--- a/omegaconf/base.py
+++ b/omegaconf/base.py
@@ -29,6 +29,7 @@ from .errors import (
     InterpolationToMissingValueError,
     InterpolationValidationError,
     MissingMandatoryValue,
+    ReadonlyConfigError,
     UnsupportedInterpolationType,
     ValidationError,
 )
@@ -196,6 +197,10 @@ class Node(ABC):
         assert ret is None or isinstance(ret, bool)
         return ret
 
+    def _validate_not_readonly(self) -> None:
+        if self._get_flag("readonly"):
+            raise ReadonlyConfigError("Cannot change read-only config container")
+
     def _get_flag_no_cache(self, flag: str) -> Optional[bool]:
         """
         Returns True if this config node flag is set
@@ -811,6 +816,8 @@ class UnionNode(Box):
         key: Any = None,
         parent: Optional[Box] = None,
     ) -> None:
+        from omegaconf import read_write
+
         try:
             if not is_union_annotation(ref_type):  # pragma: no cover
                 msg = (
@@ -830,7 +837,8 @@ class UnionNode(Box):
                     flags={"convert": False},
                 ),
             )
-            self._set_value(content)
+            with read_write(self):
+                self._set_value(content)
         except Exception as ex:
             format_and_raise(node=None, key=key, value=content, msg=str(ex), cause=ex)
 
@@ -870,6 +878,7 @@ class UnionNode(Box):
         return content
 
     def _set_value(self, value: Any, flags: Optional[Dict[str, bool]] = None) -> None:
+        self._validate_not_readonly()
         previous_content = self.__dict__["_content"]
         previous_metadata = self.__dict__["_metadata"]
         try:
diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 14e8667..3051af8 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -315,6 +315,7 @@ class BaseContainer(Container, ABC):
         #  - None => set the destination DictConfig to None
         #  - an interpolation => set the destination DictConfig to be the same interpolation
         if src._is_none() or src._is_interpolation():
+            dest._validate_not_readonly()
             dest._set_value(src._value())
             _update_types(node=dest, ref_type=src_ref_type, object_type=src_type)
             return
@@ -322,6 +323,7 @@ class BaseContainer(Container, ABC):
         dest._validate_merge(value=src)
 
         def expand(node: Container) -> None:
+            node._validate_not_readonly()
             rt = node._metadata.ref_type
             val: Any
             if rt is not Any:
@@ -451,6 +453,9 @@ class BaseContainer(Container, ABC):
         assert isinstance(dest, ListConfig)
         assert isinstance(src, ListConfig)
 
+        if not src._is_missing():
+            dest._validate_not_readonly()
+
         if src._is_none():
             dest._set_value(None)
         elif src._is_missing():
-- 
2.43.0


From e72442f824a15b757acf5f61fe4da8887d7ec20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:31 +0000
Subject: [PATCH 02/22] fix: ListConfig.insert() with a negative or out of
 range index

insert(-1, x) left a raw None placeholder in the list and overwrote another
item, insert(100, x) failed and left the placeholder behind. Clamp the index
like list.insert() does.
---
 omegaconf/listconfig.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 20a8f81..50b0da6 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -322,6 +322,11 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
             if self._is_missing():
                 raise MissingMandatoryValue("Cannot insert into missing ListConfig")
 
+            # out of range indices are clamped and negative ones count from the end,
+            # like in list.insert()
+            length = len(self.__dict__["_content"])
+            index = max(index + length, 0) if index < 0 else min(index, length)
+
             try:
                 assert isinstance(self.__dict__["_content"], list)
                 # insert place holder
-- 
2.43.0


From 5183164f18bb039c7ae546f7a63f9c2a58d8ccdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:31 +0000
Subject: [PATCH 03/22] fix: ListConfig.insert() of a node re-parented the
 input node

The inserted node is deep-copied, but before that the input node itself was
given the key and the parent of the new position.
---
 omegaconf/listconfig.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 50b0da6..f2d262f 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -332,12 +332,16 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
                 # insert place holder
                 self.__dict__["_content"].insert(index, None)
                 is_optional, ref_type = _resolve_optional(self._metadata.element_type)
-                node = _maybe_wrap(
-                    ref_type=ref_type,
-                    key=index,
-                    value=item,
-                    is_optional=is_optional,
-                    parent=self,
+                node = (
+                    item
+                    if isinstance(item, Node)
+                    else _maybe_wrap(
+                        ref_type=ref_type,
+                        key=index,
+                        value=item,
+                        is_optional=is_optional,
+                        parent=self,
+                    )
                 )
                 self._validate_set(key=index, value=node)
                 self._set_at_index(index, node)
-- 
2.43.0


From 06b765806b600ccecf39030b8cabc0cbf49be32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:31 +0000
Subject: [PATCH 04/22] fix: update the keys of the nodes in ListConfig.sort()

---
 omegaconf/listconfig.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index f2d262f..52153d1 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -514,6 +514,7 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
 
             assert isinstance(self.__dict__["_content"], list)
             self.__dict__["_content"].sort(key=key1, reverse=reverse)
+            self._update_keys()
 
         except Exception as e:
             self._format_and_raise(key=None, value=None, cause=e)
-- 
2.43.0


From b07e56eb7d57a356ff840e865207ab3e2c8b6c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:31 +0000
Subject: [PATCH 05/22] fix: assigning to a negative index recorded the
 negative index as key

---
 omegaconf/listconfig.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 52153d1..8ce84ee 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -244,6 +244,8 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
         return start, stop, step
 
     def _set_at_index(self, index: Union[int, slice], value: Any) -> None:
+        if isinstance(index, int) and -len(self) <= index < 0:
+            index += len(self)
         self._set_item_impl(index, value)
 
     def __setitem__(self, index: Union[int, slice], value: Any) -> None:
-- 
2.43.0


From 166be5c4af2f3d2fdbc8280ef637999724896c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:31 +0000
Subject: [PATCH 06/22] fix: update the keys of the nodes when a merge extends
 a list

---
 omegaconf/basecontainer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 3051af8..2b4a52f 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -488,6 +488,7 @@ class BaseContainer(Container, ABC):
                         dest.__dict__["_content"].append(entry)
             else:  # REPLACE (default)
                 dest.__dict__["_content"] = temp_target.__dict__["_content"]
+            dest._update_keys()
 
         # explicit flags on the source config are replacing the flag values in the destination
         flags = src._metadata.flags
-- 
2.43.0


From 089b7006aaaaca88675c762d3b3f47b065028645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:33 +0000
Subject: [PATCH 07/22] fix: a config assigned as an element of a typed
 container bypassed the element type

---
 omegaconf/basecontainer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 2b4a52f..00b6519 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -650,12 +650,12 @@ class BaseContainer(Container, ABC):
                 self._wrap_value_and_set(key, value, target_type_hint)
 
     def _wrap_value_and_set(self, key: Any, val: Any, type_hint: Any) -> None:
-        from omegaconf.omegaconf import _maybe_wrap
+        from omegaconf.omegaconf import _node_wrap
 
         is_optional, ref_type = _resolve_optional(type_hint)
 
         try:
-            wrapped = _maybe_wrap(
+            wrapped = _node_wrap(
                 ref_type=ref_type,
                 key=key,
                 value=val,
-- 
2.43.0


From 482de57a048a700499dca0a827472dbff2ef31be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:46 +0000
Subject: [PATCH 08/22] fix: a plain config stored under a new key bypassed a
 structured element type

---
 omegaconf/dictconfig.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/omegaconf/dictconfig.py b/omegaconf/dictconfig.py
index 11b2e70..49c766a 100644
--- a/omegaconf/dictconfig.py
+++ b/omegaconf/dictconfig.py
@@ -183,6 +183,17 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
         ) and target._metadata.ref_type not in (Any, dict)
         is_valid_target = target is None or not target_has_ref_type
 
+        if target is None and isinstance(value, DictConfig):
+            # a new element: the node is stored as it is
+            _, element_type = _resolve_optional(self._metadata.element_type)
+            value_type = OmegaConf.get_type(value)
+            if (
+                is_structured_config(element_type)
+                and value_type is not None
+                and not issubclass(value_type, element_type)
+            ):
+                self._raise_invalid_value(value, value_type, element_type)
+
         if is_valid_target:
             return
 
-- 
2.43.0


From 02b3b91f6e136a6ea0976853f742201bbeac5dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:46 +0000
Subject: [PATCH 09/22] fix: untyped leaves of a config put into a typed
 container stayed untyped

---
 omegaconf/basecontainer.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 00b6519..c697925 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -884,6 +884,8 @@ def _deep_update_type_hint(node: Node, type_hint: Any) -> None:
 
 def _deep_update_subnode(node: BaseContainer, key: Any, value_type_hint: Any) -> None:
     """Get node[key] and ensure it is compatible with value_type_hint, mutating if necessary."""
+    from .nodes import AnyNode
+
     subnode = node._get_node(key)
     assert isinstance(subnode, Node)
     if _is_special(subnode):
@@ -892,6 +894,12 @@ def _deep_update_subnode(node: BaseContainer, key: Any, value_type_hint: Any) ->
         node._wrap_value_and_set(key, subnode._value(), value_type_hint)
         subnode = node._get_node(key)
         assert isinstance(subnode, Node)
+    elif isinstance(subnode, AnyNode) and value_type_hint is not Any:
+        # An untyped leaf would accept values of any type later on.
+        _shallow_validate_type_hint(subnode, value_type_hint)
+        node._wrap_value_and_set(key, subnode._value(), value_type_hint)
+        subnode = node._get_node(key)
+        assert isinstance(subnode, Node)
     _deep_update_type_hint(subnode, value_type_hint)
 
 
-- 
2.43.0


From 08a51858846f9df1e1ebbb20a4f5dbab82f4f5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:25 +0000
Subject: [PATCH 10/22] fix: creating a config from an interpolation config
 shared the source node

---
 omegaconf/dictconfig.py | 2 +-
 omegaconf/listconfig.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/omegaconf/dictconfig.py b/omegaconf/dictconfig.py
index 49c766a..b50123d 100644
--- a/omegaconf/dictconfig.py
+++ b/omegaconf/dictconfig.py
@@ -670,7 +670,7 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
             self.__dict__["_content"] = None
             self._metadata.object_type = None
         elif _is_interpolation(value, strict_interpolation_validation=True):
-            self.__dict__["_content"] = value
+            self.__dict__["_content"] = _get_value(value)
             self._metadata.object_type = None
         elif _is_missing_value(value):
             self.__dict__["_content"] = MISSING
diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 8ce84ee..83da916 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -16,6 +16,7 @@ from typing import (
 
 from ._utils import (
     ValueKind,
+    _get_value,
     _is_missing_literal,
     _is_none,
     _resolve_optional,
@@ -649,7 +650,7 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
             self.__dict__["_content"] = MISSING
             self._metadata.object_type = None
         elif vk == ValueKind.INTERPOLATION:
-            self.__dict__["_content"] = value
+            self.__dict__["_content"] = _get_value(value)
             self._metadata.object_type = None
         else:
             if not (is_primitive_list(value) or isinstance(value, ListConfig)):
-- 
2.43.0


From 2b5be9991c12cea184192e6d0629b229c3abf93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:29 +0000
Subject: [PATCH 11/22] fix: structured config data extraction re-keyed and
 detached nodes held by the input object

---
 omegaconf/omegaconf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omegaconf/omegaconf.py b/omegaconf/omegaconf.py
index db65eca..5861378 100644
--- a/omegaconf/omegaconf.py
+++ b/omegaconf/omegaconf.py
@@ -1108,9 +1108,9 @@ def _maybe_wrap(
     is_optional: bool,
     parent: Optional[BaseContainer],
 ) -> Node:
-    # if already a node, update key and parent and return as is.
-    # NOTE: that this mutate the input node!
+    # if already a node, return a copy of it with the given key and parent.
     if isinstance(value, Node):
+        value = copy.deepcopy(value)
         value._set_key(key)
         value._set_parent(parent)
         return value
-- 
2.43.0


From a794494759a6e6f1c79824d7c08f45e3053acdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:44 +0000
Subject: [PATCH 12/22] fix: a rejected value left a DictConfig or ListConfig
 without its type or flags

---
 omegaconf/dictconfig.py | 7 ++++++-
 omegaconf/listconfig.py | 7 ++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/omegaconf/dictconfig.py b/omegaconf/dictconfig.py
index b50123d..dcba577 100644
--- a/omegaconf/dictconfig.py
+++ b/omegaconf/dictconfig.py
@@ -648,11 +648,16 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
         self._metadata.object_type = object_type
 
     def _set_value(self, value: Any, flags: Optional[Dict[str, bool]] = None) -> None:
+        previous_content = self.__dict__["_content"]
+        previous_object_type = self._metadata.object_type
+        previous_flags = self._metadata.flags
         try:
-            previous_content = self.__dict__["_content"]
             self._set_value_impl(value, flags)
         except Exception as e:
             self.__dict__["_content"] = previous_content
+            self._metadata.object_type = previous_object_type
+            self._metadata.flags = previous_flags
+            self._invalidate_flags_cache()
             raise e
 
     def _set_value_impl(
diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 83da916..0539f5f 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -621,13 +621,14 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
         return False
 
     def _set_value(self, value: Any, flags: Optional[Dict[str, bool]] = None) -> None:
+        previous_content = self.__dict__["_content"]
+        previous_flags = self._metadata.flags
         try:
-            previous_content = self.__dict__["_content"]
-            previous_metadata = self.__dict__["_metadata"]
             self._set_value_impl(value, flags)
         except Exception as e:
             self.__dict__["_content"] = previous_content
-            self.__dict__["_metadata"] = previous_metadata
+            self._metadata.flags = previous_flags
+            self._invalidate_flags_cache()
             raise e
 
     def _set_value_impl(
-- 
2.43.0


From 98d1b935c4372d5483091bf589014e1cfbe2aa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:26 +0000
Subject: [PATCH 13/22] fix: an int too large for a float raised OverflowError
 instead of ValidationError

---
 omegaconf/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omegaconf/nodes.py b/omegaconf/nodes.py
index c3f7ba6..462d1f5 100644
--- a/omegaconf/nodes.py
+++ b/omegaconf/nodes.py
@@ -340,7 +340,7 @@ class FloatNode(ValueNode):
                 return float(value)
             else:
                 raise ValueError()
-        except ValueError:
+        except (ValueError, OverflowError):
             raise ValidationError(
                 "Value '$VALUE' of type '$VALUE_TYPE' could not be converted to Float"
             )
-- 
2.43.0


From c9f7e85b5cb5b5d1cb533eaf88ff886b51d2e9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:28 +0000
Subject: [PATCH 14/22] fix: merging into a read-only config replaced its flags

---
 omegaconf/basecontainer.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index c697925..1ee885b 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -436,11 +436,7 @@ class BaseContainer(Container, ABC):
         _update_types(node=dest, ref_type=src_ref_type, object_type=src_type)
 
         # explicit flags on the source config are replacing the flag values in the destination
-        flags = src._metadata.flags
-        assert flags is not None
-        for flag, value in flags.items():
-            if value is not None:
-                dest._set_flag(flag, value)
+        BaseContainer._merge_flags(dest, src)
 
     @staticmethod
     def _list_merge(
@@ -491,11 +487,21 @@ class BaseContainer(Container, ABC):
             dest._update_keys()
 
         # explicit flags on the source config are replacing the flag values in the destination
+        BaseContainer._merge_flags(dest, src)
+
+    @staticmethod
+    def _merge_flags(dest: "BaseContainer", src: "BaseContainer") -> None:
         flags = src._metadata.flags
         assert flags is not None
-        for flag, value in flags.items():
-            if value is not None:
-                dest._set_flag(flag, value)
+        changed = {
+            flag: value
+            for flag, value in flags.items()
+            if value is not None and dest._get_node_flag(flag) is not value
+        }
+        if changed:
+            dest._validate_not_readonly()
+        for flag, value in changed.items():
+            dest._set_flag(flag, value)
 
     def merge_with(
         self,
-- 
2.43.0


From ede5138e97122d470df7a034b222c162bc0f782b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:11 +0000
Subject: [PATCH 15/22] fix: merging into a read-only config changed its types

---
 omegaconf/basecontainer.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 1ee885b..cd90265 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -456,8 +456,10 @@ class BaseContainer(Container, ABC):
             dest._set_value(None)
         elif src._is_missing():
             # do not change dest if src is MISSING.
-            if dest._metadata.element_type is Any:
-                dest._metadata.element_type = src._metadata.element_type
+            element_type = src._metadata.element_type
+            if dest._metadata.element_type is Any and element_type is not Any:
+                dest._validate_not_readonly()
+                dest._metadata.element_type = element_type
         elif src._is_interpolation():
             dest._set_value(src._value())
         else:
@@ -845,10 +847,16 @@ def _create_structured_with_missing_fields(
 
 
 def _update_types(node: Node, ref_type: Any, object_type: Optional[type]) -> None:
-    if object_type is not None and not is_primitive_dict(object_type):
+    if (
+        object_type is not None
+        and not is_primitive_dict(object_type)
+        and node._metadata.object_type is not object_type
+    ):
+        node._validate_not_readonly()
         node._metadata.object_type = object_type
 
-    if node._metadata.ref_type is Any:
+    if node._metadata.ref_type is Any and ref_type is not Any:
+        node._validate_not_readonly()
         _deep_update_type_hint(node, ref_type)
 
 
-- 
2.43.0


From 9f628b74530abf7a840f513a2978e8858f7ea67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:52 +0000
Subject: [PATCH 16/22] fix: a plain mapping nested in a stored container was
 accepted as a structured config

---
 omegaconf/basecontainer.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index cd90265..e341e9d 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -914,9 +914,25 @@ def _deep_update_subnode(node: BaseContainer, key: Any, value_type_hint: Any) ->
         node._wrap_value_and_set(key, subnode._value(), value_type_hint)
         subnode = node._get_node(key)
         assert isinstance(subnode, Node)
+    elif isinstance(subnode, BaseContainer):
+        is_optional, ref_type = _resolve_optional(value_type_hint)
+        if is_structured_config(ref_type) and subnode._metadata.object_type is dict:
+            # A plain mapping takes the place of a structured config.
+            typed_node = _node_of_type(ref_type, is_optional)
+            typed_node._merge_with(subnode)
+            typed_node._set_key(key)
+            typed_node._set_parent(node)
+            node.__dict__["_content"][key] = typed_node
+            subnode = typed_node
     _deep_update_type_hint(subnode, value_type_hint)
 
 
+def _node_of_type(ref_type: Any, is_optional: bool) -> BaseContainer:
+    from omegaconf import DictConfig
+
+    return DictConfig(ref_type, ref_type=ref_type, is_optional=is_optional)
+
+
 def _shallow_validate_type_hint(node: Node, type_hint: Any) -> None:
     """Error if node's type, content and metadata are not compatible with type_hint."""
     from omegaconf import DictConfig, ListConfig, ValueNode
@@ -944,6 +960,14 @@ def _shallow_validate_type_hint(node: Node, type_hint: Any) -> None:
                     + f" is incompatible with type hint '{ref_type.__name__}'"
                 )
         elif is_structured_config(ref_type) and isinstance(node, DictConfig):
+            object_type = node._metadata.object_type
+            if is_structured_config(object_type) and not issubclass(
+                object_type, ref_type  # type: ignore
+            ):
+                raise ValidationError(
+                    f"Value of type '{object_type.__name__}'"  # type: ignore
+                    + f" is incompatible with type hint '{ref_type.__name__}'"
+                )
             return
         elif is_dict_annotation(ref_type) and isinstance(node, DictConfig):
             return
-- 
2.43.0


From 8047fda9988dc4c8091a4802307aec15bfc16905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:29 +0000
Subject: [PATCH 17/22] fix: a typed node holding a missing value or
 interpolation kept its type as an element of another type

---
 omegaconf/basecontainer.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index e341e9d..a61bf91 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -620,7 +620,19 @@ class BaseContainer(Container, ABC):
             _deep_update_type_hint(node=v, type_hint=self._metadata.element_type)
             self.__dict__["_content"][value_key] = v
 
-        if input_is_typed_vnode and not is_union_annotation(target_ref_type):
+        # a special value says nothing about the type of the element: a node of another
+        # type would later accept values the element type does not allow
+        is_other_type = (
+            input_is_typed_vnode
+            and target_ref_type not in (Any, value._metadata.ref_type)
+            and _is_special(value)
+        )
+
+        if (
+            input_is_typed_vnode
+            and not is_union_annotation(target_ref_type)
+            and not is_other_type
+        ):
             assign(key, value)
         else:
             # input is not a ValueNode, can be primitive or box
-- 
2.43.0


From 533dc3360602b4584aff18b8dde93d3419634913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:12 +0000
Subject: [PATCH 18/22] fix: merging with list_merge_mode EXTEND or
 EXTEND_UNIQUE into a list that is None, missing or an interpolation

---
 omegaconf/basecontainer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index a61bf91..513bbff 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -478,7 +478,10 @@ class BaseContainer(Container, ABC):
                 for item in src._iter_ex(resolve=False):
                     temp_target.append(item)
 
-            if list_merge_mode == ListMergeMode.EXTEND:
+            if not isinstance(dest.__dict__["_content"], list):
+                # None, missing or an interpolation: there is nothing to extend
+                dest.__dict__["_content"] = temp_target.__dict__["_content"]
+            elif list_merge_mode == ListMergeMode.EXTEND:
                 dest.__dict__["_content"].extend(temp_target.__dict__["_content"])
             elif list_merge_mode == ListMergeMode.EXTEND_UNIQUE:
                 for entry in temp_target.__dict__["_content"]:
-- 
2.43.0


From 23ee4a042efc5ba4e57a632ec7774a9e09c77b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:12 +0000
Subject: [PATCH 19/22] fix: merging into an untyped list element that is None

---
 omegaconf/basecontainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 513bbff..b6a82ec 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -336,7 +336,7 @@ class BaseContainer(Container, ABC):
             elif isinstance(node, DictConfig):
                 val = {}
             else:
-                assert False
+                val = []
 
             node._set_value(val)
 
-- 
2.43.0


From b42c25eda1047e08e0b052f3b3bf446cdb3ac1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:12 +0000
Subject: [PATCH 20/22] fix: merging a mapping into a config that is None

---
 omegaconf/basecontainer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index b6a82ec..69366ad 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -353,7 +353,9 @@ class BaseContainer(Container, ABC):
                 ref_type=src_ref_type, object_type=src_type
             )
 
-        if (dest._is_interpolation() or dest._is_missing()) and not src._is_missing():
+        if (
+            dest._is_none() or dest._is_interpolation() or dest._is_missing()
+        ) and not src._is_missing():
             expand(dest)
 
         src_items = list(src) if not src._is_missing() else []
-- 
2.43.0


From 66f3ef96a47f8c58768bc47d493eff2e350cf37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 21/22] fix: merging a missing value does not replace an
 interpolation by what it refers to

---
 omegaconf/basecontainer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 69366ad..27c3df9 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -380,7 +380,11 @@ class BaseContainer(Container, ABC):
             ):
                 expand(dest_node)
 
-            if dest_node is not None and dest_node._is_interpolation():
+            if (
+                dest_node is not None
+                and dest_node._is_interpolation()
+                and (not src_node_missing or isinstance(src_node, BaseContainer))
+            ):
                 target_node = dest_node._maybe_dereference_node()
                 if isinstance(target_node, Container):
                     dest[key] = target_node
-- 
2.43.0


From 39dea9156b4f602d438d2a3e3c4dfaf2f764bc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:04 +0000
Subject: [PATCH 22/22] fix: merging checks the type of a source against the
 declared type of a config that is None or an interpolation

---
 omegaconf/dictconfig.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omegaconf/dictconfig.py b/omegaconf/dictconfig.py
index dcba577..99a9b1d 100644
--- a/omegaconf/dictconfig.py
+++ b/omegaconf/dictconfig.py
@@ -227,6 +227,10 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
         dest_obj_type = OmegaConf.get_type(dest)
         src_obj_type = OmegaConf.get_type(src)
 
+        if not is_structured_config(dest_obj_type):
+            # dest may be None, missing or an interpolation: its declared type counts
+            dest_obj_type = dest._metadata.ref_type
+
         if dest._is_missing() and src._metadata.object_type not in (dict, None):
             self._validate_set(key=None, value=_get_value(src))
 
-- 
2.43.0

