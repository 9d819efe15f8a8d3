From 2dbc345fbf62ee08a16f1d7f3fbbc3f4bb1401ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:40 +0000
Subject: [PATCH 01/38] fix: keep the text around comments and processing
 instructions

The lxml backend dropped the text following a comment and treated processing
instructions as elements. Both backends now skip such nodes and keep the text.
---
 pydantic_xml/element/element.py     |  3 +++
 pydantic_xml/element/native/lxml.py | 21 ++++++++++++++-------
 pydantic_xml/element/native/std.py  | 21 ++++++++++++++-------
 3 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/pydantic_xml/element/element.py b/pydantic_xml/element/element.py
index 6bcdb63..4e6c97f 100644
--- a/pydantic_xml/element/element.py
+++ b/pydantic_xml/element/element.py
@@ -368,6 +368,9 @@ class XmlElement(XmlElementReader, XmlElementWriter, Generic[NativeElement]):
     def set_text(self, text: str) -> None:
         self._state.text = text
 
+    def append_tail(self, tail: str) -> None:
+        self._state.tail = (self._state.tail or '') + tail
+
     def set_attribute(self, name: str, value: str) -> None:
         if self._state.attrib is None:
             self._state.attrib = {}
diff --git a/pydantic_xml/element/native/lxml.py b/pydantic_xml/element/native/lxml.py
index 433f553..b1e8221 100644
--- a/pydantic_xml/element/native/lxml.py
+++ b/pydantic_xml/element/native/lxml.py
@@ -18,19 +18,26 @@ ElementT = etree._Element
 class XmlElement(BaseXmlElement[ElementT]):
     @classmethod
     def from_native(cls, element: ElementT) -> 'XmlElement':
+        text, sub_elements = element.text, []
+        for sub_element in element:
+            if not is_xml_comment(sub_element):
+                sub_elements.append(XmlElement.from_native(sub_element))
+            elif sub_element.tail:
+                # the text following a skipped node continues the preceding one
+                if sub_elements:
+                    sub_elements[-1].append_tail(sub_element.tail)
+                else:
+                    text = (text or '') + sub_element.tail
+
         return cls(
             tag=element.tag,
-            text=element.text,
+            text=text,
             tail=element.tail,
             attributes={
                 force_str(name): force_str(value)  # transformation is safe since lxml bytes values are ASCII compatible
                 for name, value in element.attrib.items()
             },
-            elements=[
-                XmlElement.from_native(sub_element)
-                for sub_element in element
-                if not is_xml_comment(sub_element)
-            ],
+            elements=sub_elements,
             sourceline=typing.cast(int, element.sourceline) if element.sourceline is not None else -1,
         )
 
@@ -62,4 +69,4 @@ def force_str(val: Union[str, bytes]) -> str:
 
 
 def is_xml_comment(element: ElementT) -> bool:
-    return isinstance(element, etree._Comment)
+    return isinstance(element, (etree._Comment, etree._ProcessingInstruction))
diff --git a/pydantic_xml/element/native/std.py b/pydantic_xml/element/native/std.py
index f55f22c..fe35762 100644
--- a/pydantic_xml/element/native/std.py
+++ b/pydantic_xml/element/native/std.py
@@ -16,16 +16,23 @@ ElementT = etree.Element
 class XmlElement(BaseXmlElement[ElementT]):
     @classmethod
     def from_native(cls, element: ElementT) -> 'XmlElement':
+        text, sub_elements = element.text, []
+        for sub_element in element:
+            if not is_xml_comment(sub_element):
+                sub_elements.append(XmlElement.from_native(sub_element))
+            elif sub_element.tail:
+                # the text following a skipped node continues the preceding one
+                if sub_elements:
+                    sub_elements[-1].append_tail(sub_element.tail)
+                else:
+                    text = (text or '') + sub_element.tail
+
         return cls(
             tag=element.tag,
-            text=element.text,
+            text=text,
             tail=element.tail,
             attributes=dict(element.attrib),
-            elements=[
-                XmlElement.from_native(sub_element)
-                for sub_element in element
-                if not is_xml_comment(sub_element)
-            ],
+            elements=sub_elements,
         )
 
     def to_native(self) -> ElementT:
@@ -44,4 +51,4 @@ class XmlElement(BaseXmlElement[ElementT]):
 
 
 def is_xml_comment(element: ElementT) -> bool:
-    return element.tag is etree.Comment  # type: ignore[comparison-overlap]
+    return element.tag in (etree.Comment, etree.ProcessingInstruction)  # type: ignore[comparison-overlap]
-- 
2.43.0


From fa6b7a9ab4483f9afba2a6774ccf3a19b864afc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:54 +0000
Subject: [PATCH 02/38] fix: skip empty optional mapping elements

A None mapping bound to an element crashed to_xml(skip_empty=True) and was not
excluded by exclude_none.
---
 pydantic_xml/serializers/factories/mapping.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydantic_xml/serializers/factories/mapping.py b/pydantic_xml/serializers/factories/mapping.py
index e8856c8..a43e021 100644
--- a/pydantic_xml/serializers/factories/mapping.py
+++ b/pydantic_xml/serializers/factories/mapping.py
@@ -106,6 +106,9 @@ class ElementSerializer(AttributesSerializer):
             exclude_none: bool = False,
             exclude_unset: bool = False,
     ) -> Optional[XmlElementWriter]:
+        if value is None and (skip_empty or exclude_none):
+            return element
+
         if skip_empty and len(value) == 0:
             return element
 
-- 
2.43.0


From 988f3a3cabadb5e7c341020711ac28c20494239a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:58 +0000
Subject: [PATCH 03/38] fix: serialize a mapping without dropping other
 attributes

A mapping field replaced the attributes set by the preceding attribute fields.
---
 pydantic_xml/serializers/factories/mapping.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pydantic_xml/serializers/factories/mapping.py b/pydantic_xml/serializers/factories/mapping.py
index a43e021..503ba02 100644
--- a/pydantic_xml/serializers/factories/mapping.py
+++ b/pydantic_xml/serializers/factories/mapping.py
@@ -39,10 +39,8 @@ class AttributesSerializer(Serializer):
             return element
 
         ns = self._nsmap.get(self._ns) if self._namespaced_attrs and self._ns and self._nsmap else None
-        element.set_attributes({
-            QName(tag=attr, ns=ns).uri: str(enc)
-            for attr, enc in encoded.items()
-        })
+        for attr, enc in encoded.items():
+            element.set_attribute(QName(tag=attr, ns=ns).uri, str(enc))
 
         return element
 
-- 
2.43.0


From a027cce06f870d1f324732db08c4c6f13e24c7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:03 +0000
Subject: [PATCH 04/38] fix: encode mapping values as other primitives

Booleans were written as True/False and None as None.
---
 pydantic_xml/serializers/factories/mapping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydantic_xml/serializers/factories/mapping.py b/pydantic_xml/serializers/factories/mapping.py
index 503ba02..44e670c 100644
--- a/pydantic_xml/serializers/factories/mapping.py
+++ b/pydantic_xml/serializers/factories/mapping.py
@@ -4,7 +4,7 @@ from pydantic_core import core_schema as pcs
 
 from pydantic_xml import errors
 from pydantic_xml.element import XmlElementReader, XmlElementWriter
-from pydantic_xml.serializers.serializer import TYPE_FAMILY, SchemaTypeFamily, SearchMode, Serializer
+from pydantic_xml.serializers.serializer import TYPE_FAMILY, SchemaTypeFamily, SearchMode, Serializer, encode_primitive
 from pydantic_xml.typedefs import EntityLocation, Location, NsMap
 from pydantic_xml.utils import QName, merge_nsmaps, select_ns
 
@@ -40,7 +40,7 @@ class AttributesSerializer(Serializer):
 
         ns = self._nsmap.get(self._ns) if self._namespaced_attrs and self._ns and self._nsmap else None
         for attr, enc in encoded.items():
-            element.set_attribute(QName(tag=attr, ns=ns).uri, str(enc))
+            element.set_attribute(QName(tag=attr, ns=ns).uri, encode_primitive(enc))
 
         return element
 
-- 
2.43.0


From 7b98b3477a0c3cdded4a0096d8cc44b67d7a15c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:37 +0000
Subject: [PATCH 05/38] fix: report the right source lines of validation errors

The sourcemap of a model was overwritten by its sub-models since they use
relative locations; errors of aliased fields, root models and model validators
had no source line at all.
---
 pydantic_xml/serializers/factories/model.py | 9 +++++++--
 pydantic_xml/utils.py                       | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pydantic_xml/serializers/factories/model.py b/pydantic_xml/serializers/factories/model.py
index ed5bca9..964054b 100644
--- a/pydantic_xml/serializers/factories/model.py
+++ b/pydantic_xml/serializers/factories/model.py
@@ -207,11 +207,13 @@ class ModelSerializer(BaseModelSerializer):
         if element is None:
             return None
 
+        sourcemap[()] = element.get_sourceline()
+
         result: Dict[str, Any] = {}
         field_errors: Dict[Union[None, str, int], pd.ValidationError] = {}
         for field_name, field_serializer in self._field_serializers.items():
             try:
-                loc = (field_name,)
+                loc = (self._fields_validation_aliases.get(field_name, field_name),)
                 sourcemap[loc] = element.get_sourceline()
                 if custom_field_validator := self._model.__xml_field_validators__.get(field_name):
                     field_value = custom_field_validator(self._model, element, field_name)
@@ -334,6 +336,8 @@ class RootModelSerializer(BaseModelSerializer):
         if element is None:
             return None
 
+        sourcemap[()] = element.get_sourceline()
+
         try:
             result = self._root_serializer.deserialize(
                 element, context=context, sourcemap=sourcemap, loc=loc, empty_as_string=empty_as_string,
@@ -460,8 +464,9 @@ class ModelProxySerializer(BaseModelSerializer):
             if is_element_nill(sub_element):
                 return None
             else:
+                # sub-model error locations are relative to the sub-model so that it has its own sourcemap
                 return self._model.__xml_serializer__.deserialize(
-                    sub_element, context=context, sourcemap=sourcemap, loc=loc, empty_as_string=empty_as_string,
+                    sub_element, context=context, sourcemap={}, loc=(), empty_as_string=empty_as_string,
                 )
         else:
             return None
diff --git a/pydantic_xml/utils.py b/pydantic_xml/utils.py
index bb6e2aa..d2d3da7 100644
--- a/pydantic_xml/utils.py
+++ b/pydantic_xml/utils.py
@@ -138,7 +138,7 @@ def set_validation_error_sourceline(
     line_errors: List[pdc.InitErrorDetails] = []
     for error in err.errors():
         loc, sourceline = error['loc'], -1
-        while loc and (sourceline := sourcemap.get(loc, sourceline)) == -1:
+        while (sourceline := sourcemap.get(loc, sourceline)) == -1 and loc:
             loc = tuple(loc[:-1])
 
         line_errors.append(
-- 
2.43.0


From 2c398f6760bf4dbcd8d603e2195efdb5c08717f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:41 +0000
Subject: [PATCH 06/38] fix: serialize an optional tagged union holding None

---
 pydantic_xml/serializers/factories/tagged_union.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydantic_xml/serializers/factories/tagged_union.py b/pydantic_xml/serializers/factories/tagged_union.py
index 5f17e43..22652ab 100644
--- a/pydantic_xml/serializers/factories/tagged_union.py
+++ b/pydantic_xml/serializers/factories/tagged_union.py
@@ -76,6 +76,9 @@ class ModelSerializer(Serializer):
             exclude_none: bool = False,
             exclude_unset: bool = False,
     ) -> Optional[XmlElementWriter]:
+        if value is None:
+            return None
+
         if (tag := encoded.get(self._discriminator)) and (serializer := self._inner_serializers[tag]):
             return serializer.serialize(
                 element, value, encoded, skip_empty=skip_empty, exclude_none=exclude_none, exclude_unset=exclude_unset,
-- 
2.43.0


From 2e486c599435d536c5cbaaa159a4e3d029daac72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:59 +0000
Subject: [PATCH 07/38] fix: serialize model subclass instances held by a union

Such values were silently dropped although they are serialized as the declared
model everywhere else.
---
 pydantic_xml/serializers/factories/union.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pydantic_xml/serializers/factories/union.py b/pydantic_xml/serializers/factories/union.py
index 67ad02f..0edaa28 100644
--- a/pydantic_xml/serializers/factories/union.py
+++ b/pydantic_xml/serializers/factories/union.py
@@ -106,14 +106,17 @@ class ModelSerializer(Serializer):
             exclude_none: bool = False,
             exclude_unset: bool = False,
     ) -> Optional[XmlElementWriter]:
-        for serializer in self._inner_serializers:
-            if serializer.model is type(value):
-                return serializer.serialize(
-                    element, value, encoded,
-                    skip_empty=skip_empty,
-                    exclude_none=exclude_none,
-                    exclude_unset=exclude_unset,
-                )
+        serializers = (
+            *(s for s in self._inner_serializers if s.model is type(value)),
+            *(s for s in self._inner_serializers if isinstance(value, s.model)),
+        )
+        for serializer in serializers:
+            return serializer.serialize(
+                element, value, encoded,
+                skip_empty=skip_empty,
+                exclude_none=exclude_none,
+                exclude_unset=exclude_unset,
+            )
 
         return None
 
-- 
2.43.0


From 6158a24b3498b9a0e6eae8e3b911128deb919c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:03 +0000
Subject: [PATCH 08/38] fix: prefer the nearest namespace map

A nested entity resolved a prefix redefined by its wrapper using the namespace
map of the model.
---
 pydantic_xml/serializers/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydantic_xml/serializers/serializer.py b/pydantic_xml/serializers/serializer.py
index 40a4e53..59b0ca0 100644
--- a/pydantic_xml/serializers/serializer.py
+++ b/pydantic_xml/serializers/serializer.py
@@ -154,8 +154,8 @@ class Serializer(abc.ABC):
         def parent_nsmap(self) -> Optional[NsMap]:
             if parent_ctx := self.parent_ctx:
                 return {
-                    **(parent_ctx.entity_nsmap or {}),
                     **(parent_ctx.parent_nsmap or {}),
+                    **(parent_ctx.entity_nsmap or {}),
                 }
 
             return None
-- 
2.43.0


From c6dad2eb59c374a208c804b14f438cf6c139c69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:07 +0000
Subject: [PATCH 09/38] fix: pass the module name to dynamically created models

---
 pydantic_xml/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydantic_xml/model.py b/pydantic_xml/model.py
index 2473bff..bdf16b8 100644
--- a/pydantic_xml/model.py
+++ b/pydantic_xml/model.py
@@ -88,6 +88,9 @@ def create_model(
         else:
             model_base = (*model_base, BaseWithConfig)
 
+    if __module__ is not None:
+        kwargs['__module__'] = __module__
+
     model = pd.create_model(__model_name, __base__=model_base, **kwargs)
 
     return typing.cast(Type[Model], model)
-- 
2.43.0


From bf359483b0d55b62b5e916851dc4881c23208201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:33 +0000
Subject: [PATCH 10/38] fix: resolve local forward references in model_rebuild

The overridden method added a frame so that the caller namespace was not found,
and dropped the result.
---
 pydantic_xml/model.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pydantic_xml/model.py b/pydantic_xml/model.py
index bdf16b8..497a1d6 100644
--- a/pydantic_xml/model.py
+++ b/pydantic_xml/model.py
@@ -243,12 +243,16 @@ class BaseXmlModel(BaseModel, __xml_abstract__=True, metaclass=XmlModelMeta):
             cls.__xml_serializer__ = None
 
     @classmethod
-    def model_rebuild(cls, **kwargs: Any) -> None:
-        super().model_rebuild(**kwargs)
+    def model_rebuild(cls, **kwargs: Any) -> Optional[bool]:
+        # forward references are resolved in the caller namespace so that this method frame must be skipped
+        kwargs['_parent_namespace_depth'] = kwargs.get('_parent_namespace_depth', 2) + 1
+        result = super().model_rebuild(**kwargs)
 
         if cls.__xml_serializer__ is None and cls.__pydantic_complete__:
             cls.__build_serializer__()
 
+        return result
+
     @classmethod
     def from_xml_tree(
             cls: Type[ModelT],
-- 
2.43.0


From c28c713891943f43e3c4da61310fd63484701f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:38 +0000
Subject: [PATCH 11/38] fix: let a subclass override xml serializers and
 validators of its base

Which one of several functions bound to the same field was used depended on the
set iteration order.
---
 pydantic_xml/model.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pydantic_xml/model.py b/pydantic_xml/model.py
index 497a1d6..cbb6daf 100644
--- a/pydantic_xml/model.py
+++ b/pydantic_xml/model.py
@@ -132,7 +132,15 @@ class XmlModelMeta(ModelMetaclass):
         # though we want to skip any BaseModel attributes, as these can never be field
         # serializers/validators, and getting certain pydantic fields
         # may cause recursion errors for recursive / self-referential models
-        for attr_name in set(dir(cls)) - set(dir(BaseModel)):
+        # attributes are ordered by the class that defines them so that a subclass takes precedence over its bases
+        attr_names: Dict[str, None] = {}
+        for base in reversed(cls.__mro__):
+            for attr_name in vars(base):
+                attr_names.pop(attr_name, None)
+                attr_names[attr_name] = None
+
+        custom_attrs = set(dir(cls)) - set(dir(BaseModel))
+        for attr_name in filter(custom_attrs.__contains__, attr_names):
             if func := getattr(cls, attr_name, None):
                 if fields := getattr(func, '__xml_field_serializer__', None):
                     for field in fields:
-- 
2.43.0


From f17b7c58c2d1f5779cbebe2554a2d2c3866340f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:57 +0000
Subject: [PATCH 12/38] fix: support the exclude_if field option

Pydantic omits such fields from the encoded data, which failed with KeyError.
---
 pydantic_xml/serializers/factories/model.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pydantic_xml/serializers/factories/model.py b/pydantic_xml/serializers/factories/model.py
index 964054b..441a77b 100644
--- a/pydantic_xml/serializers/factories/model.py
+++ b/pydantic_xml/serializers/factories/model.py
@@ -1,6 +1,6 @@
 import abc
 import typing
-from typing import Any, Dict, List, Mapping, Optional, Set, Type, Union
+from typing import Any, Callable, Dict, List, Mapping, Optional, Set, Type, Union
 
 import pydantic as pd
 import pydantic_core as pdc
@@ -73,6 +73,7 @@ class ModelSerializer(BaseModelSerializer):
 
         entity_info: Optional[XmlEntityInfoP]
         fields_serialization_exclude: Set[str] = set()
+        fields_serialization_exclude_if: Dict[str, Callable[[Any], bool]] = {}
         fields_validation_aliases: Dict[str, str] = {}
         fields_serializers: Dict[str, Serializer] = {}
         for field_name, model_field in fields_schema['fields'].items():
@@ -82,6 +83,8 @@ class ModelSerializer(BaseModelSerializer):
 
             if model_field.get('serialization_exclude', False):
                 fields_serialization_exclude.add(field_name)
+            if exclude_if := model_field.get('serialization_exclude_if'):
+                fields_serialization_exclude_if[field_name] = exclude_if
 
             field_alias = model_field.get('serialization_alias')
             if validation_alias := model_field.get('validation_alias'):
@@ -121,7 +124,8 @@ class ModelSerializer(BaseModelSerializer):
 
         return cls(
             model_cls, name, ns, nsmap,
-            fields_serializers, fields_validation_aliases, fields_serialization_exclude,
+            fields_serializers, fields_validation_aliases,
+            fields_serialization_exclude, fields_serialization_exclude_if,
             hide_input_in_errors,
         )
 
@@ -134,6 +138,7 @@ class ModelSerializer(BaseModelSerializer):
             field_serializers: Dict[str, Serializer],
             fields_validation_aliases: Dict[str, str],
             fields_serialization_exclude: Set[str],
+            fields_serialization_exclude_if: Dict[str, Callable[[Any], bool]],
             hide_input_in_errors: bool,
     ):
 
@@ -143,6 +148,7 @@ class ModelSerializer(BaseModelSerializer):
         self._nsmap = nsmap
         self._fields_validation_aliases = fields_validation_aliases
         self._fields_serialization_exclude = fields_serialization_exclude
+        self._fields_serialization_exclude_if = fields_serialization_exclude_if
         self._hide_input_in_errors = hide_input_in_errors
 
     @property
@@ -180,6 +186,9 @@ class ModelSerializer(BaseModelSerializer):
         for field_name, field_serializer in self._field_serializers.items():
             if field_name in self._fields_serialization_exclude:
                 continue
+            if exclude_if := self._fields_serialization_exclude_if.get(field_name):
+                if exclude_if(getattr(value, field_name)):
+                    continue
             if exclude_unset and field_name not in value.__pydantic_fields_set__:
                 continue
 
-- 
2.43.0


From 06e5399ea5fa055a5185f5345cf2f5c75597d1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:02 +0000
Subject: [PATCH 13/38] fix: accept all lexical forms of xsi:nil

xsi:nil is of xs:boolean type so that "1" is as valid as "true".
---
 pydantic_xml/element/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydantic_xml/element/utils.py b/pydantic_xml/element/utils.py
index 7d49827..f68d690 100644
--- a/pydantic_xml/element/utils.py
+++ b/pydantic_xml/element/utils.py
@@ -4,7 +4,7 @@ XSI_NS = 'http://www.w3.org/2001/XMLSchema-instance'
 
 
 def is_element_nill(element: XmlElementReader) -> bool:
-    if (is_nil := element.pop_attrib('{%s}nil' % XSI_NS)) and is_nil == 'true':
+    if (is_nil := element.pop_attrib('{%s}nil' % XSI_NS)) and is_nil.strip() in ('true', '1'):
         return True
     else:
         return False
-- 
2.43.0


From f4d84d7e353ca2c9f18bfdee6be00aa1cafb6b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:46 +0000
Subject: [PATCH 14/38] fix: do not leave empty wrapper elements with
 skip_empty

The elements of a wrapped path were emitted even though the wrapped entity was
skipped as an empty one.
---
 pydantic_xml/element/element.py               | 12 ++++++++++++
 pydantic_xml/serializers/factories/wrapper.py |  8 ++++++++
 2 files changed, 20 insertions(+)

diff --git a/pydantic_xml/element/element.py b/pydantic_xml/element/element.py
index 4e6c97f..e373972 100644
--- a/pydantic_xml/element/element.py
+++ b/pydantic_xml/element/element.py
@@ -220,6 +220,14 @@ class XmlElementWriter(abc.ABC):
         :param element: sub-element to be added
         """
 
+    @abc.abstractmethod
+    def remove_element(self, element: 'XmlElementWriter') -> None:
+        """
+        Removes a sub-element from the xml element.
+
+        :param element: sub-element to be removed
+        """
+
     @abc.abstractmethod
     def make_element(self, tag: str, nsmap: Optional[NsMap]) -> 'XmlElement[Any]':
         """
@@ -384,6 +392,10 @@ class XmlElement(XmlElementReader, XmlElementWriter, Generic[NativeElement]):
         self._state.elements.append(element)
         self._state.next_element_idx += 1
 
+    def remove_element(self, element: XmlElementWriter) -> None:
+        self._state.elements.remove(element)  # type: ignore[arg-type]
+        self._state.next_element_idx -= 1
+
     def get_attrib(self, name: str) -> Optional[str]:
         return self._state.attrib.get(name, None) if self._state.attrib else None
 
diff --git a/pydantic_xml/serializers/factories/wrapper.py b/pydantic_xml/serializers/factories/wrapper.py
index a21436e..9ec4190 100644
--- a/pydantic_xml/serializers/factories/wrapper.py
+++ b/pydantic_xml/serializers/factories/wrapper.py
@@ -55,13 +55,21 @@ class ElementPathSerializer(Serializer):
         if skip_empty and isinstance(value, Sized) and len(value) == 0:
             return element
 
+        path_elements = [element]
         for part in self._path:
             element = element.find_element_or_create(part, self._search_mode, nsmap=self._nsmap)
+            path_elements.append(element)
 
         self._inner_serializer.serialize(
             element, value, encoded, skip_empty=skip_empty, exclude_none=exclude_none, exclude_unset=exclude_unset,
         )
 
+        if skip_empty:
+            # path elements are created before it is known if the inner entity is empty
+            while len(path_elements) > 1 and path_elements[-1].is_empty():
+                sub_element = path_elements.pop()
+                path_elements[-1].remove_element(sub_element)
+
         return element
 
     def deserialize(
-- 
2.43.0


From 68fb3d7b5bbe782620da0041ee72bad06ba48511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:03 +0000
Subject: [PATCH 15/38] fix: report errors of a union element once in ordered
 and unordered modes

The position was moved by one instead of past the failed element so that the
element was found and reported again.
---
 pydantic_xml/serializers/factories/model.py | 7 +++++++
 pydantic_xml/serializers/factories/union.py | 6 ++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/pydantic_xml/serializers/factories/model.py b/pydantic_xml/serializers/factories/model.py
index 441a77b..848f930 100644
--- a/pydantic_xml/serializers/factories/model.py
+++ b/pydantic_xml/serializers/factories/model.py
@@ -480,6 +480,13 @@ class ModelProxySerializer(BaseModelSerializer):
         else:
             return None
 
+    def skip(self, element: XmlElementReader) -> None:
+        """
+        Moves the element forward past the sub-element the model is bound to.
+        """
+
+        element.pop_element(self._element_name, self._search_mode)
+
 
 def from_core_schema(schema: pcs.ModelSchema, ctx: Serializer.Context) -> Serializer:
     is_root_model = schema['root_model']
diff --git a/pydantic_xml/serializers/factories/union.py b/pydantic_xml/serializers/factories/union.py
index 0edaa28..1ef73d5 100644
--- a/pydantic_xml/serializers/factories/union.py
+++ b/pydantic_xml/serializers/factories/union.py
@@ -136,6 +136,7 @@ class ModelSerializer(Serializer):
             return None
 
         union_errors: Dict[Union[None, str, int], pd.ValidationError] = {}
+        failed_serializer: Optional[ModelProxySerializer] = None
         result: Any = None
         for serializer in self._inner_serializers:
             snapshot = element.create_snapshot()
@@ -151,9 +152,10 @@ class ModelSerializer(Serializer):
                     return result
             except pd.ValidationError as e:
                 union_errors[e.title] = e
+                failed_serializer = failed_serializer or serializer
 
-        if union_errors:
-            element.step_forward()
+        if failed_serializer is not None:
+            failed_serializer.skip(element)
             raise utils.into_validation_error(
                 title=self._model_name, errors_map=union_errors, hide_input=self._hide_input_in_errors,
             )
-- 
2.43.0


From 9f2ec3d382af28f1591ace79b45cef9b20686931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:44 +0000
Subject: [PATCH 16/38] fix: make the mypy plugin recognize field specifiers

The plugin looked for attr, element and wrapped in the wrong module so that
required fields, aliases, strict and frozen options were all ignored. Arguments
of the wrapped entities are taken into account too since they define the field.
---
 pydantic_xml/mypy.py | 129 +++++++++++++++++++++----------------------
 1 file changed, 62 insertions(+), 67 deletions(-)

diff --git a/pydantic_xml/mypy.py b/pydantic_xml/mypy.py
index a789d77..6c454d3 100644
--- a/pydantic_xml/mypy.py
+++ b/pydantic_xml/mypy.py
@@ -1,13 +1,13 @@
-from typing import Callable, Optional, Tuple, Union
+from typing import Callable, Iterator, Optional, Tuple, Union
 
 from mypy import nodes
 from mypy.plugin import ClassDefContext, Plugin
 from pydantic.mypy import PydanticModelTransformer, PydanticPlugin
 
 MODEL_METACLASS_FULLNAME = 'pydantic_xml.model.XmlModelMeta'
-ATTR_FULLNAME = 'pydantic_xml.model.attr'
-ELEMENT_FULLNAME = 'pydantic_xml.model.element'
-WRAPPED_FULLNAME = 'pydantic_xml.model.wrapped'
+ATTR_FULLNAME = 'pydantic_xml.fields.attr'
+ELEMENT_FULLNAME = 'pydantic_xml.fields.element'
+WRAPPED_FULLNAME = 'pydantic_xml.fields.wrapped'
 ENTITIES_FULLNAME = (ATTR_FULLNAME, ELEMENT_FULLNAME, WRAPPED_FULLNAME)
 
 
@@ -29,82 +29,77 @@ class PydanticXmlPlugin(PydanticPlugin):
 class PydanticXmlModelTransformer(PydanticModelTransformer):
     @staticmethod
     def get_has_default(stmt: nodes.AssignmentStmt) -> bool:
-        expr = stmt.rvalue
-        if isinstance(expr, nodes.TempNode):
-            return False
+        if not is_entity(stmt.rvalue):
+            return PydanticModelTransformer.get_has_default(stmt)
 
-        if (
-            isinstance(expr, nodes.CallExpr) and
-            isinstance(expr.callee, nodes.RefExpr) and
-            expr.callee.fullname in ENTITIES_FULLNAME
-        ):
-            for arg, name in zip(expr.args, expr.arg_names):
-                if name == 'default':
-                    return arg.__class__ is not nodes.EllipsisExpr
-                if name == 'default_factory':
-                    return not (isinstance(arg, nodes.NameExpr) and arg.fullname == 'builtins.None')
+        for arg in get_entity_args(stmt.rvalue, 'default'):
+            if not isinstance(arg, nodes.EllipsisExpr):
+                return True
+        for arg in get_entity_args(stmt.rvalue, 'default_factory'):
+            if not (isinstance(arg, nodes.NameExpr) and arg.fullname == 'builtins.None'):
+                return True
 
-            return False
-
-        return PydanticModelTransformer.get_has_default(stmt)
+        return False
 
     @staticmethod
     def get_alias_info(stmt: nodes.AssignmentStmt) -> Tuple[Union[str, None], bool]:
-        expr = stmt.rvalue
-        if isinstance(expr, nodes.TempNode):
-            return None, False
-
-        if (
-            isinstance(expr, nodes.CallExpr) and
-            isinstance(expr.callee, nodes.RefExpr) and
-            expr.callee.fullname in ENTITIES_FULLNAME
-        ):
-            for arg, arg_name in zip(expr.args, expr.arg_names):
-                if arg_name != 'alias':
-                    continue
+        if not is_entity(stmt.rvalue):
+            return PydanticModelTransformer.get_alias_info(stmt)
+
+        for arg_name in ('validation_alias', 'alias'):
+            for arg in get_entity_args(stmt.rvalue, arg_name):
                 if isinstance(arg, nodes.StrExpr):
                     return arg.value, False
                 else:
                     return None, True
 
-        return PydanticModelTransformer.get_alias_info(stmt)
+        return None, False
 
     @staticmethod
     def get_strict(stmt: nodes.AssignmentStmt) -> Optional[bool]:
-        expr = stmt.rvalue
-        if (
-            isinstance(expr, nodes.CallExpr) and
-            isinstance(expr.callee, nodes.RefExpr) and
-            expr.callee.fullname in ENTITIES_FULLNAME
-        ):
-            for arg, name in zip(expr.args, expr.arg_names):
-                if name != 'strict':
-                    continue
-                if isinstance(arg, nodes.NameExpr):
-                    if arg.fullname == 'builtins.True':
-                        return True
-                    elif arg.fullname == 'builtins.False':
-                        return False
-                return None
-
-        return PydanticModelTransformer.get_strict(stmt)
+        if not is_entity(stmt.rvalue):
+            return PydanticModelTransformer.get_strict(stmt)
+
+        for arg in get_entity_args(stmt.rvalue, 'strict'):
+            if isinstance(arg, nodes.NameExpr):
+                if arg.fullname == 'builtins.True':
+                    return True
+                elif arg.fullname == 'builtins.False':
+                    return False
+            return None
+
+        return None
 
     @staticmethod
     def is_field_frozen(stmt: nodes.AssignmentStmt) -> bool:
-        expr = stmt.rvalue
-        if isinstance(expr, nodes.TempNode):
-            return False
-
-        if not (
-            isinstance(expr, nodes.CallExpr) and
-            isinstance(expr.callee, nodes.RefExpr) and
-            expr.callee.fullname in ENTITIES_FULLNAME
-        ):
-            return False
-
-        for i, arg_name in enumerate(expr.arg_names):
-            if arg_name == 'frozen':
-                arg = expr.args[i]
-                return isinstance(arg, nodes.NameExpr) and arg.fullname == 'builtins.True'
-
-        return PydanticModelTransformer.is_field_frozen(stmt)
+        if not is_entity(stmt.rvalue):
+            return PydanticModelTransformer.is_field_frozen(stmt)
+
+        for arg in get_entity_args(stmt.rvalue, 'frozen'):
+            return isinstance(arg, nodes.NameExpr) and arg.fullname == 'builtins.True'
+
+        return False
+
+
+def is_entity(expr: nodes.Expression) -> bool:
+    return (
+        isinstance(expr, nodes.CallExpr) and
+        isinstance(expr.callee, nodes.RefExpr) and
+        expr.callee.fullname in ENTITIES_FULLNAME
+    )
+
+
+def get_entity_args(expr: nodes.Expression, name: str) -> Iterator[nodes.Expression]:
+    """
+    Returns the values of the keyword argument of the entity and the entities wrapped by it.
+    """
+
+    if not is_entity(expr):
+        return
+
+    assert isinstance(expr, nodes.CallExpr)
+    for arg, arg_name in zip(expr.args, expr.arg_names):
+        if arg_name == name:
+            yield arg
+    for arg in expr.args:
+        yield from get_entity_args(arg, name)
-- 
2.43.0


From ab15b97c144cc2052cc392cf332031965482a8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:48 +0000
Subject: [PATCH 17/38] fix: allow a computed entity decorator to be applied
 many times

The decorator lost its parameters after the first use.
---
 pydantic_xml/fields.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pydantic_xml/fields.py b/pydantic_xml/fields.py
index a262a7d..a750720 100644
--- a/pydantic_xml/fields.py
+++ b/pydantic_xml/fields.py
@@ -257,12 +257,12 @@ def computed_entity(
         prop: Optional[PropertyT] = None,
         **kwargs: Any,
 ) -> Union[PropertyT, Callable[[PropertyT], PropertyT]]:
-    def decorator(prop: Any) -> Any:
-        path = kwargs.pop('path', None)
-        ns = kwargs.pop('ns', None)
-        nsmap = kwargs.pop('nsmap', None)
-        nillable = kwargs.pop('nillable', None)
+    path = kwargs.pop('path', None)
+    ns = kwargs.pop('ns', None)
+    nsmap = kwargs.pop('nsmap', None)
+    nillable = kwargs.pop('nillable', None)
 
+    def decorator(prop: Any) -> Any:
         descriptor_proxy = pd.computed_field(**kwargs)(prop)
         descriptor_proxy.decorator_info = ComputedXmlEntityInfo(
             location=location,
-- 
2.43.0


From 281b9e2d7caf2671d20069d41f5b23c4c58b16c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:52 +0000
Subject: [PATCH 18/38] fix: keep raw elements and attributes of wrapped fields
 with skip_empty

---
 pydantic_xml/serializers/factories/wrapper.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pydantic_xml/serializers/factories/wrapper.py b/pydantic_xml/serializers/factories/wrapper.py
index 9ec4190..881f72b 100644
--- a/pydantic_xml/serializers/factories/wrapper.py
+++ b/pydantic_xml/serializers/factories/wrapper.py
@@ -1,4 +1,4 @@
-from typing import Any, Dict, Optional, Sized
+from typing import Any, Dict, Optional
 
 from pydantic_core import core_schema as pcs
 
@@ -52,9 +52,6 @@ class ElementPathSerializer(Serializer):
         if value is None:
             return element
 
-        if skip_empty and isinstance(value, Sized) and len(value) == 0:
-            return element
-
         path_elements = [element]
         for part in self._path:
             element = element.find_element_or_create(part, self._search_mode, nsmap=self._nsmap)
-- 
2.43.0


From be533ea338f6d5084087f71651f7403b2abd89af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:55 +0000
Subject: [PATCH 19/38] fix: respect aliases given to wrapped entities

---
 pydantic_xml/fields.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pydantic_xml/fields.py b/pydantic_xml/fields.py
index a750720..9ffe820 100644
--- a/pydantic_xml/fields.py
+++ b/pydantic_xml/fields.py
@@ -108,11 +108,14 @@ _Unset: Any = pdc.PydanticUndefined
 
 
 def prepare_field_kwargs(kwargs: Dict[str, Any]) -> Dict[str, Any]:
+    if (alias := kwargs.get('alias')) is None:
+        return kwargs
+
     if kwargs.get('serialization_alias') in (None, pdc.PydanticUndefined):
-        kwargs['serialization_alias'] = kwargs.get('alias')
+        kwargs['serialization_alias'] = alias
 
     if kwargs.get('validation_alias') in (None, pdc.PydanticUndefined):
-        kwargs['validation_alias'] = kwargs.get('alias')
+        kwargs['validation_alias'] = alias
 
     return kwargs
 
@@ -199,6 +202,8 @@ def wrapped(
     :param kwargs: pydantic field arguments. See :py:class:`pydantic.Field`
     """
 
+    kwargs = prepare_field_kwargs(kwargs)
+
     if entity is None:
         wrapped_entity_info = None
         field_info = pd.fields.FieldInfo(default=default, default_factory=default_factory, **kwargs)
-- 
2.43.0


From ed4b3f180fb6a96dc0b8fd12bb375c0ffb90a7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:58 +0000
Subject: [PATCH 20/38] fix: keep the namespaces of nested elements when
 serializing with lxml

---
 pydantic_xml/element/native/lxml.py | 40 ++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/pydantic_xml/element/native/lxml.py b/pydantic_xml/element/native/lxml.py
index b1e8221..6825b33 100644
--- a/pydantic_xml/element/native/lxml.py
+++ b/pydantic_xml/element/native/lxml.py
@@ -1,5 +1,5 @@
 import typing
-from typing import Optional, Union
+from typing import Dict, Optional, Union
 
 from lxml import etree
 
@@ -42,17 +42,49 @@ class XmlElement(BaseXmlElement[ElementT]):
         )
 
     def to_native(self) -> ElementT:
+        nsmap = self._get_native_nsmap({})
         element = etree.Element(
             self._tag,
             attrib=self._state.attrib,
             # https://github.com/lxml/lxml-stubs/issues/76
-            nsmap={ns or None: uri for ns, uri in self._nsmap.items()} if self._nsmap else None,  # type: ignore[misc]
+            nsmap=nsmap or None,  # type: ignore[arg-type]
         )
+        self._fill_native(element, nsmap)
+
+        return element
+
+    def _fill_native(self, element: ElementT, scope: Dict[Optional[str], str]) -> None:
         element.text = self._state.text
         element.tail = self._state.tail
-        element.extend([element.to_native() for element in self._state.elements])
 
-        return element
+        # sub-elements are created in place: lxml confuses the namespaces of moved elements
+        # if a prefix is declared again with a different uri.
+        for sub_element in self._state.elements:
+            nsmap = sub_element._get_native_nsmap(scope)  # type: ignore[attr-defined]
+            native_element = etree.SubElement(
+                element,
+                sub_element._tag,
+                attrib=sub_element._state.attrib,
+                nsmap=nsmap or None,
+            )
+            sub_element._fill_native(native_element, {**scope, **nsmap})  # type: ignore[attr-defined]
+
+    def _get_native_nsmap(self, scope: Dict[Optional[str], str]) -> Dict[Optional[str], str]:
+        """
+        Returns the namespaces to be declared by the element. The default namespace is not declared
+        if the element contains unqualified ones since lxml is not able to undeclare it.
+        """
+
+        nsmap: Dict[Optional[str], str] = {ns or None: uri for ns, uri in (self._nsmap or {}).items()}
+        if nsmap.get(None, scope.get(None)) != scope.get(None) and self._has_unqualified():
+            del nsmap[None]
+
+        return {ns: uri for ns, uri in nsmap.items() if scope.get(ns) != uri}
+
+    def _has_unqualified(self) -> bool:
+        return not self._tag.startswith('{') or any(
+            element._has_unqualified() for element in self._state.elements  # type: ignore[attr-defined]
+        )
 
     def make_element(self, tag: str, nsmap: Optional[NsMap]) -> 'XmlElement':
         return XmlElement(tag, nsmap=nsmap)
-- 
2.43.0


From a44bba5318347fa4cd963b8d3e5d1d83b1e8c8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:43 +0000
Subject: [PATCH 21/38] fix: do not fail on unresolved entity references

---
 pydantic_xml/element/native/lxml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydantic_xml/element/native/lxml.py b/pydantic_xml/element/native/lxml.py
index 6825b33..2f96f11 100644
--- a/pydantic_xml/element/native/lxml.py
+++ b/pydantic_xml/element/native/lxml.py
@@ -101,4 +101,5 @@ def force_str(val: Union[str, bytes]) -> str:
 
 
 def is_xml_comment(element: ElementT) -> bool:
-    return isinstance(element, (etree._Comment, etree._ProcessingInstruction))
+    # entity references are left in the tree if the parser is configured not to resolve them
+    return isinstance(element, (etree._Comment, etree._ProcessingInstruction, etree._Entity))
-- 
2.43.0


From cfff0105aaea702907a8a1fb76b52a043371102c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:26 +0000
Subject: [PATCH 22/38] fix: support recursive discriminated unions

---
 .../serializers/factories/tagged_union.py     | 62 +++++++++++++------
 1 file changed, 43 insertions(+), 19 deletions(-)

diff --git a/pydantic_xml/serializers/factories/tagged_union.py b/pydantic_xml/serializers/factories/tagged_union.py
index 22652ab..cf43832 100644
--- a/pydantic_xml/serializers/factories/tagged_union.py
+++ b/pydantic_xml/serializers/factories/tagged_union.py
@@ -23,7 +23,6 @@ class ModelSerializer(Serializer):
         if not isinstance(discriminator, str):
             raise errors.ModelFieldError(ctx.model_name, ctx.field_name, "only string discriminators are supported")
 
-        discriminating_attr_name: Optional[str] = None
         inner_serializers: Dict[str, ModelProxySerializer] = {}
         for tag, choice_schema in schema['choices'].items():
             if not isinstance(tag, str):
@@ -33,39 +32,60 @@ class ModelSerializer(Serializer):
             assert isinstance(serializer, ModelProxySerializer), "unexpected serializer type"
             inner_serializers[tag] = serializer
 
-            model_serializer = serializer.model_serializer
-            assert isinstance(model_serializer, factories.model.ModelSerializer), "unexpected model serializer type"
-
-            discriminator_serializer = model_serializer.fields_serializers.get(discriminator)
-            if not isinstance(discriminator_serializer, AttributeSerializer):
-                raise errors.ModelFieldError(
-                    ctx.model_name, ctx.field_name, "discriminator field must be an xml attribute",
-                )
-
-            if discriminating_attr_name is not None and discriminating_attr_name != discriminator_serializer.attr_name:
-                raise errors.ModelFieldError(
-                    ctx.model_name, ctx.field_name, "sub-models discriminating attributes must have the same name",
-                )
-            discriminating_attr_name = discriminator_serializer.attr_name
+        assert inner_serializers, "schema choices are not provided"
 
-        assert discriminating_attr_name is not None, "schema choices are not provided"
+        self = cls(ctx.model_name, ctx.field_name, computed, discriminator, inner_serializers, search_mode)
+        self._resolve_discriminating_attr_name()
 
-        return cls(computed, discriminator, discriminating_attr_name, inner_serializers, search_mode)
+        return self
 
     def __init__(
             self,
+            model_name: str,
+            field_name: Optional[str],
             computed: bool,
             discriminator: str,
-            discriminating_attr_name: str,
             inner_serializers: Dict[str, ModelProxySerializer],
             search_mode: SearchMode,
     ):
+        self._model_name = model_name
+        self._field_name = field_name
         self._computed = computed
         self._discriminator = discriminator
-        self._discriminating_attr_name = discriminating_attr_name
+        self._discriminating_attr_name: Optional[str] = None
         self._inner_serializers = inner_serializers
         self._search_mode = search_mode
 
+    def _resolve_discriminating_attr_name(self) -> None:
+        """
+        Finds the discriminating attribute shared by all the sub-models. It remains undefined until all of them are
+        built: a sub-model that refers to the union (recursively) is built after it.
+        """
+
+        discriminating_attr_name: Optional[str] = None
+        complete = True
+        for serializer in self._inner_serializers.values():
+            model_serializer = serializer.model_serializer
+            if model_serializer is None:
+                complete = False
+                continue
+            assert isinstance(model_serializer, factories.model.ModelSerializer), "unexpected model serializer type"
+
+            discriminator_serializer = model_serializer.fields_serializers.get(self._discriminator)
+            if not isinstance(discriminator_serializer, AttributeSerializer):
+                raise errors.ModelFieldError(
+                    self._model_name, self._field_name, "discriminator field must be an xml attribute",
+                )
+
+            if discriminating_attr_name is not None and discriminating_attr_name != discriminator_serializer.attr_name:
+                raise errors.ModelFieldError(
+                    self._model_name, self._field_name, "sub-models discriminating attributes must have the same name",
+                )
+            discriminating_attr_name = discriminator_serializer.attr_name
+
+        if complete:
+            self._discriminating_attr_name = discriminating_attr_name
+
     def serialize(
             self,
             element: XmlElementWriter,
@@ -101,6 +121,10 @@ class ModelSerializer(Serializer):
         if element is None:
             return None
 
+        if self._discriminating_attr_name is None:
+            self._resolve_discriminating_attr_name()
+        assert self._discriminating_attr_name is not None, f"model {self._model_name} is partially initialized"
+
         for tag, serializer in self._inner_serializers.items():
             sub_element = element.find_element(
                 serializer.element_name,
-- 
2.43.0


From b7fee92597b9d2313ba7621368298d16166a5702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:38 +0000
Subject: [PATCH 23/38] fix: build generic models parametrized by root models

---
 pydantic_xml/model.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pydantic_xml/model.py b/pydantic_xml/model.py
index cbb6daf..57f4f8f 100644
--- a/pydantic_xml/model.py
+++ b/pydantic_xml/model.py
@@ -217,13 +217,14 @@ class BaseXmlModel(BaseModel, __xml_abstract__=True, metaclass=XmlModelMeta):
             return
 
         # checks that all generic parameters are provided
-        if cls.__pydantic_root_model__:
-            if cls.__pydantic_generic_metadata__['parameters']:
-                if cls.model_fields.get('root') is None or isinstance(cls.model_fields['root'].annotation, TypeVar):
-                    cls.__xml_serializer__ = None
-                    return
-        else:
-            if cls.__pydantic_generic_metadata__['parameters']:
+        # (a class inherited from RootXmlModel stays formally parametrized by the root type even if it defines the root)
+        generic_parameters = cls.__pydantic_generic_metadata__['parameters']
+        if any(parameter is not RootModelRootType for parameter in generic_parameters):
+            cls.__xml_serializer__ = None
+            return
+
+        if cls.__pydantic_root_model__ and generic_parameters:
+            if cls.model_fields.get('root') is None or isinstance(cls.model_fields['root'].annotation, TypeVar):
                 cls.__xml_serializer__ = None
                 return
 
-- 
2.43.0


From aa64a55d826ef8de4a34c9d415fd3fa56cb9908d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:23 +0000
Subject: [PATCH 24/38] fix: let a dynamically created model belong to the
 caller module

---
 pydantic_xml/model.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pydantic_xml/model.py b/pydantic_xml/model.py
index 57f4f8f..c74373a 100644
--- a/pydantic_xml/model.py
+++ b/pydantic_xml/model.py
@@ -1,3 +1,4 @@
+import sys
 import typing
 from typing import Any, Callable, ClassVar, Dict, Generic, Optional, Tuple, Type, TypeVar, Union
 
@@ -73,6 +74,9 @@ def create_model(
     cls_kwargs['skip_empty'] = __skip_empty__
     cls_kwargs['search_mode'] = __search_mode__
 
+    if __module__ is None:
+        __module__ = sys._getframe(1).f_globals['__name__']
+
     model_base: Union[Type[BaseModel], Tuple[Type[BaseModel], ...]] = __base__ or BaseXmlModel
 
     if model_config := kwargs.pop('__config__', None):
@@ -80,7 +84,7 @@ def create_model(
         # we create base pydantic class with __config__ and inherit from it
         BaseWithConfig = pd.create_model(
             f'{__model_name}Base',
-            __module__=__module__,  # type: ignore[arg-type]
+            __module__=__module__,
             __config__=model_config,
         )
         if not isinstance(model_base, tuple):
@@ -88,8 +92,7 @@ def create_model(
         else:
             model_base = (*model_base, BaseWithConfig)
 
-    if __module__ is not None:
-        kwargs['__module__'] = __module__
+    kwargs['__module__'] = __module__
 
     model = pd.create_model(__model_name, __base__=model_base, **kwargs)
 
-- 
2.43.0


From c260de3063df8b2afe9c790eb6d75c926f094791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:48 +0000
Subject: [PATCH 25/38] fix: respect annotated xml serializers and validators
 of forward referenced fields

---
 pydantic_xml/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydantic_xml/model.py b/pydantic_xml/model.py
index c74373a..dffcce9 100644
--- a/pydantic_xml/model.py
+++ b/pydantic_xml/model.py
@@ -262,6 +262,8 @@ class BaseXmlModel(BaseModel, __xml_abstract__=True, metaclass=XmlModelMeta):
 
         if cls.__xml_serializer__ is None and cls.__pydantic_complete__:
             cls.__build_serializer__()
+            # annotations of the resolved fields could not be inspected before
+            cls._collect_xml_field_serializers_validators(cls)
 
         return result
 
-- 
2.43.0


From 4c8bb0842940dff1d0093d0136b410245dff1548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:10 +0000
Subject: [PATCH 26/38] fix: respect custom xml serializers and validators of
 root models

---
 pydantic_xml/serializers/factories/model.py | 24 +++++++++++++--------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/pydantic_xml/serializers/factories/model.py b/pydantic_xml/serializers/factories/model.py
index 848f930..4706259 100644
--- a/pydantic_xml/serializers/factories/model.py
+++ b/pydantic_xml/serializers/factories/model.py
@@ -324,12 +324,15 @@ class RootModelSerializer(BaseModelSerializer):
         if self._model.__xml_skip_empty__ is not None:
             skip_empty = self._model.__xml_skip_empty__
 
-        self._root_serializer.serialize(
-            element, getattr(value, 'root'), encoded,
-            skip_empty=skip_empty,
-            exclude_none=exclude_none,
-            exclude_unset=exclude_unset,
-        )
+        if custom_field_serializer := self._model.__xml_field_serializers__.get('root'):
+            custom_field_serializer(value, element, getattr(value, 'root'), 'root')
+        else:
+            self._root_serializer.serialize(
+                element, getattr(value, 'root'), encoded,
+                skip_empty=skip_empty,
+                exclude_none=exclude_none,
+                exclude_unset=exclude_unset,
+            )
 
         return element
 
@@ -348,9 +351,12 @@ class RootModelSerializer(BaseModelSerializer):
         sourcemap[()] = element.get_sourceline()
 
         try:
-            result = self._root_serializer.deserialize(
-                element, context=context, sourcemap=sourcemap, loc=loc, empty_as_string=empty_as_string,
-            )
+            if custom_field_validator := self._model.__xml_field_validators__.get('root'):
+                result = custom_field_validator(self._model, element, 'root')
+            else:
+                result = self._root_serializer.deserialize(
+                    element, context=context, sourcemap=sourcemap, loc=loc, empty_as_string=empty_as_string,
+                )
             if result is None:
                 result = pdc.PydanticUndefined
         except pd.ValidationError as err:
-- 
2.43.0


From 6105d7487bfb32c262ee626b9e2f46edc8346d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:04 +0000
Subject: [PATCH 27/38] fix: reject unnamed collections of scalar unions

---
 pydantic_xml/serializers/factories/heterogeneous.py | 7 ++++++-
 pydantic_xml/serializers/factories/homogeneous.py   | 3 +++
 pydantic_xml/serializers/factories/named_tuple.py   | 7 ++++++-
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/pydantic_xml/serializers/factories/heterogeneous.py b/pydantic_xml/serializers/factories/heterogeneous.py
index 53536ae..0447c88 100644
--- a/pydantic_xml/serializers/factories/heterogeneous.py
+++ b/pydantic_xml/serializers/factories/heterogeneous.py
@@ -5,6 +5,7 @@ from pydantic_core import core_schema as pcs
 
 from pydantic_xml import errors, utils
 from pydantic_xml.element import XmlElementReader, XmlElementWriter
+from pydantic_xml.serializers import factories
 from pydantic_xml.serializers.serializer import TYPE_FAMILY, SchemaTypeFamily, Serializer
 from pydantic_xml.typedefs import EntityLocation, Location
 
@@ -16,7 +17,11 @@ class ElementSerializer(Serializer):
         computed = ctx.field_computed
         inner_serializers: List[Serializer] = []
         for item_schema in schema['items_schema']:
-            inner_serializers.append(Serializer.parse_core_schema(item_schema, ctx))
+            inner_serializer = Serializer.parse_core_schema(item_schema, ctx)
+            if ctx.entity_location is None and isinstance(inner_serializer, factories.union.PrimitiveTypeSerializer):
+                raise errors.ModelFieldError(ctx.model_name, ctx.field_name, "entity name is not provided")
+
+            inner_serializers.append(inner_serializer)
 
         return cls(model_name, computed, tuple(inner_serializers), ctx.hide_input_in_errors)
 
diff --git a/pydantic_xml/serializers/factories/homogeneous.py b/pydantic_xml/serializers/factories/homogeneous.py
index 3d134ed..97ebbc6 100644
--- a/pydantic_xml/serializers/factories/homogeneous.py
+++ b/pydantic_xml/serializers/factories/homogeneous.py
@@ -6,6 +6,7 @@ from pydantic_core import core_schema as pcs
 
 from pydantic_xml import errors, utils
 from pydantic_xml.element import XmlElementReader, XmlElementWriter
+from pydantic_xml.serializers import factories
 from pydantic_xml.serializers.serializer import TYPE_FAMILY, SchemaTypeFamily, Serializer
 from pydantic_xml.typedefs import EntityLocation, Location
 
@@ -29,6 +30,8 @@ class ElementSerializer(Serializer):
             items_schema = items_schema[0]
 
         inner_serializer = Serializer.parse_core_schema(items_schema, ctx)
+        if ctx.entity_location is None and isinstance(inner_serializer, factories.union.PrimitiveTypeSerializer):
+            raise errors.ModelFieldError(ctx.model_name, ctx.field_name, "entity name is not provided")
 
         return cls(model_name, computed, inner_serializer, ctx.hide_input_in_errors)
 
diff --git a/pydantic_xml/serializers/factories/named_tuple.py b/pydantic_xml/serializers/factories/named_tuple.py
index 426a094..98e4ca1 100644
--- a/pydantic_xml/serializers/factories/named_tuple.py
+++ b/pydantic_xml/serializers/factories/named_tuple.py
@@ -5,6 +5,7 @@ from pydantic_core import core_schema as pcs
 
 from pydantic_xml import errors
 from pydantic_xml.element import XmlElementReader, XmlElementWriter
+from pydantic_xml.serializers import factories
 from pydantic_xml.serializers.factories import heterogeneous
 from pydantic_xml.serializers.serializer import TYPE_FAMILY, SchemaTypeFamily, Serializer
 from pydantic_xml.typedefs import EntityLocation, Location
@@ -18,7 +19,11 @@ class ElementSerializer(Serializer):
         inner_serializers: List[Serializer] = []
         for argument_schema in schema['arguments_schema']:
             param_schema = argument_schema['schema']
-            inner_serializers.append(Serializer.parse_core_schema(param_schema, ctx))
+            inner_serializer = Serializer.parse_core_schema(param_schema, ctx)
+            if ctx.entity_location is None and isinstance(inner_serializer, factories.union.PrimitiveTypeSerializer):
+                raise errors.ModelFieldError(ctx.model_name, ctx.field_name, "entity name is not provided")
+
+            inner_serializers.append(inner_serializer)
 
         return cls(model_name, computed, tuple(inner_serializers), ctx.hide_input_in_errors)
 
-- 
2.43.0


From 71a22d7138ce3d7fa872bc1fe9be8bfe5f7113ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:09 +0000
Subject: [PATCH 28/38] fix: reject collections of variable length tuples

---
 pydantic_xml/serializers/factories/homogeneous.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydantic_xml/serializers/factories/homogeneous.py b/pydantic_xml/serializers/factories/homogeneous.py
index 97ebbc6..0cef685 100644
--- a/pydantic_xml/serializers/factories/homogeneous.py
+++ b/pydantic_xml/serializers/factories/homogeneous.py
@@ -131,6 +131,9 @@ def from_core_schema(schema: HomogeneousCollectionTypeSchema, ctx: Serializer.Co
             ctx.model_name, ctx.field_name, "collection item must be of primitive, model, mapping, union or tuple type",
         )
 
+    if items_type_family is SchemaTypeFamily.TUPLE and items_schema.get('variadic_item_index') is not None:
+        raise errors.ModelFieldError(ctx.model_name, ctx.field_name, "nested collections are not supported")
+
     if items_type_family not in (
             SchemaTypeFamily.MODEL,
             SchemaTypeFamily.UNION,
-- 
2.43.0


From 202081e77763b6c41c99896c92411d630b04281d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:56 +0000
Subject: [PATCH 29/38] fix: accept the root of a root model as a positional
 argument in type checking

---
 pydantic_xml/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydantic_xml/model.py b/pydantic_xml/model.py
index dffcce9..26877b2 100644
--- a/pydantic_xml/model.py
+++ b/pydantic_xml/model.py
@@ -372,7 +372,7 @@ class BaseXmlModel(BaseModel, __xml_abstract__=True, metaclass=XmlModelMeta):
         )
 
 
-@te.dataclass_transform(kw_only_default=True, field_specifiers=(attr, element, wrapped, pd.Field))
+@te.dataclass_transform(kw_only_default=False, field_specifiers=(attr, element, wrapped, pd.Field))
 class RootXmlModelMeta(XmlModelMeta, RootModelMetaclass):
     pass
 
-- 
2.43.0


From 1bdd524848d8083ea59e8712040d33427d45b1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:31 +0000
Subject: [PATCH 30/38] fix: complete deferred model definitions on the first
 use

---
 pydantic_xml/model.py                              | 11 +++++++++++
 pydantic_xml/serializers/factories/model.py        |  2 ++
 pydantic_xml/serializers/factories/tagged_union.py |  2 ++
 3 files changed, 15 insertions(+)

diff --git a/pydantic_xml/model.py b/pydantic_xml/model.py
index 26877b2..da865b4 100644
--- a/pydantic_xml/model.py
+++ b/pydantic_xml/model.py
@@ -267,6 +267,15 @@ class BaseXmlModel(BaseModel, __xml_abstract__=True, metaclass=XmlModelMeta):
 
         return result
 
+    @classmethod
+    def __complete_definition__(cls) -> None:
+        """
+        Completes the model definition if that has been deferred or some forward references were not resolved.
+        """
+
+        if cls.__xml_serializer__ is None and not cls.__pydantic_complete__:
+            cls.model_rebuild(raise_errors=False, _types_namespace={})
+
     @classmethod
     def from_xml_tree(
             cls: Type[ModelT],
@@ -283,6 +292,7 @@ class BaseXmlModel(BaseModel, __xml_abstract__=True, metaclass=XmlModelMeta):
         :return: deserialized object
         """
 
+        cls.__complete_definition__()
         assert cls.__xml_serializer__ is not None, f"model {cls.__name__} is partially initialized"
 
         if root.tag == cls.__xml_serializer__.element_name:
@@ -337,6 +347,7 @@ class BaseXmlModel(BaseModel, __xml_abstract__=True, metaclass=XmlModelMeta):
         :return: object xml representation
         """
 
+        self.__complete_definition__()
         assert self.__xml_serializer__ is not None, f"model {type(self).__name__} is partially initialized"
 
         root = XmlElement(tag=self.__xml_serializer__.element_name, nsmap=self.__xml_serializer__.nsmap)
diff --git a/pydantic_xml/serializers/factories/model.py b/pydantic_xml/serializers/factories/model.py
index 4706259..eb61b30 100644
--- a/pydantic_xml/serializers/factories/model.py
+++ b/pydantic_xml/serializers/factories/model.py
@@ -433,6 +433,7 @@ class ModelProxySerializer(BaseModelSerializer):
             exclude_none: bool = False,
             exclude_unset: bool = False,
     ) -> Optional[XmlElementWriter]:
+        self._model.__complete_definition__()
         assert self._model.__xml_serializer__ is not None, f"model {self._model.__name__} is partially initialized"
 
         if exclude_none and value is None:
@@ -466,6 +467,7 @@ class ModelProxySerializer(BaseModelSerializer):
             loc: Location,
             empty_as_string: bool,
     ) -> Optional['pxml.BaseXmlModel']:
+        self._model.__complete_definition__()
         assert self._model.__xml_serializer__ is not None, f"model {self._model.__name__} is partially initialized"
 
         if self._computed:
diff --git a/pydantic_xml/serializers/factories/tagged_union.py b/pydantic_xml/serializers/factories/tagged_union.py
index cf43832..e085d3c 100644
--- a/pydantic_xml/serializers/factories/tagged_union.py
+++ b/pydantic_xml/serializers/factories/tagged_union.py
@@ -122,6 +122,8 @@ class ModelSerializer(Serializer):
             return None
 
         if self._discriminating_attr_name is None:
+            for serializer in self._inner_serializers.values():
+                serializer.model.__complete_definition__()
             self._resolve_discriminating_attr_name()
         assert self._discriminating_attr_name is not None, f"model {self._model_name} is partially initialized"
 
-- 
2.43.0


From 01305f45572ca55aa2d56bbdb2175b567c714afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:53 +0000
Subject: [PATCH 31/38] fix: honour validate_by_alias=False when the fields are
 read from a document

The parsed values were handed over to pydantic by their aliases even if the model
turned the aliases off for the validation: every parsing failed with missing fields.
---
 pydantic_xml/serializers/factories/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydantic_xml/serializers/factories/model.py b/pydantic_xml/serializers/factories/model.py
index eb61b30..0b5c9c5 100644
--- a/pydantic_xml/serializers/factories/model.py
+++ b/pydantic_xml/serializers/factories/model.py
@@ -70,6 +70,8 @@ class ModelSerializer(BaseModelSerializer):
         fields_schema = typing.cast(pcs.ModelFieldsSchema, fields_schema)
 
         hide_input_in_errors = model_cls.model_config.get('hide_input_in_errors', ctx.hide_input_in_errors)
+        # since pydantic 2.11 the aliases can be turned off for the validation
+        validate_by_alias = model_cls.model_config.get('validate_by_alias', True)
 
         entity_info: Optional[XmlEntityInfoP]
         fields_serialization_exclude: Set[str] = set()
@@ -87,7 +89,7 @@ class ModelSerializer(BaseModelSerializer):
                 fields_serialization_exclude_if[field_name] = exclude_if
 
             field_alias = model_field.get('serialization_alias')
-            if validation_alias := model_field.get('validation_alias'):
+            if validate_by_alias and (validation_alias := model_field.get('validation_alias')):
                 if isinstance(validation_alias, str):
                     fields_validation_aliases[field_name] = validation_alias
 
-- 
2.43.0


From b90e50ef6232cbffb2d77e31811adf9c8d5a93b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:08 +0000
Subject: [PATCH 32/38] fix: serialize a union member encoded by pydantic using
 its base class

A value of Union[Base, Derived] holding an instance of a sub-class in one of its fields
was encoded by pydantic as Base, the serialization failed with KeyError then.
---
 pydantic_xml/model.py                       | 11 +++-----
 pydantic_xml/serializers/factories/union.py | 28 +++++++++++----------
 pydantic_xml/serializers/serializer.py      | 10 ++++++++
 3 files changed, 28 insertions(+), 21 deletions(-)

diff --git a/pydantic_xml/model.py b/pydantic_xml/model.py
index da865b4..07ea044 100644
--- a/pydantic_xml/model.py
+++ b/pydantic_xml/model.py
@@ -3,17 +3,16 @@ import typing
 from typing import Any, Callable, ClassVar, Dict, Generic, Optional, Tuple, Type, TypeVar, Union
 
 import pydantic as pd
-import pydantic_core as pdc
 import typing_extensions as te
 from pydantic import BaseModel, RootModel
 
 from . import config, errors, utils
 from .compat import ModelMetaclass, RootModelMetaclass
 from .element import SearchMode, XmlElementReader, XmlElementWriter
-from .element.native import ElementT, XmlElement, etree
+from .element.native import XmlElement, etree
 from .fields import XmlEntityInfo, XmlFieldSerializer, XmlFieldValidator, attr, element, wrapped
 from .serializers.factories.model import BaseModelSerializer
-from .serializers.serializer import Serializer
+from .serializers.serializer import Serializer, encode_model
 from .typedefs import EntityLocation
 from .utils import NsMap
 
@@ -352,11 +351,7 @@ class BaseXmlModel(BaseModel, __xml_abstract__=True, metaclass=XmlModelMeta):
 
         root = XmlElement(tag=self.__xml_serializer__.element_name, nsmap=self.__xml_serializer__.nsmap)
         self.__xml_serializer__.serialize(
-            root, self, pdc.to_jsonable_python(
-                self,
-                by_alias=False,
-                fallback=lambda obj: obj if not isinstance(obj, ElementT) else None,  # for raw fields support
-            ),
+            root, self, encode_model(self),
             skip_empty=skip_empty,
             exclude_none=exclude_none,
             exclude_unset=exclude_unset,
diff --git a/pydantic_xml/serializers/factories/union.py b/pydantic_xml/serializers/factories/union.py
index 1ef73d5..e0627ee 100644
--- a/pydantic_xml/serializers/factories/union.py
+++ b/pydantic_xml/serializers/factories/union.py
@@ -7,7 +7,7 @@ import pydantic_xml as pxml
 from pydantic_xml import errors, utils
 from pydantic_xml.element import XmlElementReader, XmlElementWriter
 from pydantic_xml.serializers.factories.model import ModelProxySerializer
-from pydantic_xml.serializers.serializer import TYPE_FAMILY, SchemaTypeFamily, Serializer
+from pydantic_xml.serializers.serializer import TYPE_FAMILY, SchemaTypeFamily, Serializer, encode_model
 from pydantic_xml.typedefs import Location
 
 
@@ -106,19 +106,21 @@ class ModelSerializer(Serializer):
             exclude_none: bool = False,
             exclude_unset: bool = False,
     ) -> Optional[XmlElementWriter]:
-        serializers = (
-            *(s for s in self._inner_serializers if s.model is type(value)),
-            *(s for s in self._inner_serializers if isinstance(value, s.model)),
-        )
-        for serializer in serializers:
-            return serializer.serialize(
-                element, value, encoded,
-                skip_empty=skip_empty,
-                exclude_none=exclude_none,
-                exclude_unset=exclude_unset,
-            )
+        serializers = [s for s in self._inner_serializers if isinstance(value, s.model)]
+        if not serializers:
+            return None
 
-        return None
+        serializer = next((s for s in serializers if s.model is type(value)), serializers[0])
+        if serializer.model is type(value) and len(serializers) > 1:
+            # pydantic could encode the value using another alternative the value is an instance of
+            encoded = encode_model(value)
+
+        return serializer.serialize(
+            element, value, encoded,
+            skip_empty=skip_empty,
+            exclude_none=exclude_none,
+            exclude_unset=exclude_unset,
+        )
 
     def deserialize(
             self,
diff --git a/pydantic_xml/serializers/serializer.py b/pydantic_xml/serializers/serializer.py
index 59b0ca0..1d2bf6d 100644
--- a/pydantic_xml/serializers/serializer.py
+++ b/pydantic_xml/serializers/serializer.py
@@ -6,9 +6,11 @@ from enum import IntEnum
 from functools import cached_property
 from typing import Any, Dict, Optional, Tuple
 
+import pydantic_core as pdc
 from pydantic_core import core_schema as pcs
 
 from pydantic_xml.element import SearchMode, XmlElementReader, XmlElementWriter
+from pydantic_xml.element.native import ElementT
 from pydantic_xml.errors import ModelError
 from pydantic_xml.fields import XmlEntityInfoP
 from pydantic_xml.typedefs import EntityLocation, Location, NsMap
@@ -26,6 +28,14 @@ def encode_primitive(value: Any) -> str:
         return str(value)
 
 
+def encode_model(model: Any) -> Any:
+    return pdc.to_jsonable_python(
+        model,
+        by_alias=False,
+        fallback=lambda obj: obj if not isinstance(obj, ElementT) else None,  # for raw fields support
+    )
+
+
 class SchemaTypeFamily(IntEnum):
     META = 0
     PRIMITIVE = 1
-- 
2.43.0


From 0064ec963bfd0199af59b0198eb71ba7bfe7a9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:33 +0000
Subject: [PATCH 33/38] fix: bind an element marked as nil to the union it
 matches

---
 pydantic_xml/serializers/factories/model.py |  9 +++++++++
 pydantic_xml/serializers/factories/union.py | 10 +++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/pydantic_xml/serializers/factories/model.py b/pydantic_xml/serializers/factories/model.py
index 0b5c9c5..1affe03 100644
--- a/pydantic_xml/serializers/factories/model.py
+++ b/pydantic_xml/serializers/factories/model.py
@@ -490,6 +490,15 @@ class ModelProxySerializer(BaseModelSerializer):
         else:
             return None
 
+    def matches(self, element: XmlElementReader) -> bool:
+        """
+        Checks if there is a sub-element the model is bound to.
+        """
+
+        return element.find_element(
+            self._element_name, self._search_mode, look_behind=False, step_forward=False,
+        ) is not None
+
     def skip(self, element: XmlElementReader) -> None:
         """
         Moves the element forward past the sub-element the model is bound to.
diff --git a/pydantic_xml/serializers/factories/union.py b/pydantic_xml/serializers/factories/union.py
index e0627ee..baf0bf9 100644
--- a/pydantic_xml/serializers/factories/union.py
+++ b/pydantic_xml/serializers/factories/union.py
@@ -5,7 +5,7 @@ from pydantic_core import core_schema as pcs
 
 import pydantic_xml as pxml
 from pydantic_xml import errors, utils
-from pydantic_xml.element import XmlElementReader, XmlElementWriter
+from pydantic_xml.element import XmlElement, XmlElementReader, XmlElementWriter
 from pydantic_xml.serializers.factories.model import ModelProxySerializer
 from pydantic_xml.serializers.serializer import TYPE_FAMILY, SchemaTypeFamily, Serializer, encode_model
 from pydantic_xml.typedefs import Location
@@ -139,15 +139,19 @@ class ModelSerializer(Serializer):
 
         union_errors: Dict[Union[None, str, int], pd.ValidationError] = {}
         failed_serializer: Optional[ModelProxySerializer] = None
+        nil_snapshot: Optional[XmlElement[Any]] = None
         result: Any = None
         for serializer in self._inner_serializers:
             snapshot = element.create_snapshot()
+            matched = serializer.matches(snapshot)
             try:
                 if (
                     result := serializer.deserialize(
                         snapshot, context=context, sourcemap=sourcemap, loc=loc, empty_as_string=empty_as_string,
                     )
                 ) is None:
+                    if matched:
+                        nil_snapshot = nil_snapshot or snapshot
                     continue
                 else:
                     element.apply_snapshot(snapshot)
@@ -162,6 +166,10 @@ class ModelSerializer(Serializer):
                 title=self._model_name, errors_map=union_errors, hide_input=self._hide_input_in_errors,
             )
 
+        if nil_snapshot is not None:
+            # the element marked as nil is bound to the union even though there is no value
+            element.apply_snapshot(nil_snapshot)
+
         return result
 
 
-- 
2.43.0


From ed48463aa115e64a0bc7bfa9d3647da4a61e750e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:14 +0000
Subject: [PATCH 34/38] fix: leave missing trailing items of a named tuple to
 their defaults

---
 .../serializers/factories/named_tuple.py      | 32 +++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/pydantic_xml/serializers/factories/named_tuple.py b/pydantic_xml/serializers/factories/named_tuple.py
index 98e4ca1..43e7866 100644
--- a/pydantic_xml/serializers/factories/named_tuple.py
+++ b/pydantic_xml/serializers/factories/named_tuple.py
@@ -17,6 +17,7 @@ class ElementSerializer(Serializer):
         model_name = ctx.model_name
         computed = ctx.field_computed
         inner_serializers: List[Serializer] = []
+        inner_defaults: List[bool] = []
         for argument_schema in schema['arguments_schema']:
             param_schema = argument_schema['schema']
             inner_serializer = Serializer.parse_core_schema(param_schema, ctx)
@@ -24,16 +25,19 @@ class ElementSerializer(Serializer):
                 raise errors.ModelFieldError(ctx.model_name, ctx.field_name, "entity name is not provided")
 
             inner_serializers.append(inner_serializer)
+            inner_defaults.append(has_omittable_default(param_schema))
 
-        return cls(model_name, computed, tuple(inner_serializers), ctx.hide_input_in_errors)
+        return cls(model_name, computed, tuple(inner_serializers), tuple(inner_defaults), ctx.hide_input_in_errors)
 
     def __init__(
             self,
             model_name: str,
             computed: bool,
             inner_serializers: Tuple[Serializer, ...],
+            inner_defaults: Tuple[bool, ...],
             hide_input_in_errors: bool,
     ):
+        self._inner_defaults = inner_defaults
         self._inner_serializer = heterogeneous.ElementSerializer(
             model_name, computed, inner_serializers, hide_input_in_errors,
         )
@@ -61,9 +65,33 @@ class ElementSerializer(Serializer):
             loc: Location,
             empty_as_string: bool,
     ) -> Optional[List[Any]]:
-        return self._inner_serializer.deserialize(
+        result = self._inner_serializer.deserialize(
             element, context=context, sourcemap=sourcemap, loc=loc, empty_as_string=empty_as_string,
         )
+        if result is None:
+            return None
+
+        # missing trailing items are left to their defaults
+        while result[-1] is None and self._inner_defaults[len(result) - 1]:
+            result.pop()
+
+        return result
+
+
+def has_omittable_default(schema: pcs.CoreSchema) -> bool:
+    """
+    Checks if a missing value can be left to the default one (a nullable item without a value is already valid).
+    """
+
+    if schema['type'] != 'default':
+        return False
+
+    has_none_default = 'default' in schema and schema['default'] is None
+    schema = schema['schema']
+    while schema['type'] in ('function-before', 'function-after', 'function-wrap'):
+        schema = schema['schema']
+
+    return has_none_default or schema['type'] != 'nullable'
 
 
 def from_core_schema(schema: pcs.CallSchema, ctx: Serializer.Context) -> Serializer:
-- 
2.43.0


From f4b0443fd10a134fb8676a2ce46332ebe13b7e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:34 +0000
Subject: [PATCH 35/38] fix: pass values of fields with several validation
 aliases by one of them

---
 pydantic_xml/serializers/factories/model.py | 36 +++++++++++++++++++--
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/pydantic_xml/serializers/factories/model.py b/pydantic_xml/serializers/factories/model.py
index 1affe03..d9f5feb 100644
--- a/pydantic_xml/serializers/factories/model.py
+++ b/pydantic_xml/serializers/factories/model.py
@@ -89,9 +89,8 @@ class ModelSerializer(BaseModelSerializer):
                 fields_serialization_exclude_if[field_name] = exclude_if
 
             field_alias = model_field.get('serialization_alias')
-            if validate_by_alias and (validation_alias := model_field.get('validation_alias')):
-                if isinstance(validation_alias, str):
-                    fields_validation_aliases[field_name] = validation_alias
+            if validate_by_alias and (alias := select_validation_alias(field_name, fields_schema['fields'])):
+                fields_validation_aliases[field_name] = alias
 
             field_ctx = ctx.child(
                 field_name=field_name,
@@ -507,6 +506,37 @@ class ModelProxySerializer(BaseModelSerializer):
         element.pop_element(self._element_name, self._search_mode)
 
 
+def get_alias_paths(alias: Union[str, List[Union[str, int]], List[List[Union[str, int]]]]) -> List[List[Any]]:
+    if isinstance(alias, str):
+        return [[alias]]
+
+    return [path if isinstance(path, list) else alias for path in alias]
+
+
+def select_validation_alias(field_name: str, fields: Mapping[str, pcs.ModelField]) -> Optional[str]:
+    """
+    Returns the name a field value is passed to the model by:
+    the first of the field validation aliases that is not a path inside a value and can't be taken for something else.
+    """
+
+    if (validation_alias := fields[field_name].get('validation_alias')) is None:
+        return None
+
+    if isinstance(validation_alias, str):
+        return validation_alias
+
+    taken = {
+        path[0] for name, field in fields.items() if name != field_name
+        for path in get_alias_paths(field.get('validation_alias') or name)
+    }
+    for path in get_alias_paths(validation_alias):
+        if len(path) == 1 and path[0] not in taken:
+            return path[0]
+        taken.add(path[0])
+
+    return None
+
+
 def from_core_schema(schema: pcs.ModelSchema, ctx: Serializer.Context) -> Serializer:
     is_root_model = schema['root_model']
 
-- 
2.43.0


From 1dc38ad4d765b987dd3a47b2c59037bc6afc225a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:54 +0000
Subject: [PATCH 36/38] fix: choose the alternative of a tagged union by the
 value rather than by its encoded discriminator

---
 pydantic_xml/serializers/factories/tagged_union.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydantic_xml/serializers/factories/tagged_union.py b/pydantic_xml/serializers/factories/tagged_union.py
index e085d3c..abdeea3 100644
--- a/pydantic_xml/serializers/factories/tagged_union.py
+++ b/pydantic_xml/serializers/factories/tagged_union.py
@@ -99,7 +99,8 @@ class ModelSerializer(Serializer):
         if value is None:
             return None
 
-        if (tag := encoded.get(self._discriminator)) and (serializer := self._inner_serializers[tag]):
+        # the encoded discriminator could be excluded or changed by a custom serializer
+        if (tag := getattr(value, self._discriminator, None)) and (serializer := self._inner_serializers[tag]):
             return serializer.serialize(
                 element, value, encoded, skip_empty=skip_empty, exclude_none=exclude_none, exclude_unset=exclude_unset,
             )
-- 
2.43.0


From 798274955a0e110688f19f1c2863e17bb99850dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:57 +0000
Subject: [PATCH 37/38] fix: allow class attributes that are not convertible to
 a boolean

---
 pydantic_xml/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydantic_xml/model.py b/pydantic_xml/model.py
index 07ea044..f144d4a 100644
--- a/pydantic_xml/model.py
+++ b/pydantic_xml/model.py
@@ -143,7 +143,8 @@ class XmlModelMeta(ModelMetaclass):
 
         custom_attrs = set(dir(cls)) - set(dir(BaseModel))
         for attr_name in filter(custom_attrs.__contains__, attr_names):
-            if func := getattr(cls, attr_name, None):
+            # the attribute is not necessarily convertible to a boolean
+            if (func := getattr(cls, attr_name, None)) is not None:
                 if fields := getattr(func, '__xml_field_serializer__', None):
                     for field in fields:
                         cls.__xml_field_serializers__[field] = func
-- 
2.43.0


From 3cb2ab96b254038e02419142685d39c69a72f2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:07 +0000
Subject: [PATCH 38/38] fix: treat deques and special mappings as collections
 instead of writing their python representation

---
 pydantic_xml/serializers/serializer.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pydantic_xml/serializers/serializer.py b/pydantic_xml/serializers/serializer.py
index 1d2bf6d..fe8f035 100644
--- a/pydantic_xml/serializers/serializer.py
+++ b/pydantic_xml/serializers/serializer.py
@@ -210,6 +210,14 @@ class Serializer(abc.ABC):
             inner_schema = schema['python_schema']
             return cls.preprocess_schema(inner_schema, ctx)
 
+        elif schema_type == 'lax-or-strict':
+            # collections of special types (deque, defaultdict, ...) are validated as the standard ones
+            inner_schema = schema['lax_schema']
+            while inner_schema['type'] in ('function-before', 'function-after', 'function-wrap'):
+                inner_schema = inner_schema['schema']
+            if inner_schema['type'] in ('list', 'dict'):
+                return cls.preprocess_schema(inner_schema, ctx)
+
         elif type_family is SchemaTypeFamily.DEFINITIONS:
             schema = typing.cast(pcs.DefinitionsSchema, schema)
             definitions = {
-- 
2.43.0

