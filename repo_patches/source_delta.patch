From 8bd17fecbf40f7b7d0c46ebe6bdc261690bccc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:50 +0000
Subject: [PATCH 01/27] fix: report every resolver failure as ProcessException

Ambiguous targets and elements derived from one of their own containers let
the internal ResolveException escape, which callers cannot import from the
package and do not expect.
---
 src/svdsuite/process.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 866322c..6fc31be 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -44,6 +44,8 @@ from svdsuite.util.process_parse_model_convert import process_parse_convert_devi
 from svdsuite.model.types import AccessType, ProtectionStringType, CPUNameType, ModifiedWriteValuesType, EnumUsageType
 from svdsuite.resolve.resolver import Resolver
 from svdsuite.resolve.exception import (
+    ResolveException,
+    ResolverGraphException,
     EnumeratedValueContainerException,
     LoopException,
     CycleException,
@@ -104,6 +106,8 @@ class Process:
             raise ProcessException("A circular inheritance was detected during resolving") from e
         except UnprocessedNodesException as e:
             raise ProcessException("Some nodes were not processed during resolving") from e
+        except (ResolveException, ResolverGraphException) as e:
+            raise ProcessException(f"Resolving failed: {e}") from e
 
         intermediate_device = IDevice(
             size=size,
-- 
2.43.0


From d9a14f093c92519217e4a0b9af9ccb9671e11f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:50 +0000
Subject: [PATCH 02/27] fix: accept unknown alternatePeripheral and
 alternateCluster names

A name that matches no element of the scope raised a bare KeyError; the
register variant already tolerates it.
---
 src/svdsuite/process.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 6fc31be..76bcdd4 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -769,7 +769,11 @@ class _ValidateAndFinalize:
             # Add peripherals that have 'current' as their alternate.
             stack.extend(name for name, p in peripheral_lookup.items() if p.alternate_peripheral == current)
             # If the current peripheral has an alternate (primary), add it.
-            primary = peripheral_lookup[current].alternate_peripheral
+            try:
+                primary = peripheral_lookup[current].alternate_peripheral
+            except KeyError:
+                primary = None
+
             if primary is not None:
                 stack.append(primary)
 
@@ -979,7 +983,11 @@ class _ValidateAndFinalize:
             # Add clusters that have 'current' as their alternate.
             stack.extend(name for name, p in cluster_lookup.items() if p.alternate_cluster == current)
             # If the current cluster has an alternate (primary), add it.
-            primary = cluster_lookup[current].alternate_cluster
+            try:
+                primary = cluster_lookup[current].alternate_cluster
+            except KeyError:
+                primary = None
+
             if primary is not None:
                 stack.append(primary)
 
-- 
2.43.0


From 083201fba838449e2fc07bc9d3fdedcbcb02c4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:50 +0000
Subject: [PATCH 03/27] fix: honour the size stated by the device when
 adjusting sizes

Registers and clusters without any size in their peripheral inherit the
device size, but the size adjustment of their containers assumed 32.
---
 src/svdsuite/resolve/resolver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/svdsuite/resolve/resolver.py b/src/svdsuite/resolve/resolver.py
index 2fb9b48..6f94d29 100644
--- a/src/svdsuite/resolve/resolver.py
+++ b/src/svdsuite/resolve/resolver.py
@@ -435,7 +435,8 @@ class Resolver:
         parent = parents[0]  # only dim nodes have multiple parents, but all have same size
 
         if parent.level == ElementLevel.DEVICE:
-            return 32  # default size for device
+            device_size = cast(SVDDevice, parent.parsed).size
+            return device_size if device_size is not None else 32  # default size for device
 
         element = parent.processed
         if not isinstance(element, IPeripheral | ICluster):
-- 
2.43.0


From 5de641f3bac05c7a47bf6bc9dab03d779587d58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:33 +0000
Subject: [PATCH 04/27] fix: serialize a bit offset, width, lsb or msb that
 stands alone

A derived field may state only one of them (the schema allows a bitOffset
without bitWidth); the serializer dropped it, moving the field.
---
 src/svdsuite/serialize.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/svdsuite/serialize.py b/src/svdsuite/serialize.py
index afaac20..c0cffdc 100644
--- a/src/svdsuite/serialize.py
+++ b/src/svdsuite/serialize.py
@@ -316,12 +316,16 @@ class SVDFieldSerializer(XMLSerializable):
         if self.field.description is not None:
             element.append(self._append_element("description", text=self.field.description))
 
-        if self.field.bit_offset is not None and self.field.bit_width is not None:
+        if self.field.bit_offset is not None:
             element.append(self._append_element("bitOffset", text=str(self.field.bit_offset)))
+
+        if self.field.bit_width is not None:
             element.append(self._append_element("bitWidth", text=str(self.field.bit_width)))
 
-        if self.field.lsb is not None and self.field.msb is not None:
+        if self.field.lsb is not None:
             element.append(self._append_element("lsb", text=str(self.field.lsb)))
+
+        if self.field.msb is not None:
             element.append(self._append_element("msb", text=str(self.field.msb)))
 
         if self.field.bit_range is not None:
-- 
2.43.0


From f2c77c5dff617681340f2e3748a74efd0b130980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:33 +0000
Subject: [PATCH 05/27] fix: keep an existing file if the device cannot be
 serialized

The target was truncated before the serialization could fail.
---
 src/svdsuite/serialize.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/svdsuite/serialize.py b/src/svdsuite/serialize.py
index c0cffdc..b0a6d18 100644
--- a/src/svdsuite/serialize.py
+++ b/src/svdsuite/serialize.py
@@ -20,15 +20,11 @@ from svdsuite.model.parse import (
 class Serializer:
     @staticmethod
     def device_to_svd_file(path: str, device: SVDDevice, pretty_print: bool = False, xml_declaration: bool = True):
+        # serialize first, so that a device that can't be serialized doesn't truncate an existing file
+        content = Serializer.device_to_svd_content(device, pretty_print, xml_declaration)
+
         with open(path, "wb") as f:
-            f.write(
-                lxml.etree.tostring(
-                    SVDDeviceSerializer(device).to_xml(),
-                    pretty_print=pretty_print,
-                    xml_declaration=xml_declaration,
-                    encoding="utf-8",
-                )
-            )
+            f.write(content)
 
     @staticmethod
     def device_to_svd_content(device: SVDDevice, pretty_print: bool = False, xml_declaration: bool = True) -> bytes:
-- 
2.43.0


From f5d7abda72a53b5fb17dc09152ce6202f9245c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:33 +0000
Subject: [PATCH 06/27] fix: let the allocated range cover all address blocks

The block with the highest offset need not be the one that ends last.
---
 src/svdsuite/map.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/svdsuite/map.py b/src/svdsuite/map.py
index cd4f0fa..fb56e4f 100644
--- a/src/svdsuite/map.py
+++ b/src/svdsuite/map.py
@@ -78,12 +78,10 @@ class PeripheralRegisterMap:
         return registers
 
     def _get_allocated_range(self, start_address: int, address_blocks: list[AddressBlock]) -> tuple[int, int]:
-        address_blocks = sorted(address_blocks, key=lambda x: x.offset)
-
         if not address_blocks:
             raise ValueError("Address blocks are empty")
 
-        begin = start_address + address_blocks[0].offset
-        end = start_address + address_blocks[-1].offset + address_blocks[-1].size - 1
+        begin = start_address + min(block.offset for block in address_blocks)
+        end = start_address + max(block.offset + block.size for block in address_blocks) - 1
 
         return (begin, end)
-- 
2.43.0


From f69d3ff245efb1bd404e4bc09a2e992c0e2e1022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:33 +0000
Subject: [PATCH 07/27] fix: process a derived element only after its base

An element whose base was found but could not be processed yet (because the
base lies in an element with an unresolved derivation) was processed anyway,
so valid documents with derivations across several levels were rejected, and
derived enumerated values were copied before their base was resolved.
---
 src/svdsuite/resolve/resolver.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/svdsuite/resolve/resolver.py b/src/svdsuite/resolve/resolver.py
index 6f94d29..f1fd514 100644
--- a/src/svdsuite/resolve/resolver.py
+++ b/src/svdsuite/resolve/resolver.py
@@ -241,7 +241,28 @@ class Resolver:
             for child in self._resolver_graph.get_element_childrens(node):
                 stack.append(child)
 
-        return result
+        return self._remove_nodes_with_unavailable_base(result)
+
+    def _remove_nodes_with_unavailable_base(self, nodes: list[ElementNode]) -> list[ElementNode]:
+        # A base may itself (or within its parents) still wait for its own base, then all nodes depending on it have to
+        # wait for a later round, too
+        while True:
+            available = set(nodes)
+
+            def is_available(node: None | ElementNode) -> bool:
+                return node is None or node.status == NodeStatus.PROCESSED or node in available
+
+            remaining = [
+                node
+                for node in nodes
+                if is_available(self._resolver_graph.get_base_element_node(node))
+                and all(is_available(parent) for parent in self._resolver_graph.get_element_parents(node))
+            ]
+
+            if len(remaining) == len(nodes):
+                return nodes
+
+            nodes = remaining
 
     def _resolve_placeholder(self, placeholder: PlaceholderNode):
         if not self._is_placeholder_parent_resolved(placeholder):
-- 
2.43.0


From 8e224e06fbf2e09e727188a4f5631a60a8de7035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:33 +0000
Subject: [PATCH 08/27] fix: read XML text regardless of the encoding it
 declares

Text is already decoded. Encoding it as UTF-8 while its declaration names
another encoding garbled every non-ASCII character, or failed.
---
 src/svdsuite/map.py            | 2 +-
 src/svdsuite/parse.py          | 4 ++--
 src/svdsuite/process.py        | 2 +-
 src/svdsuite/util/xml_parse.py | 7 +++++++
 src/svdsuite/validate.py       | 4 ++--
 5 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/svdsuite/map.py b/src/svdsuite/map.py
index fb56e4f..3003ecc 100644
--- a/src/svdsuite/map.py
+++ b/src/svdsuite/map.py
@@ -10,7 +10,7 @@ class PeripheralRegisterMap:
 
     @classmethod
     def from_xml_str(cls, xml_str: str, resolver_logging_file_path: None | str = None):
-        return cls(Process.from_xml_content(xml_str.encode(), resolver_logging_file_path).get_processed_device())
+        return cls(Process.from_xml_str(xml_str, resolver_logging_file_path).get_processed_device())
 
     @classmethod
     def from_xml_content(cls, content: bytes, resolver_logging_file_path: None | str = None):
diff --git a/src/svdsuite/parse.py b/src/svdsuite/parse.py
index 82b4378..e9e6135 100644
--- a/src/svdsuite/parse.py
+++ b/src/svdsuite/parse.py
@@ -33,7 +33,7 @@ from svdsuite.model.types import (
     SauAccessType,
 )
 from svdsuite.util.parser_exception_warning import ParserException, ParserWarning, custom_warning_format
-from svdsuite.util.xml_parse import safe_parse, safe_fromstring
+from svdsuite.util.xml_parse import encode_xml_str, safe_parse, safe_fromstring
 
 warnings.formatwarning = custom_warning_format
 
@@ -103,7 +103,7 @@ class Parser:
 
     @staticmethod
     def from_xml_str(xml_str: str):
-        return Parser.from_xml_content(xml_str.encode())
+        return Parser.from_xml_content(encode_xml_str(xml_str))
 
     @classmethod
     def from_xml_content(cls, content: bytes):
diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 76bcdd4..56d4b33 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -73,7 +73,7 @@ class Process:
 
     @classmethod
     def from_xml_str(cls, xml_str: str, resolver_logging_file_path: None | str = None):
-        return cls(Parser.from_xml_content(xml_str.encode()).get_parsed_device(), resolver_logging_file_path)
+        return cls(Parser.from_xml_str(xml_str).get_parsed_device(), resolver_logging_file_path)
 
     @classmethod
     def from_xml_content(cls, content: bytes, resolver_logging_file_path: None | str = None):
diff --git a/src/svdsuite/util/xml_parse.py b/src/svdsuite/util/xml_parse.py
index 5bccf84..4c9920f 100644
--- a/src/svdsuite/util/xml_parse.py
+++ b/src/svdsuite/util/xml_parse.py
@@ -1,4 +1,5 @@
 from typing import BinaryIO
+import re
 import warnings
 from lxml import etree
 
@@ -10,6 +11,12 @@ warnings.formatwarning = custom_warning_format
 _COMMON_ENCODINGS = ["utf-8", "windows-1252", "iso-8859-1", "utf-16", "ascii"]
 
 
+def encode_xml_str(xml_str: str) -> bytes:
+    # A string is already decoded, hence an encoding named in its XML declaration doesn't apply to the encoded bytes
+    declared_encoding = r"^(\ufeff?\s*<\?xml[^>]*?)\s+encoding\s*=\s*(?:\"[^\"]*\"|'[^']*')"
+    return re.sub(declared_encoding, r"\1", xml_str, count=1).encode()
+
+
 def safe_parse(path_or_file: str | BinaryIO) -> etree._ElementTree:  # pyright: ignore[reportPrivateUsage]
     # First attempt: no encoding, recover=False.
     try:
diff --git a/src/svdsuite/validate.py b/src/svdsuite/validate.py
index 9f18e80..34f22d7 100644
--- a/src/svdsuite/validate.py
+++ b/src/svdsuite/validate.py
@@ -3,7 +3,7 @@ from enum import Enum
 from packaging.version import Version
 import lxml.etree
 
-from svdsuite.util.xml_parse import safe_parse, safe_fromstring
+from svdsuite.util.xml_parse import encode_xml_str, safe_parse, safe_fromstring
 
 
 class SVDSchemaVersion(Enum):
@@ -50,7 +50,7 @@ class Validator:
     def validate_xml_str(
         xml_str: str, get_exception: bool = True, schema_version: SVDSchemaVersion = SVDSchemaVersion.get_latest()
     ) -> bool:
-        return Validator.validate_xml_content(xml_str.encode(), get_exception, schema_version)
+        return Validator.validate_xml_content(encode_xml_str(xml_str), get_exception, schema_version)
 
     @staticmethod
     def _validate(
-- 
2.43.0


From 49703d59639c065ab604d5ebacd79a1238a8b9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:33 +0000
Subject: [PATCH 09/27] fix: ignore comments and processing instructions inside
 values

The text of an element ended at the first comment in it, so that
<size>3<!-- -->2</size> was read as 3.
---
 src/svdsuite/util/xml_parse.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/svdsuite/util/xml_parse.py b/src/svdsuite/util/xml_parse.py
index 4c9920f..be98a59 100644
--- a/src/svdsuite/util/xml_parse.py
+++ b/src/svdsuite/util/xml_parse.py
@@ -20,7 +20,7 @@ def encode_xml_str(xml_str: str) -> bytes:
 def safe_parse(path_or_file: str | BinaryIO) -> etree._ElementTree:  # pyright: ignore[reportPrivateUsage]
     # First attempt: no encoding, recover=False.
     try:
-        parser = etree.XMLParser(recover=False)
+        parser = etree.XMLParser(remove_comments=True, remove_pis=True, recover=False)
         tree = etree.parse(path_or_file, parser=parser)
         return tree
     except etree.XMLSyntaxError as e:
@@ -29,7 +29,7 @@ def safe_parse(path_or_file: str | BinaryIO) -> etree._ElementTree:  # pyright:
     # Second attempt: try common encodings with recover=False.
     for enc in _COMMON_ENCODINGS:
         try:
-            parser = etree.XMLParser(encoding=enc, recover=False)
+            parser = etree.XMLParser(remove_comments=True, remove_pis=True, encoding=enc, recover=False)
             tree = etree.parse(path_or_file, parser=parser)
             warnings.warn(
                 f"XML file parsed using fallback encoding '{enc}' with recover=False.",
@@ -42,7 +42,7 @@ def safe_parse(path_or_file: str | BinaryIO) -> etree._ElementTree:  # pyright:
     # Third attempt: try common encodings with recover=True.
     for enc in _COMMON_ENCODINGS:
         try:
-            parser = etree.XMLParser(encoding=enc, recover=True)
+            parser = etree.XMLParser(remove_comments=True, remove_pis=True, encoding=enc, recover=True)
             tree = etree.parse(path_or_file, parser=parser)
             warnings.warn(
                 f"XML file parsed using fallback encoding '{enc}' with recover=True.",
@@ -59,7 +59,7 @@ def safe_parse(path_or_file: str | BinaryIO) -> etree._ElementTree:  # pyright:
 def safe_fromstring(content: bytes) -> etree._Element:  # pyright: ignore[reportPrivateUsage]
     # First attempt: no encoding, recover=False.
     try:
-        parser = etree.XMLParser(recover=False)
+        parser = etree.XMLParser(remove_comments=True, remove_pis=True, recover=False)
         root = etree.fromstring(content, parser=parser)
         return root
     except etree.XMLSyntaxError as e:
@@ -68,7 +68,7 @@ def safe_fromstring(content: bytes) -> etree._Element:  # pyright: ignore[report
     # Second attempt: try common encodings with recover=False.
     for enc in _COMMON_ENCODINGS:
         try:
-            parser = etree.XMLParser(encoding=enc, recover=False)
+            parser = etree.XMLParser(remove_comments=True, remove_pis=True, encoding=enc, recover=False)
             root = etree.fromstring(content, parser=parser)
             warnings.warn(
                 f"XML content parsed using fallback encoding '{enc}' with recover=False.",
@@ -81,7 +81,7 @@ def safe_fromstring(content: bytes) -> etree._Element:  # pyright: ignore[report
     # Third attempt: try common encodings with recover=True.
     for enc in _COMMON_ENCODINGS:
         try:
-            parser = etree.XMLParser(encoding=enc, recover=True)
+            parser = etree.XMLParser(remove_comments=True, remove_pis=True, encoding=enc, recover=True)
             root = etree.fromstring(content, parser=parser)
             warnings.warn(
                 f"XML content parsed using fallback encoding '{enc}' with recover=True.",
-- 
2.43.0


From d9439e319a715f9c8a101319ff2fa5fef21776a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:33 +0000
Subject: [PATCH 10/27] fix: allow an empty element among repeated ones

Building the warning about repeated elements raised a TypeError if one of
them has no text.
---
 src/svdsuite/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/svdsuite/parse.py b/src/svdsuite/parse.py
index e9e6135..45abd2f 100644
--- a/src/svdsuite/parse.py
+++ b/src/svdsuite/parse.py
@@ -143,7 +143,7 @@ class Parser:
         elements = parent.findall(element_name)
 
         if len(elements) > 1:
-            texts = ", ".join([x.text for x in elements])  # type: ignore[union-attr]
+            texts = ", ".join([x.text or "" for x in elements])  # type: ignore[union-attr]
             lines = ", ".join([str(x.sourceline) for x in elements])
             warnings.warn(
                 f"Multiple elements '{element_name}' with texts '{texts}' found at svd file source lines '{lines}'. "
-- 
2.43.0


From 7177dbe493ca718e46e57651563f77a2178704c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:33 +0000
Subject: [PATCH 11/27] fix: reject trailing garbage in dimIndex and bitRange

Only the beginning was matched: a bit range like [7:0]9 was accepted, and a
dim index like 0-3x or A-Cx escaped as ValueError or TypeError.
---
 src/svdsuite/process.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 56d4b33..48123c5 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -442,7 +442,7 @@ class Process:
 
         if parsed_field.bit_range is not None:
             if bit_range is not None:
-                match = re.match(r"\[(\d+):(\d+)\]", bit_range)
+                match = re.fullmatch(r"\[(\d+):(\d+)\]", bit_range)
                 if match:
                     field_msb, field_lsb = map(int, match.groups())
 
@@ -1130,25 +1130,25 @@ class _ProcessDimension:
 
         if dim_index is None:
             dim_index_list = [str(i) for i in range(dim)]
-        elif re.match(r"[0-9]+\-[0-9]+", dim_index):
+        elif re.fullmatch(r"[0-9]+\-[0-9]+", dim_index):
             start, end = dim_index.split("-")
 
             if int(start) > int(end):
                 raise ProcessException(f"dim index '{dim_index}' start value must be less than end value")
 
             dim_index_list = [str(i) for i in range(int(start), int(end) + 1)]
-        elif re.match(r"[A-Z]-[A-Z]", dim_index):
+        elif re.fullmatch(r"[A-Z]-[A-Z]", dim_index):
             start, end = dim_index.split("-")
 
             if ord(start) >= ord(end):
                 raise ProcessException(f"dim index '{dim_index}' start value must be less than end value")
 
             dim_index_list = [chr(i) for i in range(ord(start), ord(end) + 1)]
-        elif re.match(r"[_0-9a-zA-Z]+(,\s*[_0-9a-zA-Z]+)+", dim_index):
+        elif re.fullmatch(r"[_0-9a-zA-Z]+(,\s*[_0-9a-zA-Z]+)+", dim_index):
             dim_index_no_whitespace = re.sub(r"\s+", "", dim_index)
             dim_index_list = dim_index_no_whitespace.split(",")
         # Not supported by the XSD, but required to parse some vendor files
-        elif re.match(r"[_0-9a-zA-Z]+", dim_index):
+        elif re.fullmatch(r"[_0-9a-zA-Z]+", dim_index):
             dim_index_list = [dim_index]
         else:
             raise ProcessException(f"can't resolve dim index for '{dim_index}'")
-- 
2.43.0


From 46d362c4878efd27027c0bd83609018f21b5c9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:08 +0000
Subject: [PATCH 12/27] fix: replicate a derive edge only once

When base and derived element both lay inside a replicated subtree, the replica got two derive edges and kept one of
them, which made later rounds and the finalization treat it as a child of its base.
---
 src/svdsuite/resolve/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/svdsuite/resolve/graph.py b/src/svdsuite/resolve/graph.py
index b152d4c..79660ac 100644
--- a/src/svdsuite/resolve/graph.py
+++ b/src/svdsuite/resolve/graph.py
@@ -256,7 +256,7 @@ class ResolverGraph:
         for rx_index in rx_indices_to_replicate:
             # replicate outgoing _EdgeType.PROCESSED and _EdgeType.UNPROCESSED edges
             for _, child_rx_index, edge_type in self._graph.out_edges(rx_index):
-                if child_rx_index not in rx_indices_to_replicate:
+                if child_rx_index not in rx_indices_to_replicate or edge_type == EdgeType.DERIVE:
                     continue
 
                 self._graph.add_edge(replica_mapping[rx_index], replica_mapping[child_rx_index], edge_type)
-- 
2.43.0


From ff7f4a8a2f71c17f73ab0d2a6003f6154fac8cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:08 +0000
Subject: [PATCH 13/27] fix: keep pending derivations when deriving from a dim
 instance

The placeholders of a dim element's children are attached to the dim template only, hence deriving from one of its
instances lost them and failed with 'Base node not found'.
---
 src/svdsuite/resolve/graph.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/svdsuite/resolve/graph.py b/src/svdsuite/resolve/graph.py
index 79660ac..5e30a70 100644
--- a/src/svdsuite/resolve/graph.py
+++ b/src/svdsuite/resolve/graph.py
@@ -239,6 +239,12 @@ class ResolverGraph:
                 rx_indices_to_replicate.add(child_rx_index)
                 stack.append(child_rx_index)
 
+        # the placeholders of the children of a resolved dim node are attached to the dim template, not to source_node
+        for rx_index in list(rx_indices_to_replicate):
+            for parent_rx_index, _, _ in self._graph.in_edges(rx_index):
+                if isinstance(self._graph[parent_rx_index], PlaceholderNode):
+                    rx_indices_to_replicate.add(parent_rx_index)
+
         # replicate the nodes and map the indicies
         replica_mapping: dict[int, int] = {}
         for rx_index in rx_indices_to_replicate:
@@ -272,6 +278,13 @@ class ResolverGraph:
             for _, child_rx_index, _ in self._graph.out_edges(source_rx_index)
             if child_rx_index in rx_indices_to_replicate
         ]
+        immediate_children += [
+            rx_index
+            for rx_index in rx_indices_to_replicate
+            if isinstance(self._graph[rx_index], PlaceholderNode)
+            and rx_index not in immediate_children
+            and not any(parent in rx_indices_to_replicate for parent in self._graph.predecessor_indices(rx_index))
+        ]
 
         # attach the replicated subgraph to target_node
         target_rx_index = self._node_to_rx_index[target_node]
-- 
2.43.0


From 620a83cfa6855bd9c1c6149b52902d7d1c0b59bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:57 +0000
Subject: [PATCH 14/27] fix: search derivedFrom targets among real siblings
 only

The successors of the parent node include elements derived from it, which were searched (and could be found) as if they
were siblings of the deriving element.
---
 src/svdsuite/resolve/graph.py | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/svdsuite/resolve/graph.py b/src/svdsuite/resolve/graph.py
index 5e30a70..6c984af 100644
--- a/src/svdsuite/resolve/graph.py
+++ b/src/svdsuite/resolve/graph.py
@@ -109,17 +109,7 @@ class ResolverGraph:
         # hence, the first parent suffices to find siblings
         parent = parents[0]
 
-        siblings: list[ElementNode] = []
-        for child in self._graph.successors(self._node_to_rx_index[parent]):
-            if not isinstance(child, ElementNode):
-                continue
-
-            if child == node:
-                continue
-
-            siblings.append(child)
-
-        return siblings
+        return [child for child in self.get_element_childrens(parent) if child != node]
 
     def remove_placeholder(self, placeholder: PlaceholderNode):
         self._remove_node(placeholder)
-- 
2.43.0


From da416a16e1cd5c2ba04788bd0472868a1b68a6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:01 +0000
Subject: [PATCH 15/27] fix: decide between derivedFrom candidates only once
 they are processed

Whether a candidate belongs to an alternate group is known only after it was processed; until then the lookup failed
with 'Processed attribute of node is None' depending on the order of resolution.
---
 src/svdsuite/resolve/resolver.py | 35 ++++++++++++++++----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/svdsuite/resolve/resolver.py b/src/svdsuite/resolve/resolver.py
index f1fd514..395dd88 100644
--- a/src/svdsuite/resolve/resolver.py
+++ b/src/svdsuite/resolve/resolver.py
@@ -311,30 +311,31 @@ class Resolver:
                     )
                     matches.extend(child_matches)
 
-                if len(matches) > 1:
-                    filtered_matches = [
-                        match
-                        for match in matches
-                        if isinstance(match.processed, IRegister) and match.processed.alternate_group is None
-                    ]
-                    if len(filtered_matches) == 1:
-                        return filtered_matches
-
-                    # More than one match found – raise exception immediately
-                    raise ResolveException(f"Multiple base nodes found for derive path '{'.'.join(path_parts)}'")
-
             return matches
 
         # Search in same scope
         siblings = self._resolver_graph.get_element_siblings(derived_node)
         matches = search_nodes(siblings, derive_path_parts, derived_node, level)
-        if len(matches) == 1:
-            return matches[0]
 
         # If not found, search over all peripherals
-        peripherals = self._resolver_graph.get_element_childrens(self._root_node)
-        matches = search_nodes(peripherals, derive_path_parts, derived_node, level)
-        if len(matches) == 1:
+        if not matches:
+            peripherals = self._resolver_graph.get_element_childrens(self._root_node)
+            matches = search_nodes(peripherals, derive_path_parts, derived_node, level)
+
+        if len(matches) > 1:
+            # the alternate group of an unprocessed register may still be inherited, so wait until all are processed
+            if any(match.status != NodeStatus.PROCESSED for match in matches):
+                return None
+
+            matches = [
+                match
+                for match in matches
+                if isinstance(match.processed_or_none, IRegister) and match.processed_or_none.alternate_group is None
+            ]
+            if len(matches) != 1:
+                raise ResolveException(f"Multiple base nodes found for derive path '{derive_path}'")
+
+        if matches:
             return matches[0]
 
         # No matches found
-- 
2.43.0


From a24bdf35d5db092e044d8689d2f7bdfdb50e038e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:56 +0000
Subject: [PATCH 16/27] fix: report every pair of overlapping address blocks

Only neighbouring blocks were compared, so a block overlapped by an earlier, larger one went unreported.
---
 src/svdsuite/process.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 48123c5..40ad933 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -687,9 +687,7 @@ class _ValidateAndFinalize:
         return registers
 
     def _validate_address_blocks(self, i_peripheral: IPeripheral) -> None:
-        for idx in range(1, len(i_peripheral.address_blocks)):
-            prev = i_peripheral.address_blocks[idx - 1]
-            curr = i_peripheral.address_blocks[idx]
+        for prev, curr in itertools.combinations(i_peripheral.address_blocks, 2):
             if curr.offset < prev.offset + prev.size:
                 warnings.warn(
                     f"Address block with offset '{curr.offset}' overlaps with address block "
-- 
2.43.0


From fa39238d2d30edaad1fbd677eb9f44b01ca7369f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:24 +0000
Subject: [PATCH 17/27] fix: set the parent of converted write constraints

---
 src/svdsuite/util/process_parse_model_convert.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/svdsuite/util/process_parse_model_convert.py b/src/svdsuite/util/process_parse_model_convert.py
index 04ad35f..ad85133 100644
--- a/src/svdsuite/util/process_parse_model_convert.py
+++ b/src/svdsuite/util/process_parse_model_convert.py
@@ -186,6 +186,9 @@ def process_parse_convert_field(field: Field) -> SVDField:
     for container in enumerated_value_containers:
         container.parent = svd_field
 
+    if svd_field.write_constraint:
+        svd_field.write_constraint.parent = svd_field
+
     return svd_field
 
 
@@ -218,6 +221,9 @@ def process_parse_convert_register(register: Register) -> SVDRegister:
     for field in fields:
         field.parent = svd_register
 
+    if svd_register.write_constraint:
+        svd_register.write_constraint.parent = svd_register
+
     return svd_register
 
 
-- 
2.43.0


From c836ac478cb5933bcefdd06023098d1c3517e4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:34 +0000
Subject: [PATCH 18/27] fix: list allowed alternates in warnings independently
 of the hash seed

---
 src/svdsuite/process.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 40ad933..dcc4026 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -710,7 +710,7 @@ class _ValidateAndFinalize:
                         if name not in allowed_names:
                             warnings.warn(
                                 f"Effective peripheral address overlap: '{periph.name}' overlaps with '{name}', "
-                                f"which is not among the allowed alternate peripherals {allowed_names}",
+                                f"which is not among the allowed alternate peripherals {sorted(allowed_names)}",
                                 ProcessWarning,
                             )
                     else:
@@ -731,7 +731,7 @@ class _ValidateAndFinalize:
                         if name not in allowed_names:
                             warnings.warn(
                                 f"Specified peripheral address overlap in address_blocks: '{periph.name}' overlaps "
-                                f"with '{name}', which is not among the allowed alternate peripherals {allowed_names}",
+                                f"with '{name}', which is not among the allowed alternate peripherals {sorted(allowed_names)}",
                                 ProcessWarning,
                             )
                     else:
@@ -922,7 +922,7 @@ class _ValidateAndFinalize:
                         if name not in allowed_names:
                             warnings.warn(
                                 f"{type_label} '{item.name}' overlaps with '{name}', "
-                                f"which is not among the allowed alternate {type_label.lower()}s {allowed_names}",
+                                f"which is not among the allowed alternate {type_label.lower()}s {sorted(allowed_names)}",
                                 ProcessWarning,
                             )
                     else:
-- 
2.43.0


From 2f2f59876b924ad92f134d047ddc4f0ec4967e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:41 +0000
Subject: [PATCH 19/27] fix: use the fallback encodings for files with
 undecodable bytes, too

---
 src/svdsuite/util/xml_parse.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/svdsuite/util/xml_parse.py b/src/svdsuite/util/xml_parse.py
index be98a59..51f9c50 100644
--- a/src/svdsuite/util/xml_parse.py
+++ b/src/svdsuite/util/xml_parse.py
@@ -18,12 +18,14 @@ def encode_xml_str(xml_str: str) -> bytes:
 
 
 def safe_parse(path_or_file: str | BinaryIO) -> etree._ElementTree:  # pyright: ignore[reportPrivateUsage]
+    # lxml reports bytes that don't fit the encoding of a file as OSError instead of XMLSyntaxError.
+
     # First attempt: no encoding, recover=False.
     try:
         parser = etree.XMLParser(remove_comments=True, remove_pis=True, recover=False)
         tree = etree.parse(path_or_file, parser=parser)
         return tree
-    except etree.XMLSyntaxError as e:
+    except (etree.XMLSyntaxError, OSError) as e:
         original_exception = e
 
     # Second attempt: try common encodings with recover=False.
@@ -36,7 +38,7 @@ def safe_parse(path_or_file: str | BinaryIO) -> etree._ElementTree:  # pyright:
                 ParserWarning,
             )
             return tree
-        except etree.XMLSyntaxError:
+        except (etree.XMLSyntaxError, OSError):
             continue
 
     # Third attempt: try common encodings with recover=True.
@@ -49,7 +51,7 @@ def safe_parse(path_or_file: str | BinaryIO) -> etree._ElementTree:  # pyright:
                 ParserWarning,
             )
             return tree
-        except etree.XMLSyntaxError:
+        except (etree.XMLSyntaxError, OSError):
             continue
 
     # If all attempts fail, re-raise the original exception.
-- 
2.43.0


From 63c559dfb07eae12c05d2680c7fbaa186d92b40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:49 +0000
Subject: [PATCH 20/27] fix: refuse content without any element with the XML
 error

---
 src/svdsuite/util/xml_parse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/svdsuite/util/xml_parse.py b/src/svdsuite/util/xml_parse.py
index 51f9c50..28eb6f0 100644
--- a/src/svdsuite/util/xml_parse.py
+++ b/src/svdsuite/util/xml_parse.py
@@ -46,6 +46,8 @@ def safe_parse(path_or_file: str | BinaryIO) -> etree._ElementTree:  # pyright:
         try:
             parser = etree.XMLParser(remove_comments=True, remove_pis=True, encoding=enc, recover=True)
             tree = etree.parse(path_or_file, parser=parser)
+            if tree.getroot() is None:  # nothing could be recovered
+                continue
             warnings.warn(
                 f"XML file parsed using fallback encoding '{enc}' with recover=True.",
                 ParserWarning,
@@ -85,6 +87,8 @@ def safe_fromstring(content: bytes) -> etree._Element:  # pyright: ignore[report
         try:
             parser = etree.XMLParser(remove_comments=True, remove_pis=True, encoding=enc, recover=True)
             root = etree.fromstring(content, parser=parser)
+            if root is None:  # nothing could be recovered
+                continue
             warnings.warn(
                 f"XML content parsed using fallback encoding '{enc}' with recover=True.",
                 ParserWarning,
-- 
2.43.0


From 4ee575bd80299e255d57cb4f1f8893611c25aac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:42 +0000
Subject: [PATCH 21/27] fix: write the resolver log when resolving ends

---
 src/svdsuite/resolve/resolver.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/svdsuite/resolve/resolver.py b/src/svdsuite/resolve/resolver.py
index 395dd88..30ddfda 100644
--- a/src/svdsuite/resolve/resolver.py
+++ b/src/svdsuite/resolve/resolver.py
@@ -56,6 +56,12 @@ class Resolver:
         return self._root_node_
 
     def resolve_peripherals(self, parsed_device: SVDDevice) -> list[IPeripheral]:
+        try:
+            return self._resolve_peripherals(parsed_device)
+        finally:
+            self._logger.log_finalize()
+
+    def _resolve_peripherals(self, parsed_device: SVDDevice) -> list[IPeripheral]:
         self._initialization(parsed_device)
 
         self._logger.log_repeating_steps_start()
-- 
2.43.0


From 5473a8299aa015455f2a9c8da806738573bac61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:54 +0000
Subject: [PATCH 22/27] fix: escape names in the resolver log's graph

---
 src/svdsuite/resolve/graph.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/svdsuite/resolve/graph.py b/src/svdsuite/resolve/graph.py
index 6c984af..543e259 100644
--- a/src/svdsuite/resolve/graph.py
+++ b/src/svdsuite/resolve/graph.py
@@ -353,23 +353,22 @@ class ResolverGraph:
                     queue.append(parent)
 
     def get_svg(self) -> str:
+        def escape(text: None | str) -> str:
+            return (text or "no name").replace("\\", "\\\\").replace('"', '\\"')
+
         def node_attr_fn(node: ResolverNode) -> dict[str, str]:
             if isinstance(node, ElementNode):
                 if node.level == ElementLevel.DEVICE:
                     return {"label": "Device", "color": "blue", "fontcolor": "blue"}
 
                 return {
-                    "label": (
-                        f"{node.name}\n({node.level.value})\nrx_index: {self._node_to_rx_index[node]}"
-                        if node.name
-                        else f"no name\n({node.level.value})\nrx_index: {self._node_to_rx_index[node]}"
-                    ),
+                    "label": f"{escape(node.name)}\n({node.level.value})\nrx_index: {self._node_to_rx_index[node]}",
                     "color": "black" if node.status == NodeStatus.UNPROCESSED else "blue",
                     "fontcolor": "black" if node.status == NodeStatus.UNPROCESSED else "blue",
                 }
             elif isinstance(node, PlaceholderNode):
                 return {
-                    "label": f"{node.derive_path}\n(Placeholder)\nrx_index: {self._node_to_rx_index[node]}",
+                    "label": f"{escape(node.derive_path)}\n(Placeholder)\nrx_index: {self._node_to_rx_index[node]}",
                     "color": "red",
                     "fontcolor": "red",
                 }
-- 
2.43.0


From ab38a0c886bc802e595fa85b1f00d8fb7fdf6a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:58 +0000
Subject: [PATCH 23/27] fix: reject malformed numbers that int() happens to
 accept

---
 src/svdsuite/parse.py   | 5 +++++
 src/svdsuite/process.py | 6 +++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/svdsuite/parse.py b/src/svdsuite/parse.py
index 45abd2f..4deed31 100644
--- a/src/svdsuite/parse.py
+++ b/src/svdsuite/parse.py
@@ -1,3 +1,4 @@
+import re
 import warnings
 from typing import Literal, Optional, overload
 
@@ -84,6 +85,10 @@ def _to_int(value: None | str, base: int = 0) -> None | int:
     if value is None:
         return None
 
+    # the int function also accepts digit separators, octal values and non-ASCII digits
+    if not re.fullmatch(r"[+-]?(0[xX][0-9a-fA-F]+|(#|0[bB])[01]+|[0-9]+)", value):
+        raise NotImplementedError(f"can't parse value '{value}' in function _to_int")
+
     # transfer binary value to a string int function can handle
     value = value.replace("#", "0b")
 
diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index dcc4026..490a76e 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -442,7 +442,7 @@ class Process:
 
         if parsed_field.bit_range is not None:
             if bit_range is not None:
-                match = re.fullmatch(r"\[(\d+):(\d+)\]", bit_range)
+                match = re.fullmatch(r"\[([0-9]+):([0-9]+)\]", bit_range)
                 if match:
                     field_msb, field_lsb = map(int, match.groups())
 
@@ -1280,6 +1280,10 @@ class _ProcessEnumeratedValueContainer:
         return [value for value in enumerated_values if not value.is_default]
 
     def _convert_enumerated_value(self, input_str: str) -> list[int]:
+        # the int function also accepts digit separators, a second prefix, white space and non-ASCII digits
+        if not re.fullmatch(r"0x[0-9a-f]+|(#|0b)[01x]+|[0-9]+", input_str.lower()):
+            raise ProcessException(f"Unrecognized format for input: '{input_str}'")
+
         # transfer binary value to a string int function can handle
         input_str = input_str.lower().replace("#", "0b")
 
-- 
2.43.0


From 4c56a286c6940ec9cbdb39980f6c2b425dfa6dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:47 +0000
Subject: [PATCH 24/27] fix: refuse to derive a cluster from one that contains
 it

---
 src/svdsuite/resolve/resolver.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/svdsuite/resolve/resolver.py b/src/svdsuite/resolve/resolver.py
index 30ddfda..41c239d 100644
--- a/src/svdsuite/resolve/resolver.py
+++ b/src/svdsuite/resolve/resolver.py
@@ -147,8 +147,17 @@ class Resolver:
         if isinstance(base_node.processed_or_none, IDevice):
             raise ResolveException("Base node can't be a Device")
 
+        if self._is_ancestor(base_node, derived_node):
+            raise CycleException(f"Node '{derived_node.name}' can't be derived from '{base_node.name}' which contains it")
+
         return base_node
 
+    def _is_ancestor(self, candidate: ElementNode, node: ElementNode) -> bool:
+        return any(
+            parent == candidate or (parent.level == candidate.level and self._is_ancestor(candidate, parent))
+            for parent in self._resolver_graph.get_element_parents(node)
+        )
+
     def _process_enumerated_value_container_node(self, node: ElementNode, base_node: None | ElementNode):
         # if base_node_id is not None, update the node with the base node's parsed attribute (copy from base)
         if base_node is not None:
-- 
2.43.0


From 6c2372ce194d3737ff387b7f4d93c7a53d86989b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:59 +0000
Subject: [PATCH 25/27] fix: parse every <peripherals> section instead of
 dropping all but the first

A second <peripherals> section disappeared without a word.  Like <registers>
and <fields>, all sections are parsed now.
---
 src/svdsuite/parse.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/svdsuite/parse.py b/src/svdsuite/parse.py
index 4deed31..77234ed 100644
--- a/src/svdsuite/parse.py
+++ b/src/svdsuite/parse.py
@@ -408,13 +408,12 @@ class Parser:
     def _parse_peripherals(
         self, device_element: lxml.etree._Element  # pyright: ignore[reportPrivateUsage]
     ) -> list[SVDPeripheral]:
-        peripherals_element = device_element.find("peripherals")
-
-        if peripherals_element is None:
+        if device_element.find("peripherals") is None:
             raise ParserException("can't find peripherals element")
 
+        # As with <registers> and <fields>, all <peripherals> elements are parsed, though the schema allows only one
         peripherals: list[SVDPeripheral] = []
-        for peripheral_element in peripherals_element.findall("peripheral"):
+        for peripheral_element in device_element.findall("peripherals/peripheral"):
             derived_from = self._parse_element_attribute("derivedFrom", peripheral_element, optional=True)
             name = self._parse_element_text("name", peripheral_element, optional=False)
             version = self._parse_element_text("version", peripheral_element, optional=True)
-- 
2.43.0


From 9f224ad69e8fc97970ae991af60879992abd9e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:59 +0000
Subject: [PATCH 26/27] fix: warn when a structured element is given several
 times

Of repeated cpu, sauRegionsConfig, writeConstraint, range and dimArrayIndex
elements all but the first were dropped silently, unlike repeated text
elements, for which a ParserWarning is issued.
---
 src/svdsuite/parse.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/svdsuite/parse.py b/src/svdsuite/parse.py
index 77234ed..64c0d1b 100644
--- a/src/svdsuite/parse.py
+++ b/src/svdsuite/parse.py
@@ -227,6 +227,23 @@ class Parser:
 
         return attr_after_strip
 
+    def _find_single_element(
+        self,
+        element_name: str,
+        parent: lxml.etree._Element,  # pyright: ignore[reportPrivateUsage]
+    ) -> None | lxml.etree._Element:  # pyright: ignore[reportPrivateUsage]
+        elements = parent.findall(element_name)
+
+        if len(elements) > 1:
+            lines = ", ".join([str(x.sourceline) for x in elements])
+            warnings.warn(
+                f"Multiple elements '{element_name}' found at svd file source lines '{lines}'. "
+                "Only the first one will be used",
+                ParserWarning,
+            )
+
+        return elements[0] if elements else None
+
     def _parse_device(self, device_element: lxml.etree._Element) -> SVDDevice:  # pyright: ignore[reportPrivateUsage]
         try:
             ns_key = "xs" if "xs" in device_element.nsmap else "xsi"
@@ -312,7 +329,7 @@ class Parser:
         return size, access, protection, reset_value, reset_mask
 
     def _parse_cpu(self, device_element: lxml.etree._Element) -> None | SVDCPU:  # pyright: ignore[reportPrivateUsage]
-        cpu_element = device_element.find("cpu")
+        cpu_element = self._find_single_element("cpu", device_element)
 
         if cpu_element is None:
             return None
@@ -365,7 +382,7 @@ class Parser:
     def _parse_sau_regions_config(
         self, cpu_element: lxml.etree._Element  # pyright: ignore[reportPrivateUsage]
     ) -> None | SVDSauRegionsConfig:
-        config_element = cpu_element.find("sauRegionsConfig")
+        config_element = self._find_single_element("sauRegionsConfig", cpu_element)
 
         if config_element is None:
             return None
@@ -649,7 +666,7 @@ class Parser:
     def _parse_write_constraint(
         self, parent_element: lxml.etree._Element  # pyright: ignore[reportPrivateUsage]
     ) -> None | SVDWriteConstraint:
-        write_cronstraint_element = parent_element.find("writeConstraint")
+        write_cronstraint_element = self._find_single_element("writeConstraint", parent_element)
 
         if write_cronstraint_element is None:
             return None
@@ -661,7 +678,7 @@ class Parser:
             self._parse_element_text("useEnumeratedValues", write_cronstraint_element, optional=True)
         )
 
-        if (range_element := write_cronstraint_element.find("range")) is not None:
+        if (range_element := self._find_single_element("range", write_cronstraint_element)) is not None:
             minimum = _to_int(self._parse_element_text("minimum", range_element, optional=False))
             maximum = _to_int(self._parse_element_text("maximum", range_element, optional=False))
 
@@ -794,7 +811,7 @@ class Parser:
         self,
         element: lxml.etree._Element,  # pyright: ignore[reportPrivateUsage]
     ) -> None | SVDDimArrayIndex:
-        dim_array_index_element = element.find("dimArrayIndex")
+        dim_array_index_element = self._find_single_element("dimArrayIndex", element)
 
         if dim_array_index_element is None:
             return None
-- 
2.43.0


From 368f5a708ce701d18eb7283f3beef308df10d210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:54 +0000
Subject: [PATCH 27/27] fix: do not give a number of the default enumerated
 value a name already in use

---
 src/svdsuite/process.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 490a76e..3cde237 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -1266,10 +1266,16 @@ class _ProcessEnumeratedValueContainer:
 
         uncovered_values = all_possible_values - covered_values
 
+        used_names = {value.name for value in enumerated_values}
         for value in uncovered_values:
+            name = f"{default.name}_{value}"
+            if name in used_names:
+                warnings.warn(f"Duplicate enumerated value name found: {name}. Ignoring value.", ProcessWarning)
+                continue
+
             enumerated_values.append(
                 IEnumeratedValue(
-                    name=f"{default.name}_{value}",
+                    name=name,
                     description=default.description,
                     value=value,
                     is_default=False,
-- 
2.43.0

