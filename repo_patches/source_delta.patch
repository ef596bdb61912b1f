From 9f522d08c9fe2f8d412735ad71b65ab51bc8b47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:39 +0000
Subject: [PATCH 01/93] fix: retain on a layer with gaps, and no half-marked
 nodes when retain is rejected

---
 py/docria/model.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index b1bb0af..1598dc9 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1590,18 +1590,24 @@ class NodeLayerCollection(NodeCollection):
         """Retain all nodes in the given list nodes, remove everything else."""
 
         try:
-            for n in iter(nodes):
-                # Mark the nodes to retain
-                if n.collection is not self:
-                    raise ValueError("Node %s is not in this node collection '%s'" % (repr(n), self.name))
-
-                # Guards against more than one reference to a node in nodes
-                if n._id >= 0:
-                    n._id = -(n._id + 1)  # add 1, otherwise zero fails.
-
+            nodes = list(nodes)
         except TypeError:
             raise ValueError("Given nodes is not iterable.")
 
+        # Verify all nodes before any of them is marked
+        for n in nodes:
+            if not isinstance(n, Node) or n.collection is not self:
+                raise ValueError("Node %s is not in this node collection '%s'" % (repr(n), self.name))
+
+        # Remove any gaps
+        self.compact()
+
+        for n in nodes:
+            # Mark the nodes to retain
+            # Guards against more than one reference to a node in nodes
+            if n._id >= 0:
+                n._id = -(n._id + 1)  # add 1, otherwise zero fails.
+
         # Compact and remove unmarked nodes
         k = 0
         for i in range(len(self._nodes)):
-- 
2.43.0


From dcdfc4ce4e70de36fe18d24763994326a713faca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:39 +0000
Subject: [PATCH 02/93] fix: add_many skipped validation when given an iterator

---
 py/docria/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/docria/model.py b/py/docria/model.py
index 1598dc9..f834ef7 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1488,6 +1488,7 @@ class NodeLayerCollection(NodeCollection):
         If full_validation is set to True, it will first add all nodes, and then perform validation. \
         Internal references between nodes in the nodes input is allowed.
         """
+        nodes = list(nodes)  # An iterator can only be consumed once, but validation needs a second pass.
         start_pos = len(self._nodes)
         for node in nodes:
             assert isinstance(node, Node), "Got a node which is not a Node: %s" % repr(node)
-- 
2.43.0


From f7c0e9065b3859c8ce69b873c86cf9bfdb8e0d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:39 +0000
Subject: [PATCH 03/93] fix: a failing sort key left the layer in an
 inconsistent state

---
 py/docria/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index f834ef7..d635103 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1546,7 +1546,7 @@ class NodeLayerCollection(NodeCollection):
         :param keyfn: a function (input: Node) -> value to sort by.
         """
         self.compact()
-        self._nodes.sort(key=keyfn)
+        self._nodes = sorted(self._nodes, key=keyfn)  # not in-place, keyfn might fail or use this layer.
         for i, n in zip(range(len(self)), self):
             n._id = i
 
-- 
2.43.0


From db3ebc9fafaa3be093c417588949355da0fc7c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:18 +0000
Subject: [PATCH 04/93] fix: extra_fields_ok also disabled type validation, and
 the reverse

---
 py/docria/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index d635103..32caaf0 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1989,9 +1989,10 @@ class Document:
             validate_fn = v.validate
 
             # Validate nodes
-            if type_validation and not extra_fields_ok:
+            if type_validation or not extra_fields_ok:
                 for n in v:
-                    validate_fn(n)
+                    if type_validation:
+                        validate_fn(n)
 
                     if not extra_fields_ok and len(set(n.keys()).difference(fieldkeys)) > 0:
                         raise SchemaValidationError(
-- 
2.43.0


From 74d2f82e82c2f714c1d9fd9d0832b07ba7978c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:18 +0000
Subject: [PATCH 05/93] fix: decoded documents had no type validation, invalid
 values were serialized

---
 py/docria/codec.py | 10 +++++-----
 py/docria/model.py | 19 +++++++++++++++++++
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 5293445..0323d34 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -15,7 +15,7 @@
 # limitations under the License.
 #
 """Codecs, encoding/decoding documents to/from binary or text representations"""
-from docria.model import TextSpan, Document, DataTypeEnum, NodeLayerSchema, String2DataType, DataType, Node, ExtData, NodeSpan
+from docria.model import TextSpan, Document, DataTypeEnum, NodeLayerSchema, String2DataType, DataType, Node, ExtData, NodeSpan, create_datatype
 import msgpack
 import json
 import logging
@@ -221,10 +221,10 @@ class JsonCodec:
                 if isinstance(typedef, dict): # Advanced type
                     ttype = String2DataType[typedef["type"]]
                     args = typedef["args"]
-                    fields.append((fieldname, DataType(ttype, **args)))
+                    fields.append((fieldname, create_datatype(ttype, **args)))
                 elif isinstance(typedef, str): # Simple type
                     ttype = String2DataType[typedef]
-                    fields.append((fieldname, DataType(ttype)))
+                    fields.append((fieldname, create_datatype(ttype)))
                 else:
                     raise DataError("Could not decode layer %s field types, " \
                                     "failed on field %s. Got data: %s" % (typename, fieldname, repr(typedef)))
@@ -705,9 +705,9 @@ class MsgpackCodec:
 
                 if has_args:
                     fieldargs = next(unpacker)
-                    fields.append((fieldname, DataType(ttype, **fieldargs)))
+                    fields.append((fieldname, create_datatype(ttype, **fieldargs)))
                 else:
-                    fields.append((fieldname, DataType(ttype)))
+                    fields.append((fieldname, create_datatype(ttype)))
 
                 nl.add(fieldname, fields[-1][1])
 
diff --git a/py/docria/model.py b/py/docria/model.py
index 32caaf0..a9c677c 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1066,6 +1066,25 @@ class DataTypeNoderefList(DataType):
                all(map(lambda n: n.collection is not None and n.collection.name == target_layer, value))
 
 
+_DataType2Class = {
+    DataTypeEnum.I32: DataTypeInt32,
+    DataTypeEnum.I64: DataTypeInt64,
+    DataTypeEnum.F64: DataTypeFloat,
+    DataTypeEnum.BOOL: DataTypeBool,
+    DataTypeEnum.STRING: DataTypeString,
+    DataTypeEnum.BINARY: DataTypeBinary,
+    DataTypeEnum.NODEREF: DataTypeNoderef,
+    DataTypeEnum.NODEREF_MANY: DataTypeNoderefList,
+    DataTypeEnum.SPAN: DataTypeTextspan,
+    DataTypeEnum.NODEREF_SPAN: DataTypeNodespan
+}
+
+
+def create_datatype(typename: DataTypeEnum, **kwargs) -> DataType:
+    """Create data type declaration, with validation, from its type name (used by codecs)"""
+    return _DataType2Class.get(typename, DataType)(typename, **kwargs)
+
+
 class DataTypes:
     """Layer field type factory"""
     _float64 = DataTypeFloat(DataTypeEnum.F64, default=0)
-- 
2.43.0


From 85f94a7498baa91c1927d80262a0fc41c282588b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:18 +0000
Subject: [PATCH 06/93] fix: wrong defaults of float64, and no validation of
 bool and of string with default

---
 py/docria/model.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index a9c677c..665d381 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1087,7 +1087,7 @@ def create_datatype(typename: DataTypeEnum, **kwargs) -> DataType:
 
 class DataTypes:
     """Layer field type factory"""
-    _float64 = DataTypeFloat(DataTypeEnum.F64, default=0)
+    _float64 = DataTypeFloat(DataTypeEnum.F64, default=0.0)
     _float64_raw = DataTypeFloat(DataTypeEnum.F64)
     _int32 = DataTypeInt32(DataTypeEnum.I32, default=0)
     _int32_raw = DataTypeInt32(DataTypeEnum.I32)
@@ -1124,7 +1124,7 @@ class DataTypes:
         elif default is None:
             return DataTypes._float64_raw
         else:
-            return DataTypeFloat(DataTypeEnum.F64, default=0.0)
+            return DataTypeFloat(DataTypeEnum.F64, default=float(default))
 
     @staticmethod
     def string(default: Optional[str] = ""):
@@ -1133,16 +1133,16 @@ class DataTypes:
         elif default is None:
             return DataTypes._string_raw
         else:
-            return DataType(DataTypeEnum.STRING, default=default)
+            return DataTypeString(DataTypeEnum.STRING, default=default)
 
     @staticmethod
     def bool(default: Optional[bool] = False):
-        if default == "":
-            return DataTypes._string
-        elif default is None:
+        if default is None:
             return DataTypes._bool_raw
+        elif not default:
+            return DataTypes._bool
         else:
-            return DataType(DataTypeEnum.BOOL, default=default)
+            return DataTypeBool(DataTypeEnum.BOOL, default=True)
 
     boolean = bool
 
-- 
2.43.0


From 0862894e81463e063508f26b00823a841f6a13f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:18 +0000
Subject: [PATCH 07/93] fix: NodeList lost fields with different numeric types,
 and bool was taken for an integer

---
 py/docria/model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 665d381..3533669 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -503,6 +503,8 @@ class NodeList(list, NodeCollection):
                                                  (repr(resolved_type), repr(el), fld, repr(self)))
                             else:
                                 resolved_type = resolved_type.cast_up(el)
+
+                        output_types[fld] = resolved_type
                 else:
                     output_types[fld] = next(iter(dtypes))
 
@@ -1196,6 +1198,8 @@ class DataTypes:
     def typeof(o, comparetype: "DataType" = None) -> DataType:
         if isinstance(o, str):
             return DataTypes.string()
+        elif isinstance(o, bool):
+            return DataTypes.bool()
         elif isinstance(o, int):
             if comparetype is not None and comparetype.typename == DataTypeEnum.I32:
                 if -0x80000000 <= o <= 0x7FFFFFFF:
@@ -1206,8 +1210,6 @@ class DataTypes:
                 return DataTypes.int64()
         elif isinstance(o, float):
             return DataTypes.float64()
-        elif isinstance(o, bool):
-            return DataTypes.bool()
         elif isinstance(o, bytes):
             return DataTypes.binary
         elif isinstance(o, TextSpan):
-- 
2.43.0


From aa3c63cbab73c52bacc2e5fb259309752f3f2e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:55 +0000
Subject: [PATCH 08/93] fix: extension fields could not be encoded or decoded

---
 py/docria/codec.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 0323d34..d41b0c8 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -80,7 +80,7 @@ class Codec:
                 typeschema[field] = fieldtype.encode()
 
                 propvalues = []
-                encoder = Codec.encoders[fieldtype.typename]
+                encoder = Codec.encoders.get(fieldtype.typename)
                 if fieldtype.typename == DataTypeEnum.EXT:
                     for n in v:
                         extv = node_getter(n, field, None)
@@ -89,12 +89,12 @@ class Codec:
                                 propvalues.append(extv)
                             elif isinstance(extv, ExtData):
                                 propvalues.append(extv.encode())
+                            elif isinstance(extv, Document):
+                                propvalues.append(MsgpackCodec.encode(extv))
                             else:
                                 raise ValueError("Incorrect value.")
                         else:
                             propvalues.append(None)
-
-                        propvalues.append(None if extv is None else extv.encode())
                 elif fieldtype.typename == DataTypeEnum.SPAN:
                     encoder = encoder(offset_mapping[fieldtype.options["context"]][0])
                     for n in v:
@@ -789,7 +789,7 @@ class MsgpackCodec:
 
                     for n, v in zip(nodes, data):
                         if v is not None:
-                            n[col] = extdata(v.data)
+                            n[col] = extdata(v)
 
                 def span_field(text, offsets):
                     nonlocal nodes
-- 
2.43.0


From 97ce0937989b68df0b698da54cb610a61a911494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:55 +0000
Subject: [PATCH 09/93] fix: binary document properties were decoded as
 strings, or not at all

---
 py/docria/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index d41b0c8..df192cf 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -610,7 +610,7 @@ class MsgpackCodec:
         out_props = BytesIO()
 
         # TODO: Implement extension handling!
-        msgpack.pack(doc.props, out_props)
+        msgpack.pack(doc.props, out_props, use_bin_type=True)
 
         msgpack.pack(out_props.tell(), output)
         output.write(out_props.getbuffer()[0:out_props.tell()])
-- 
2.43.0


From e16de87583da734bf4147a73a36e4a6652194b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:55 +0000
Subject: [PATCH 10/93] fix: JSON codec failed on binary and extension fields

---
 py/docria/codec.py | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index df192cf..723a440 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -182,6 +182,14 @@ class JsonCodec:
     @staticmethod
     def encode_object(doc: "Document"):
         texts, types, types_num_nodes, schema = Codec.encode(doc, doc_encoder=JsonCodec.encode_object)
+
+        # JSON has no binary type
+        for typename, layer in doc.layers.items():
+            for field, fieldtype in layer.schema.fields.items():
+                if fieldtype.typename in {DataTypeEnum.BINARY, DataTypeEnum.EXT}:
+                    types[typename][field] = [None if v is None else standard_b64encode(v).decode("ascii")
+                                              for v in types[typename][field]]
+
         return {
             "DM10": {
                 "props": doc.props,
@@ -275,23 +283,33 @@ class JsonCodec:
 
                     return decoder
 
+                def binary_field(data):
+                    nonlocal nodes
+
+                    for n, v in zip(nodes, data):
+                        if v is not None:
+                            n[col] = standard_b64decode(v)
+
                 def ext_field(data):
                     nonlocal nodes
 
-                    typename = typedef.options["type"]
-                    if typename == "doc":
-                        extdata = MsgpackDocumentExt
+                    exttype = typedef.options["type"]
+                    if exttype == "doc":
+                        extdata = MsgpackCodec.decode
                     else:
-                        extdata = lambda v: ExtData(typename, v)
+                        extdata = lambda v: ExtData(exttype, v)
 
                     for n, v in zip(nodes, data):
                         if v is not None:
-                            n[col] = typename(standard_b64decode(data))
+                            n[col] = extdata(standard_b64decode(v))
 
                 decoder = simple_field
                 if typedef.typename == DataTypeEnum.SPAN:
                     decoder = span_field(doc.texts[typedef.options["context"]], text2offsets[typedef.options["context"]])
 
+                if typedef.typename == DataTypeEnum.BINARY:
+                    decoder = binary_field
+
                 if typedef.typename == DataTypeEnum.EXT:
                     decoder = ext_field
 
-- 
2.43.0


From 1a50c782adf6ed4e3e1478b17823d563db8777a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:55 +0000
Subject: [PATCH 11/93] fix: unpickled MsgpackDocument lacked its reference,
 and binary() only worked in memory

---
 py/docria/codec.py      | 9 +++++++--
 py/docria/collection.py | 4 ++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 723a440..abe712c 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -413,9 +413,10 @@ class MsgpackDocument:
         self._layers = None
 
     def __getstate__(self):
-        return {"doc": self.rawdata.getvalue(), "ref": self.ref}
+        return {"doc": self.binary(), "ref": self.ref}
 
     def __setstate__(self, state):
+        self.ref = state["ref"]
         self.rawdata = BytesIO(state["doc"])
         if self.rawdata.read(4) != b"DM_1":
             raise ValueError("Magic bytes is not DM_1")
@@ -466,7 +467,11 @@ class MsgpackDocument:
 
     def binary(self)->bytes:
         """Get this document as binary value"""
-        return self.rawdata.getvalue()
+        if isinstance(self.rawdata, BytesIO):
+            return self.rawdata.getvalue()
+
+        self.rawdata.seek(0)
+        return self.rawdata.read()
 
     def properties(self, *props):
         """Get document properties"""
diff --git a/py/docria/collection.py b/py/docria/collection.py
index e30fe31..e784659 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -496,7 +496,7 @@ class MsgpackDocumentWriter:
         if isinstance(doc, Document):
             data = MsgpackCodec.encode(doc, **kwargs)
         elif isinstance(doc, MsgpackDocument):
-            data = doc.rawdata.getvalue()
+            data = doc.binary()
         else:
             raise ValueError("Got unsupported doc, only Document and MsgpackDocument allowed")
 
@@ -612,7 +612,7 @@ class TarMsgpackWriter:
         if isinstance(doc, Document):
             data = MsgpackCodec.encode(doc)
         elif isinstance(doc, MsgpackDocument):
-            data = doc.rawdata.getvalue()
+            data = doc.binary()
         else:
             raise ValueError("Got unsupported doc, only Document and MsgpackDocument allowed")
 
-- 
2.43.0


From 5e99859734f2d00aede10018570cc5a8006177dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:31 +0000
Subject: [PATCH 12/93] fix: partial decoding of some texts was always empty,
 and of some layers failed

---
 py/docria/codec.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index abe712c..5058601 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -509,7 +509,14 @@ class MsgpackDocument:
         text2offsets = MsgpackCodec.compute_text_offsets(doc, texts)
 
         # -- Parse layers
-        layer_set = types if len(layers) == 0 else list(layers)
+        layer_set = list(types) if len(layers) == 0 else list(dict.fromkeys(layers))
+        for typename in layer_set:
+            # Include all layers which are referenced, otherwise references cannot be resolved.
+            for _, typedef in schema[typename]:
+                target_layer = typedef.options.get("layer")
+                if target_layer is not None and target_layer not in layer_set:
+                    layer_set.append(target_layer)
+
         all_nodes = {}
         for typename in layer_set:
             self.rawdata.seek(self._layers[typename][0])
@@ -520,7 +527,7 @@ class MsgpackDocument:
             layerschema = schema[typename]
             all_nodes[typename] = MsgpackCodec.decode_layer(unpacker, doc, typename, text2offsets, layerschema, **kwargs)
 
-        Codec.commit_layers(doc, types, schema, all_nodes)
+        Codec.commit_layers(doc, layer_set, schema, all_nodes)
         return doc
 
 
@@ -743,9 +750,9 @@ class MsgpackCodec:
         if len(texts) == 0:
             return next(unpacker)
         else:
+            prop_keys = set(texts)
             texts = {}
 
-            prop_keys = set(texts)
             num_entries = unpacker.read_map_header()
             for i in range(num_entries):
                 k = next(unpacker)
-- 
2.43.0


From ac924eda84a3e4b58c4d7eaba5c71e3353661296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:31 +0000
Subject: [PATCH 13/93] fix: remove_layer ignored nodespan fields, did not
 cascade, and did not return True

---
 py/docria/model.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 3533669..844c67e 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1874,11 +1874,12 @@ class Document:
         if name not in self.layers:
             return False
 
+        referencing_types = {DataTypeEnum.NODEREF, DataTypeEnum.NODEREF_MANY, DataTypeEnum.NODEREF_SPAN}
         referencing_layer_field = {}
         for k, v in self.layers.items():
             if k != name:
                 for fk, fv in v.schema.fields.items():
-                    if fv.typename == DataTypeEnum.NODEREF or fv.typename == DataTypeEnum.NODEREF_MANY:
+                    if fv.typename in referencing_types:
                         if fv.options["layer"] == name:
                             referencing_layer_field.setdefault(k, []).append(fk)
 
@@ -1891,7 +1892,12 @@ class Document:
             raise DataValidationError("Attempting to remove layer %s, but is referenced from layer(s)+field(s): %s"
                                       % (name, layer_field_names))
 
+        for layer, fields in referencing_layer_field.items():
+            for field in fields:
+                self.layers[layer].remove_field(field)
+
         del self.layers[name]
+        return True
 
     def __repr__(self):
         return "Document(%d layers, %d texts%s)" % (
-- 
2.43.0


From d965fe2da97ccdb74652903ee80ee7a64439cfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:02 +0000
Subject: [PATCH 14/93] fix: queries over lists, spans and queries failed, as
 did span predicates on unset fields

---
 py/docria/model.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 844c67e..8cd1d86 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -335,7 +335,7 @@ class NodeFieldCollection(Sized):
         assert self.dtype.typename == DataTypeEnum.SPAN, "Not a textspan field: %s" % repr(self)
         assert len(range) == 2, "range should be tuple of (start, stop)"
         cover_span = tuple(range)
-        return self.filter(lambda span: span.covered_by(cover_span))
+        return self.filter(lambda span: span is not None and span.covered_by(cover_span))
 
     def intersected_by(self, *range):
         """
@@ -347,7 +347,7 @@ class NodeFieldCollection(Sized):
         assert self.dtype.typename == DataTypeEnum.SPAN, "Not a textspan field: %s" % repr(self)
         assert len(range) == 2, "range should be tuple of (start, stop)"
         cover_span = tuple(range)
-        return self.filter(lambda span: span.intersected_by(cover_span))
+        return self.filter(lambda span: span is not None and span.intersected_by(cover_span))
 
     def __gt__(self, other):
         return NodeFieldPredicateGt(self, other)
@@ -540,7 +540,7 @@ class NodeList(list, NodeCollection):
             return None
 
     def __repr__(self):
-        return repr(super())
+        return list.__repr__(self)
 
     def _repr_html_(self):
         tbl = self._table_repr_()
@@ -1285,17 +1285,13 @@ class NodeCollectionQuery(NodeCollection):
         return len(self.result)
 
     def __getitem__(self, item):
-        if isinstance(item, str):
-            if item in self.collection.schema.fields:
-                return NodeFieldCollection(self, item)
-        else:
-            return super().__getitem__(item)
+        return super().__getitem__(item)
 
     def update(self):
         self.result = [n for n in self.collection if self.predicate(n)]
 
     def __repr__(self):
-        return "NodeCollectionQuery(collection=%s, N=%d)" % (self.collection.name, len(self))
+        return "NodeCollectionQuery(collection=%s, N=%d)" % (repr(self.collection), len(self))
 
     def _repr_html_(self):
         return self._table_repr_("Query with %d nodes.").render_html()
-- 
2.43.0


From 29cfe67ae92609582fdf32baded304439faa4287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:02 +0000
Subject: [PATCH 15/93] fix: trim only removed whitespace from one side

---
 py/docria/model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 8cd1d86..c49dbe6 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -687,9 +687,10 @@ class TextSpan:
                     break
 
                 new_start += 1
-        elif str.isspace(self.text.text[self.stop - 1]):
+
+        if str.isspace(self.text.text[self.stop - 1]):
             # move backward
-            for i in range(len(self) - 1, -1, -1):
+            while new_stop > new_start:
                 if not str.isspace(self.text.text[new_stop - 1]):
                     break
 
@@ -716,6 +717,7 @@ class TextSpan:
         offs = self._trim_offsets()
         if offs is not None:
             self._start, self._stop = offs
+            self.start_offset, self.stop_offset = offs
 
         return self
 
-- 
2.43.0


From 83b8a0318c72bdddfcdd9ea921e4a9d275396096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:02 +0000
Subject: [PATCH 16/93] fix: indexing a text span could reach outside of the
 span

---
 py/docria/model.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index c49dbe6..4510859 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -619,10 +619,13 @@ class TextSpan:
             start, stop, step = indx.indices(len(self))
             return self.text[start + self.start:stop + self.start]
         elif isinstance(indx, tuple) and len(indx) == 2:
-            return self.text[indx[0] + self.start:indx[1] + self.start]
+            if int(indx[0]) < 0 or int(indx[1]) > len(self):
+                raise DataValidationError("Out of bounds: [%d, %d), "
+                                          "span length: %d" % (int(indx[0]), int(indx[1]), len(self)))
+
+            return self.text[int(indx[0]) + self.start, int(indx[1]) + self.start]
         elif isinstance(indx, int):
-            start, stop, step = slice(indx, indx + 1).indices(len(self))
-            return self.text.text[start + self.start]
+            return str(self)[indx]
         else:
             raise ValueError("Unsupported input indx: %s" % repr(indx))
 
-- 
2.43.0


From 793a085e1332b4e3d5d722b14e20f21724b77b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:37 +0000
Subject: [PATCH 17/93] fix: equal text spans of different texts had different
 hash values

---
 py/docria/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 4510859..1fdc37f 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -603,7 +603,7 @@ class TextSpan:
         return self._stop - self._start
 
     def __hash__(self):
-        return hash((id(self.text), self._start, self._stop))
+        return hash((self._start, self._stop))
 
     def __eq__(self, textrange: Union["TextSpan", str]):
         if isinstance(textrange, TextSpan):
-- 
2.43.0


From 59003bceec0da01831d8b56defa5075f23d57a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:37 +0000
Subject: [PATCH 18/93] fix: add_field with a type constructor, and with an
 existing name

---
 py/docria/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 1fdc37f..82618dd 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1345,8 +1345,9 @@ class NodeLayerCollection(NodeCollection):
         :raises SchemaValidationError if the field conflicts with existing field
         """
         if name in self._schema.fields:
-            raise SchemaValidationError("Cannot add field %s, it already exists!" % name)
+            raise SchemaValidationError("Cannot add field %s, it already exists!" % name, {name})
 
+        dtype = dtype() if callable(dtype) else dtype
         self._schema.add(name, dtype)
         self._update_default_values()
 
-- 
2.43.0


From c102b36fea84589f0acca1cddda54dd17ff9f772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:37 +0000
Subject: [PATCH 19/93] fix: validation of dangling nodes and of wrongly typed
 references raised AttributeError

---
 py/docria/model.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 82618dd..3feb749 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -128,6 +128,12 @@ class Node(dict):
 
         :return: true if valid
         """
+        if self.collection is None:
+            if noexcept:
+                return False
+
+            raise DataValidationError("Node is not attached to any layer: %s" % repr(self))
+
         if noexcept:
             try:
                 return self.collection.validate(self)
@@ -179,7 +185,8 @@ class Node(dict):
     def _table_repr_(self):
         from docria.printout import Table, get_representation
         tbl = Table(hide_index=True,
-                    caption="Node %s#%d" % (self.collection.schema.name, self._id) if len(self) > 0 else "")
+                    caption="Node %s#%d" % (self.collection.schema.name, self._id)
+                    if len(self) > 0 and self.collection is not None else "")
 
         tbl.set_header("field", "value")
 
@@ -193,6 +200,9 @@ class Node(dict):
         return tbl.render_html()
 
     def __repr__(self):
+        if self.collection is None:
+            return "Node<dangling>"
+
         return "Node<%s#%d>" % (self.collection.schema.name, self._id) if len(self) > 0 else ""
 
 
@@ -1070,7 +1080,8 @@ class DataTypeNoderefList(DataType):
     def is_valid(self, value) -> bool:
         target_layer = self.options["layer"]
         return (isinstance(value, list) or isinstance(value, NodeCollection)) and \
-               all(map(lambda n: n.collection is not None and n.collection.name == target_layer, value))
+               all(map(lambda n: isinstance(n, Node) and n.collection is not None and
+                                 n.collection.name == target_layer, value))
 
 
 _DataType2Class = {
@@ -1400,6 +1411,8 @@ class NodeLayerCollection(NodeCollection):
                 fieldvalue = node[field]
                 if not node.collection.fieldtypes[field].is_valid(fieldvalue):
                     if fieldtype.typename == DataTypeEnum.NODEREF_SPAN:
+                        assert isinstance(fieldvalue, NodeSpan), \
+                            "Not a node span: field '%s' in layer '%s' for node %s" % (field, self.name, repr(node))
                         assert fieldvalue.left is not None, \
                             "Left node is None: " \
                             "field '%s' in layer '%s' for node %s" % (field, self.name, repr(node))
@@ -1425,6 +1438,8 @@ class NodeLayerCollection(NodeCollection):
                             "field '%s' in layer '%s' for node %s" % \
                             (fieldvalue.left.i, fieldvalue.right.i, field, self.name, repr(node))
                     elif fieldtype.typename == DataTypeEnum.NODEREF:
+                        assert isinstance(fieldvalue, Node), \
+                            "Not a node: field '%s' in layer '%s' for node %s" % (field, self.name, repr(node))
                         assert fieldvalue.collection is not None, \
                             "Node is removed: " \
                             "field '%s' in layer '%s' for node %s" % (field, self.name, repr(node))
-- 
2.43.0


From 9ae18eca5f06f925bdd314ec334af46d98c96d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:37 +0000
Subject: [PATCH 20/93] fix: dfs_leaves returned nodes with children if all of
 them were already visited

---
 py/docria/algorithm.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/py/docria/algorithm.py b/py/docria/algorithm.py
index a9e1a36..470c27f 100644
--- a/py/docria/algorithm.py
+++ b/py/docria/algorithm.py
@@ -183,12 +183,15 @@ def dfs_leaves(start: Node,
 
         visited.add(current)
 
-        child_nodes = [ch for ch in children(current) if ch not in visited]
+        child_nodes = list(children(current))
+        is_leaf = not child_nodes
+
+        child_nodes = [ch for ch in child_nodes if ch not in visited]
         child_nodes.reverse()
 
-        if not child_nodes and is_result and is_result(current):
+        if is_leaf and is_result and is_result(current):
             yield current
-        elif not child_nodes and not is_result:
+        elif is_leaf and not is_result:
             yield current
 
         stack.extend(child_nodes)
-- 
2.43.0


From 722b410c056afefe218281996c01e31d4fad53d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:17 +0000
Subject: [PATCH 21/93] fix: XML export lost characters outside of the BMP, was
 malformed for control characters, failed on binary fields and verbose spans

---
 py/docria/codec.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 5058601..95070cc 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -917,7 +917,7 @@ class MsgpackCodec:
 
 class XmlCodec:
     """XML Codec, only encoding support"""
-    _string_pattern = re.compile(r"[^\u0009\u000A\u000D\u0020-\uD7FF\uE000-\uFFFD\u10000-\u10FFFF]", re.UNICODE)
+    _string_pattern = re.compile(r"[^\u0009\u000A\u000D\u0020-\uD7FF\uE000-\uFFFD\U00010000-\U0010FFFF]", re.UNICODE)
 
     @staticmethod
     def _string_encoder(s, repl=" "):
@@ -932,7 +932,7 @@ class XmlCodec:
         DataTypeEnum.F64: lambda v: str(float(v)),
         DataTypeEnum.BOOL: lambda v: str(bool(v)),
         DataTypeEnum.STRING: lambda v: XmlCodec._string_encoder(v),
-        DataTypeEnum.BINARY: lambda v: standard_b64encode(bytes(v)),
+        DataTypeEnum.BINARY: lambda v: standard_b64encode(bytes(v)).decode("ascii"),
         DataTypeEnum.NODEREF: lambda v: str(v._id),
         DataTypeEnum.NODEREF_MANY: lambda v: [str(n._id) for n in v],
         DataTypeEnum.NODEREF_SPAN: lambda v: v
@@ -943,11 +943,15 @@ class XmlCodec:
         extv = value
         if extv is not None:
             if isinstance(extv, bytes):
-                return extv
+                extv = extv
             elif isinstance(extv, ExtData):
-                return extv.encode()
+                extv = extv.encode()
+            elif isinstance(extv, Document):
+                extv = MsgpackCodec.encode(extv)
             else:
                 raise ValueError("Incorrect value.")
+
+            return standard_b64encode(extv).decode("ascii")
         else:
             return None
 
@@ -974,7 +978,7 @@ class XmlCodec:
         schema = {}
 
         for txt in doc.texts.values():
-            texts[txt.name] = txt.compile(offset_mapping[txt.name][1])
+            texts[txt.name] = list(map(XmlCodec._string_encoder, txt.compile(offset_mapping[txt.name][1])))
 
         node_getter = Node.get
 
@@ -1051,7 +1055,7 @@ class XmlCodec:
 
         prop_node = ET.SubElement(document_node, "props")
         for k, v in doc.props.items():
-            ET.SubElement(prop_node, "prop", {"key": k, "value": str(v)})
+            ET.SubElement(prop_node, "prop", {"key": XmlCodec._string_encoder(k), "value": XmlCodec._string_encoder(str(v))})
 
         schema_node = ET.SubElement(document_node, "schema")
         for layer, schemadef in schema.items():
@@ -1060,7 +1064,7 @@ class XmlCodec:
                 if isinstance(fielddef, dict):
                     field_node = ET.SubElement(layer_schema_node, "field", {"name": field, "type": fielddef["type"]})
                     for argk, argv in fielddef["args"].items():
-                        ET.SubElement(field_node, "arg", {"key": argk, "value": str(argv)})
+                        ET.SubElement(field_node, "arg", {"key": argk, "value": XmlCodec._string_encoder(str(argv))})
                 else:
                     ET.SubElement(layer_schema_node, "field", {"name": field, "type": fielddef})
 
@@ -1101,7 +1105,7 @@ class XmlCodec:
                                           })
                         )
                         if verbose_node_spans:
-                            text_entries[fk] = XmlCodec._string_encoder(fv)
+                            text_entries[fk] = XmlCodec._string_encoder(str(span))
                     elif isinstance(fv, NodeSpan):
                         embedded_entries.append(
                             ET.Element("d",
-- 
2.43.0


From 03677675c81a193cd54c6df57c3fdcdec73b85f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:17 +0000
Subject: [PATCH 22/93] fix: multi-file index opened files relative to the
 working directory, not to basepath

---
 py/docria/collection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py/docria/collection.py b/py/docria/collection.py
index e784659..15ccdf6 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -705,7 +705,7 @@ class DocumentFileIndex:
 
         return DocumentFileIndex(source_filepath, property2docis, docs)
 
-    def search(self, conds, lazy=False):
+    def search(self, conds, lazy=False, basepath=""):
         if len(conds) == 0:
             return
 
@@ -720,7 +720,7 @@ class DocumentFileIndex:
         from docria.codec import MsgpackCodec
 
         if len(results) > 0:
-            reader = MsgpackDocumentIO.read(self.filepath)
+            reader = MsgpackDocumentIO.read(os.path.join(basepath, self.filepath))
             lastblk = None
 
             # Optimized reading if multiple hits exist within a block sequentially
@@ -756,7 +756,7 @@ class DocumentIndex:
 
     def search(self, conds, lazy=False):
         for indx in self.index.values():
-            for doc in indx.search(conds, lazy=lazy):
+            for doc in indx.search(conds, lazy=lazy, basepath=self.basepath):
                 yield doc
 
     def save(self, path):
-- 
2.43.0


From c78ae789e5842e5e6feb4f823605a7b41c1252d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:43 +0000
Subject: [PATCH 23/93] fix: flush left written blocks in the buffer of the
 underlying file

---
 py/docria/collection.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py/docria/collection.py b/py/docria/collection.py
index 15ccdf6..d48455a 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -181,6 +181,9 @@ class _BoundaryWriter(RawIOBase):
                 self._write_boundary()
                 maxwrite = min(((self.seg + 1) << self.boundary) - self.written, left)
 
+    def flush(self):
+        self.outputio.flush()
+
     def close(self):
         self.outputio.close()
 
@@ -522,6 +525,7 @@ class MsgpackDocumentWriter:
 
             self.currentblock = BytesIO()
             self.current_block_count = 0
+            self.outputio.flush()
 
     def close(self):
         """Flush data and close the underlying storage"""
-- 
2.43.0


From 5401fe0aab3f04d7f1c6807f430d32d298c0576f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:03 +0000
Subject: [PATCH 24/93] fix: boundary reader returned wrong data, or failed,
 for reads near boundaries

---
 py/docria/collection.py | 66 +++++++++++++++++------------------------
 1 file changed, 27 insertions(+), 39 deletions(-)

diff --git a/py/docria/collection.py b/py/docria/collection.py
index d48455a..c100ff5 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -49,6 +49,7 @@ class _BoundaryReader(RawIOBase):
             raise IOError("Incorrect boundary value: %d" % self.boundary)
 
         self.offset = 0
+        self.position = 1
 
     def close(self):
         return self.inputio.close()
@@ -72,51 +73,38 @@ class _BoundaryReader(RawIOBase):
         abs_start_position = self._to_absolute(offset)
         pos = self.inputio.seek(abs_start_position, SEEK_SET)
         assert pos == abs_start_position
+        self.position = pos
         return offset
 
     def read(self, n=-1):
-        abs_start_position = ((self.offset + 1) >> self.boundary)*4+(self.offset + 1)
-        if n == -1:
-            alldata = self.inputio.read(n)
-            abs_stop_position = abs_start_position + len(alldata)
-        else:
-            abs_stop_position = ((self.offset + n + 1) >> self.boundary)*4+(self.offset + n + 1)
-            alldata = self.inputio.read(abs_stop_position-abs_start_position)
-            abs_stop_position = abs_start_position + len(alldata)
-
-        if len(alldata) == 0:
-            return alldata
-
-        if (abs_start_position >> self.boundary) << self.boundary == abs_start_position:
-            abs_start_position += 4
-
-        num_boundaries = (abs_stop_position >> self.boundary) - (abs_start_position >> self.boundary)
-        real_length = abs_stop_position-abs_start_position-num_boundaries*4
-
-        if (abs_stop_position >> self.boundary) << self.boundary == abs_stop_position:
-            real_length -= 4
-
-        output = bytearray(real_length)
-
-        output_position = 0
-        rel_position = 0
-        current_position = abs_start_position
-
-        while current_position < abs_stop_position:
-            max_read = min(((current_position >> self.boundary) + 1) << self.boundary, abs_stop_position)-current_position
-
-            output[output_position:output_position+max_read] = alldata[rel_position:rel_position+max_read]
-            rel_position += 4 + max_read
-            current_position += max_read + 4
-            output_position += max_read
-
-        assert output_position == real_length
-        self.offset += real_length
-
+        if n is None or n < 0:
+            output = bytearray()
+            while True:
+                data = self.read(1 << self.boundary)
+                if len(data) == 0:
+                    return bytes(output)
+
+                output += data
+
+        output = bytearray()
+        while len(output) < n:
+            segment_end = ((self.position >> self.boundary) + 1) << self.boundary
+            if self.position == segment_end - (1 << self.boundary):
+                # At a boundary, skip the marker
+                self.position += len(self.inputio.read(4))
+
+            data = self.inputio.read(min(segment_end - self.position, n - len(output)))
+            if len(data) == 0:
+                break
+
+            output += data
+            self.position += len(data)
+
+        self.offset += len(output)
         return bytes(output)
 
     def tell(self):
-        return self.inputio.tell()-(self.inputio.tell() >> self.boundary)*4-1
+        return self.offset
 
     def readable(self):
         return True
-- 
2.43.0


From 5b61235efa7374796de83b2c08358cc81f9fd8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:51 +0000
Subject: [PATCH 25/93] fix: print options, max_columns getter and
 max_display_width = None

---
 py/docria/printout.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/py/docria/printout.py b/py/docria/printout.py
index 9b5e048..5190d06 100644
--- a/py/docria/printout.py
+++ b/py/docria/printout.py
@@ -53,7 +53,7 @@ class PrintOptions:
     @property
     def max_columns(self):
         """Max number of columns to display"""
-        return self._max_rows
+        return self._max_columns
 
     @max_columns.setter
     def max_columns(self, max_columns):
@@ -113,7 +113,10 @@ def truncate(text):
     if options.max_column_width is None:
         return text
     else:
-        min_sz = min(options._max_display_width-5, options.max_column_width-5)
+        min_sz = options.max_column_width-5
+        if options.max_display_width is not None:
+            min_sz = min(options.max_display_width-5, min_sz)
+
         if len(text) > min_sz:
             part = min_sz >> 1
             return "%s ... %s" % (text[0:part], text[-part:])
-- 
2.43.0


From 351e5be4cc4572cdbf6ece5c7b047a95ffe3fdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:51 +0000
Subject: [PATCH 26/93] fix: tables were wrapped one column too late

---
 py/docria/printout.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/py/docria/printout.py b/py/docria/printout.py
index 5190d06..626baef 100644
--- a/py/docria/printout.py
+++ b/py/docria/printout.py
@@ -278,12 +278,13 @@ class Table:
                 column_width += actual_widths[0] + self.style.padding*2
 
             for i in range(column_pos, len(headers)):
-                column_width += actual_widths[i] + self.style.padding*2
-                column_end = i+1
-
-                if options.max_display_width is not None and column_width > options.max_display_width:
+                next_width = column_width + actual_widths[i] + self.style.padding*2
+                if options.max_display_width is not None and i > column_pos and next_width > options.max_display_width:
                     break
 
+                column_width = next_width
+                column_end = i+1
+
             if column_pos == 1 and self.caption is not None:
                 # Print caption
                 output.append(str.format("{:^%d}" % column_width, truncate(self.caption)))
-- 
2.43.0


From a484fb6bdceb9f957444985e476d7555b7cd4d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:51 +0000
Subject: [PATCH 27/93] fix: presentation failed on dangling references, some
 wikipedia urns and percent signs in layer names, unescaped text name in HTML

---
 py/docria/model.py    | 6 +++---
 py/docria/printout.py | 6 +++++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 3feb749..b7b52ca 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -781,7 +781,7 @@ class Text:
 
     def _repr_html_(self):
         from html import escape
-        return "<h3>Text: {0}</h3><pre>{1}</pre>".format(self.name, escape(self.text))
+        return "<h3>Text: {0}</h3><pre>{1}</pre>".format(escape(self.name), escape(self.text))
 
     def compile(self, offsets: List[int]):
         """
@@ -1708,10 +1708,10 @@ class NodeLayerCollection(NodeCollection):
         return "Layer(%s, N=%d)" % (self.name, self.num)
 
     def _repr_html_(self):
-        return self._table_repr_("Layer '%s' with %%d nodes." % self.name).render_html()
+        return self._table_repr_("Layer '%s' with %%d nodes." % self.name.replace("%", "%%")).render_html()
 
     def __str__(self):
-        return self._table_repr_("Layer '%s' with %%d nodes." % self.name).render_text()
+        return self._table_repr_("Layer '%s' with %%d nodes." % self.name.replace("%", "%%")).render_text()
 
     def __len__(self):
         return self.num
diff --git a/py/docria/printout.py b/py/docria/printout.py
index 626baef..1f43f37 100644
--- a/py/docria/printout.py
+++ b/py/docria/printout.py
@@ -152,6 +152,9 @@ def urn_link_wikidata(partial):
 
 def urn_link_wikipedia(partial):
     parts = partial.split(":", 1)
+    if len(parts) == 1:
+        return "https://www.wikipedia.org/wiki/{0}".format(escape(partial))
+
     return "https://{0}.wikipedia.org/wiki/{1}".format(escape(parts[0]), escape(parts[1]))
 
 
@@ -384,7 +387,8 @@ def get_representation(value):
 
             for elem in value:
                 if isinstance(elem, Node):
-                    nodetypes.add(elem.collection.name)
+                    if elem.collection is not None:
+                        nodetypes.add(elem.collection.name)
                 else:
                     all_nodes = False
                     break
-- 
2.43.0


From e18f3a1f2c692d4766dc8ed7151ee7c31267dc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:46 +0000
Subject: [PATCH 28/93] fix: repr of node spans failed for removed nodes and
 for nodes without text

---
 py/docria/model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index b7b52ca..fe8b84d 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -458,8 +458,12 @@ class NodeSpan(NodeCollection):
         return sum(1 for _ in self)
 
     def __repr__(self):
+        if self.left.collection is None or self.right.collection is None:
+            return "NodeSpan[%s to incl. %s]" % (repr(self.left), repr(self.right))
+
         fields = self.left.collection.schema.fields
-        if "text" in fields and fields["text"].typename == DataTypeEnum.SPAN:
+        if "text" in fields and fields["text"].typename == DataTypeEnum.SPAN and \
+                isinstance(self.left.get("text"), TextSpan) and isinstance(self.right.get("text"), TextSpan):
             return "NodeSpan[%s: %d to incl. %d] = %s" % (
                 self.left.collection.name, self.left.i, self.right.i, repr(self.text())
             )
-- 
2.43.0


From 470c28ca54a42899bb84a510704f53cb1466952e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:13 +0000
Subject: [PATCH 29/93] fix: wrong document references when block reads and
 document iteration are mixed

---
 py/docria/collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/docria/collection.py b/py/docria/collection.py
index c100ff5..13e5ed1 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -389,7 +389,7 @@ class MsgpackDocumentReader:
             if doc is None:
                 self.block = None
             else:
-                return MsgpackDocument(doc, ref=(self._lastblockpos, start))
+                return MsgpackDocument(doc, ref=(self.block.position, start))
 
         while self.block is None:
             datablock = self.readblock()
@@ -402,7 +402,7 @@ class MsgpackDocumentReader:
             if doc is None:
                 self.block = None
             else:
-                return MsgpackDocument(doc, ref=(self._lastblockpos, start))
+                return MsgpackDocument(doc, ref=(self.block.position, start))
 
     def close(self):
         self.inputio.close()
-- 
2.43.0


From 1e6269a6704395634132dab59a03e739479b7853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:31 +0000
Subject: [PATCH 30/93] fix: children_of read later fields from children, and
 failed on fields set to None

---
 py/docria/algorithm.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/py/docria/algorithm.py b/py/docria/algorithm.py
index 470c27f..3847f82 100644
--- a/py/docria/algorithm.py
+++ b/py/docria/algorithm.py
@@ -45,14 +45,14 @@ def children_of(layer: NodeLayerCollection, *props):
     Note: the code will check against schema if it is an array or single node."""
     def node_iter(prop):
         def yielder(n: Node):
-            if prop in n:
+            if n.get(prop) is not None:
                 yield n[prop]
 
         return yielder
 
     def node_array_iter(prop):
         def yielder(n: Node):
-            if prop in n:
+            if n.get(prop) is not None:
                 return iter(n[prop])
             else:
                 return iter(()) # Empty iterator
@@ -61,9 +61,9 @@ def children_of(layer: NodeLayerCollection, *props):
 
     def compose(yielders):
         def yielder(n: Node):
-            for yielder in yielders:
-                for n in yielder(n):
-                    yield n
+            for field_yielder in yielders:
+                for child in field_yielder(n):
+                    yield child
 
         return yielder
 
-- 
2.43.0


From e7af7ff3bdf31dcd8dc15b37d0f3e37507c62872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:31 +0000
Subject: [PATCH 31/93] fix: group_by_span failed on spans set to None instead
 of ignoring them

---
 py/docria/algorithm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/docria/algorithm.py b/py/docria/algorithm.py
index 3847f82..fe84fcf 100644
--- a/py/docria/algorithm.py
+++ b/py/docria/algorithm.py
@@ -323,7 +323,7 @@ def group_by_span(group_nodes: List[Node],
 
     # 1. Convert all nodes to Start, Stop symbols with added context information
     for group_node in group_nodes:
-        if group_span_field in group_node:
+        if group_node.get(group_span_field) is not None:
             span = group_node[group_span_field]  # type: TextSpan
 
             if span.start == span.stop:
@@ -341,7 +341,7 @@ def group_by_span(group_nodes: List[Node],
             raise KeyError("Could not find span property name for layer: %s" % layer_name) from e
 
         for layer_node in layer:
-            if span_name in layer_node:
+            if layer_node.get(span_name) is not None:
                 span = layer_node[span_name]  # type: TextSpan
 
                 if span.start == span.stop:
-- 
2.43.0


From 361b9c27c8355f2995f366614cbd56175e1fc84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:28 +0000
Subject: [PATCH 32/93] fix: a span field set to None is an empty cell, not the
 text 'None', in a materialized data frame

---
 py/docria/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index fe8b84d..e408e85 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1783,7 +1783,7 @@ class NodeLayerCollection(NodeCollection):
             data = {}
             for field, fieldtype in fields:
                 if fieldtype.typename == DataTypeEnum.SPAN:
-                    data[field] = [(str(n[field]) if field in n else None) for n in filter(None.__ne__, self._nodes)]
+                    data[field] = [(str(n[field]) if n.get(field) is not None else None) for n in filter(None.__ne__, self._nodes)]
                 else:
                     data[field] = [n.get(field) for n in filter(None.__ne__, self._nodes)]
         else:
-- 
2.43.0


From 5c4e5a4cac3578f9cc7fe08536c3e4b71c8838d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:35 +0000
Subject: [PATCH 33/93] fix: writing to a closed collection writer is refused
 instead of losing the document

---
 py/docria/collection.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/py/docria/collection.py b/py/docria/collection.py
index 13e5ed1..ad1a3c8 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -468,6 +468,7 @@ class MsgpackDocumentWriter:
         self.codec_name = codec.name
         self.codec = codec.compress  # type: Callable[[bytes], bytes]
         self.num_docs_per_block = num_docs_per_block
+        self._closed = False
 
     def __enter__(self):
         return self
@@ -484,6 +485,9 @@ class MsgpackDocumentWriter:
         """
         from docria.codec import MsgpackCodec
 
+        if self._closed:
+            raise ValueError("Writer is closed")
+
         if isinstance(doc, Document):
             data = MsgpackCodec.encode(doc, **kwargs)
         elif isinstance(doc, MsgpackDocument):
@@ -518,6 +522,7 @@ class MsgpackDocumentWriter:
     def close(self):
         """Flush data and close the underlying storage"""
         self.flush()
+        self._closed = True
         self.outputio.close()
 
 
-- 
2.43.0


From 88804e895b0d20426ddfe990537c561cc84866cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:18 +0000
Subject: [PATCH 34/93] fix: refused opens, index builds and index searches
 close the file they opened

---
 py/docria/collection.py | 77 +++++++++++++++++++++++------------------
 1 file changed, 44 insertions(+), 33 deletions(-)

diff --git a/py/docria/collection.py b/py/docria/collection.py
index ad1a3c8..7a1c5b4 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -301,7 +301,15 @@ class MsgpackDocumentReader:
         """
         if isinstance(inputio, str):
             inputio = open(inputio, mode="rb")
+            try:
+                self._open(inputio)
+            except BaseException:
+                inputio.close()
+                raise
+        else:
+            self._open(inputio)
 
+    def _open(self, inputio):
         self.inputio = inputio
         self.dataread = 4
         header = self.inputio.read(4)
@@ -637,7 +645,7 @@ class DocumentIO:
 
     @staticmethod
     def read(filepath, **kwargs)->DocumentReader:
-        return DocumentIO.readfile(open(filepath, "rb"), **kwargs)
+        return DocumentReader(MsgpackDocumentIO.read(filepath))
 
     @staticmethod
     def readfile(filelike: RawIOBase, **kwargs)->DocumentReader:
@@ -656,7 +664,12 @@ class MsgpackDocumentIO:
         :param kwargs: arguments for reading
         :return: reader for collection
         """
-        return MsgpackDocumentIO.readfile(open(filepath, "rb"))
+        fin = open(filepath, "rb")
+        try:
+            return MsgpackDocumentIO.readfile(fin)
+        except BaseException:
+            fin.close()
+            raise
 
     @staticmethod
     def readfile(filelike, **kwargs)->MsgpackDocumentReader:
@@ -687,18 +700,16 @@ class DocumentFileIndex:
 
     @staticmethod
     def build(source_filepath, *properties, **kwargs):
-        reader = MsgpackDocumentIO.read(source_filepath, **kwargs)
         property2docis = {prop: {} for prop in properties}
         docs = []
 
-        for docid, doc in enumerate(doc for block in reader.blocks() for doc in block):
-            docs.append(doc.ref)
-            props = doc.properties()
-            for prop in properties:
-                if prop in props:
-                    property2docis[prop].setdefault(props[prop], []).append(docid)
-
-        reader.close()
+        with MsgpackDocumentIO.read(source_filepath, **kwargs) as reader:
+            for docid, doc in enumerate(doc for block in reader.blocks() for doc in block):
+                docs.append(doc.ref)
+                props = doc.properties()
+                for prop in properties:
+                    if prop in props:
+                        property2docis[prop].setdefault(props[prop], []).append(docid)
 
         return DocumentFileIndex(source_filepath, property2docis, docs)
 
@@ -717,28 +728,28 @@ class DocumentFileIndex:
         from docria.codec import MsgpackCodec
 
         if len(results) > 0:
-            reader = MsgpackDocumentIO.read(os.path.join(basepath, self.filepath))
-            lastblk = None
-
-            # Optimized reading if multiple hits exist within a block sequentially
-            for docid in sorted(results):
-                ref = self.docrefs[docid]
-                try:
-                    if lastblk is None:
-                        reader.seek(ref[0])
-                        lastblk = reader.readblock()
-                    elif lastblk.position != ref[0]:
-                        reader.seek(ref[0])
-                        lastblk = reader.readblock()
-
-                    lastblk.seek(ref[1])
-                    if lazy:
-                        yield next(lastblk)
-                    else:
-                        yield MsgpackCodec.decode(next(lastblk._unpacker))
-                except Exception as e:
-                    raise IOError("Failed to read document in %s "
-                                  "for ref %d, %d" % (self.filepath, ref[0], ref[1])) from e
+            with MsgpackDocumentIO.read(os.path.join(basepath, self.filepath)) as reader:
+                lastblk = None
+
+                # Optimized reading if multiple hits exist within a block sequentially
+                for docid in sorted(results):
+                    ref = self.docrefs[docid]
+                    try:
+                        if lastblk is None:
+                            reader.seek(ref[0])
+                            lastblk = reader.readblock()
+                        elif lastblk.position != ref[0]:
+                            reader.seek(ref[0])
+                            lastblk = reader.readblock()
+
+                        lastblk.seek(ref[1])
+                        if lazy:
+                            yield next(lastblk)
+                        else:
+                            yield MsgpackCodec.decode(next(lastblk._unpacker))
+                    except Exception as e:
+                        raise IOError("Failed to read document in %s "
+                                      "for ref %d, %d" % (self.filepath, ref[0], ref[1])) from e
 
 
 class DocumentIndex:
-- 
2.43.0


From 6d0bd1582c2e38a7f630485b3e1ea42715ab7d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:35 +0000
Subject: [PATCH 35/93] fix: layers made from one declaration changed each
 other's fields

---
 py/docria/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index e408e85..b459b22 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1874,7 +1874,9 @@ class Document:
         :return: NodeLayerCollection instance with the specified schema
         """
         if isinstance(__name, NodeLayerSchema):
-            typedef = __name
+            # The layer gets a declaration of its own, the given one might be used for other documents
+            typedef = NodeLayerSchema(__name.name)
+            typedef.fields.update(__name.fields)
         else:
             typedef = NodeLayerSchema(__name)
             typedef.set(**kwargs)
-- 
2.43.0


From e2740ef6e8db6ab871548c1db891b1e8be4f1fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:33 +0000
Subject: [PATCH 36/93] fix: references into replaced layers, texts and other
 documents were serialized as wrong or unreadable references

---
 py/docria/model.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/py/docria/model.py b/py/docria/model.py
index b459b22..d6d06c6 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1991,6 +1991,29 @@ class Document:
     def __contains__(self, item):
         return item in self._layers
 
+    def _validate_references(self, layer: NodeLayerCollection):
+        """Validate that nodes and spans referred to are part of this document, and not of e.g. a replaced layer"""
+        for field, fieldtype in layer.schema.fields.items():
+            if fieldtype.typename == DataTypeEnum.SPAN:
+                text = self.texts[fieldtype.options["context"]]
+                valid = all(n[field].text is text or n[field].text.text == text.text for n in layer if field in n)
+            elif fieldtype.typename == DataTypeEnum.NODEREF:
+                target = self.layers[fieldtype.options["layer"]]
+                valid = all(n[field].collection is target for n in layer if field in n)
+            elif fieldtype.typename == DataTypeEnum.NODEREF_MANY:
+                target = self.layers[fieldtype.options["layer"]]
+                valid = all(ref.collection is target for n in layer if field in n for ref in n[field])
+            elif fieldtype.typename == DataTypeEnum.NODEREF_SPAN:
+                target = self.layers[fieldtype.options["layer"]]
+                valid = all(n[field].left.collection is target and n[field].right.collection is target
+                            for n in layer if field in n)
+            else:
+                continue
+
+            if not valid:
+                raise SchemaValidationError("Field %s in layer %s refers to a layer or text which is not "
+                                            "part of this document." % (field, layer.name), {field})
+
     def compile(self, extra_fields_ok=False, type_validation=True, **kwargs) -> \
             Dict[str, Tuple[Dict[int, int], List[int]]]:
         """Compile the document, validates and assigns compacted ids to nodes (internal use)
@@ -2050,6 +2073,9 @@ class Document:
                                 k, ", ".join(set(n.keys()).difference(fieldkeys))), set(n.keys())
                         )
 
+            if type_validation:
+                self._validate_references(v)
+
             # Collect span offsets
             for field, fieldtype in fieldtypes.items():
                 if fieldtype.typename == DataTypeEnum.SPAN:
-- 
2.43.0


From 42dc7af810bade6721b4ee5ede5005bc19fe0bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:48 +0000
Subject: [PATCH 37/93] fix: different nodes of the same content were neither
 equal nor unequal

---
 py/docria/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/docria/model.py b/py/docria/model.py
index d6d06c6..21e7af9 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -153,6 +153,9 @@ class Node(dict):
     def __eq__(self, other):
         return self is other
 
+    def __ne__(self, other):
+        return self is not other
+
     def __str__(self):
         tbl = self._table_repr_()
         return tbl.render_text()
-- 
2.43.0


From c7bf9b55d76cee9d02511d1c9c4f1ce4fe1367f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:44 +0000
Subject: [PATCH 38/93] fix: null and extension properties could not be decoded
 in Java

---
 java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java b/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
index d2af9ed..4adbc39 100644
--- a/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
+++ b/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
@@ -471,6 +471,10 @@ public class MsgpackCodec {
                     else
                         throw new UnsupportedOperationException(
                                 "Unsupported extension type: " + value.asExtensionValue().getType() + " for property key: " + key);
+                    break;
+                case NIL:
+                    props.put(key, NullValue.INSTANCE);
+                    break;
                 default:
                     throw new UnsupportedOperationException(
                             "Unsupported property type: " + value.getValueType().toString());
-- 
2.43.0


From f542c10bb060dbc05c0e4371abaad23235b0b507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:44 +0000
Subject: [PATCH 39/93] fix: binary fields could not be decoded in Java

---
 java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java b/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
index 4adbc39..3e85637 100644
--- a/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
+++ b/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
@@ -712,7 +712,7 @@ public class MsgpackCodec {
                 case BINARY:
                     for (int k = 0; k < numNodes; k++) {
                         if(!unpacker.tryUnpackNil()) {
-                            int numBytes = unpacker.unpackArrayHeader();
+                            int numBytes = unpacker.unpackBinaryHeader();
                             nodes.get(k).put(field, unpacker.readPayload(numBytes));
                         }
                     }
-- 
2.43.0


From 2dc3e27ed95c462d09302e4fb9c3abb3d103ac69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:11 +0000
Subject: [PATCH 40/93] fix: nodes added to a Java layer after a removal
 replaced other nodes

The id was the size of the storage while the node was stored at the index of
the number of nodes: with a gap in between, another node was overwritten.
---
 .../src/main/java/se/lth/cs/docria/Layer.java | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/Layer.java b/java/core/src/main/java/se/lth/cs/docria/Layer.java
index 1d8791e..77cbb0c 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Layer.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Layer.java
@@ -171,16 +171,8 @@ public class Layer extends AbstractCollection<Node> {
 
         node.id = storage.size();
         node.layer = this;
-        if(this.size < storage.size()) {
-            storage.set(this.size, node);
-            this.size++;
-            return true;
-        }
-        else
-        {
-            this.size++;
-            return storage.add(node);
-        }
+        this.size++;
+        return storage.add(node);
     }
 
     @Override
@@ -334,13 +326,8 @@ public class Layer extends AbstractCollection<Node> {
             }
         }
 
-        for(int k = size; k < storage.size(); k++) {
-            storage.set(k, null);
-        }
-
         // Shrink to size
-        if(this.size < 0.75 * storage.size() && storage.size() > 16)
-            storage = new ArrayList<>(storage.subList(0, this.size));
+        storage.subList(this.size, storage.size()).clear();
     }
 
     @Override
-- 
2.43.0


From e023c6be529adc439f6950e7e728bbba951ca0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:14 +0000
Subject: [PATCH 41/93] fix: retainAll of a Java layer kept or dropped the
 wrong nodes

The mark was the negated id: the first node could not be marked, a node given
twice was unmarked, and a rejected collection left marks behind. Dropped nodes
stayed attached, and an empty collection retained everything.
---
 .../src/main/java/se/lth/cs/docria/Layer.java | 30 ++++++++-----------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/Layer.java b/java/core/src/main/java/se/lth/cs/docria/Layer.java
index 77cbb0c..1af44da 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Layer.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Layer.java
@@ -253,7 +253,7 @@ public class Layer extends AbstractCollection<Node> {
     public boolean retainAll(Collection<?> c) {
         Objects.requireNonNull(c);
 
-        boolean edited = false;
+        Set<Node> retained = Collections.newSetFromMap(new IdentityHashMap<>());
         for (Object o : c) {
             if(!(o instanceof Node))
                 throw new IllegalArgumentException("Collection must only contain nodes!");
@@ -262,27 +262,23 @@ public class Layer extends AbstractCollection<Node> {
             if(n.layer != this)
                 throw new IllegalArgumentException(String.format("Collection must only contain nodes bound to this layer: %s", name()));
 
-            n.id = -n.id;
-            edited = true;
+            retained.add(n);
         }
 
-        if(edited) {
-            for (int i = 0; i < this.storage.size(); i++) {
-                Node node = this.storage.get(i);
-                if (node != null) {
-                    if (node.id >= 0) {
-                        this.storage.set(i, null);
-                        this.size--;
-                    } else {
-                        node.id = -node.id;
-                    }
-                }
+        boolean edited = false;
+        for (int i = 0; i < this.storage.size(); i++) {
+            Node node = this.storage.get(i);
+            if (node != null && !retained.contains(node)) {
+                node.layer = null;
+                this.storage.set(i, null);
+                this.size--;
+                edited = true;
             }
-
-            if (this.size < 0.75 * storage.size() && storage.size() > 16)
-                compact();
         }
 
+        if (edited && this.size < 0.75 * storage.size() && storage.size() > 16)
+            compact();
+
         return edited;
     }
 
-- 
2.43.0


From efae6ec015e8e9acc302a6d5d87603dcc5f6cc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 42/93] fix: a Java layer with removed nodes could not be
 cleared

---
 java/core/src/main/java/se/lth/cs/docria/Layer.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/Layer.java b/java/core/src/main/java/se/lth/cs/docria/Layer.java
index 1af44da..c5fbd10 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Layer.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Layer.java
@@ -153,7 +153,7 @@ public class Layer extends AbstractCollection<Node> {
 
     @Override
     public void clear() {
-        for (Node node : storage) {
+        for (Node node : this) {
             node.layer = null;
             node.id = -1;
         }
-- 
2.43.0


From f9e81f0c574eab73d89854570ac105976dbee49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:19 +0000
Subject: [PATCH 43/93] fix: sorting a Java layer left the nodes with the ids
 they had before

Layer.get, references and node spans then went to other nodes.
---
 java/core/src/main/java/se/lth/cs/docria/Layer.java | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/Layer.java b/java/core/src/main/java/se/lth/cs/docria/Layer.java
index c5fbd10..aa6819c 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Layer.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Layer.java
@@ -142,7 +142,10 @@ public class Layer extends AbstractCollection<Node> {
      */
     public Layer sort(Comparator<Node> comparator) {
         compact();
-        storage.subList(0, size).sort(comparator);
+        ArrayList<Node> sorted = new ArrayList<>(storage);
+        sorted.sort(comparator);
+        storage = sorted;
+        compact();
         return this;
     }
 
-- 
2.43.0


From d09ef288d50caef19bbfafdd4a8ff6a5fe213a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:21 +0000
Subject: [PATCH 44/93] fix: Document.remove(Text) in Java did not remove the
 text

---
 java/core/src/main/java/se/lth/cs/docria/Document.java | 1 +
 1 file changed, 1 insertion(+)

diff --git a/java/core/src/main/java/se/lth/cs/docria/Document.java b/java/core/src/main/java/se/lth/cs/docria/Document.java
index 3a45791..b1a6fba 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Document.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Document.java
@@ -159,6 +159,7 @@ public class Document {
             }
         }
 
+        texts.remove(text.name());
         return this;
     }
 
-- 
2.43.0


From 94c40dffbc648b46d4cb9aae52d2448f3c17e21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:24 +0000
Subject: [PATCH 45/93] fix: Document.remove(Layer) in Java neither removed the
 layer nor saw what refers to it

It looked for spans over a text of the same name instead of references to the
layer. References from the layer to itself go with it, as in Python.
---
 .../main/java/se/lth/cs/docria/Document.java  | 28 ++++++++++---------
 .../main/java/se/lth/cs/docria/Schema.java    |  4 +++
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/Document.java b/java/core/src/main/java/se/lth/cs/docria/Document.java
index b1a6fba..dc6a79a 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Document.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Document.java
@@ -183,15 +183,16 @@ public class Document {
         if(layer == null)
             return this;
 
-        //1. Verify no layer contains fields referencing this text.
+        //1. Verify no other layer contains fields referencing this layer.
         List<Layer> layersWithReferentFields =
                 layers.values()
                       .stream()
-                      .filter(l -> l.schema()
+                      .filter(l -> !l.name().equals(layer.name())
+                                && l.schema()
                                     .fields()
                                     .values()
                                     .stream()
-                                    .anyMatch(dt -> dt.name() == DataTypeName.SPAN && dt.args().get("context").stringValue().equals(layer.name()))
+                                    .anyMatch(dt -> refersTo(dt, layer))
                       ).collect(Collectors.toList());
 
         if(!fieldcascade && !layersWithReferentFields.isEmpty()) {
@@ -202,11 +203,7 @@ public class Document {
                                                                 .fields()
                                                                 .entrySet()
                                                                 .stream()
-                                                                .filter(e -> (e.getValue().name() == DataTypeName.NODE
-                                                                        || e.getValue().name() == DataTypeName.NODE_ARRAY)
-                                                                        && e.getValue().args()
-                                                                            .get("layer").stringValue()
-                                                                            .equals(layer.name()))
+                                                                .filter(e -> refersTo(e.getValue(), layer))
                                                                 .map(Map.Entry::getKey)
                                                                 .collect(Collectors.joining(", "))
                                                              + ")")
@@ -223,11 +220,7 @@ public class Document {
                                                .fields()
                                                .entrySet()
                                                .stream()
-                                               .filter(e -> (e.getValue().name() == DataTypeName.NODE
-                                                       || e.getValue().name() == DataTypeName.NODE_ARRAY)
-                                                       && e.getValue().args()
-                                                           .get("layer").stringValue()
-                                                           .equals(layer.name()))
+                                               .filter(e -> refersTo(e.getValue(), layer))
                                                .map(Map.Entry::getKey)
                                                .collect(Collectors.toList());
 
@@ -235,9 +228,18 @@ public class Document {
             }
         }
 
+        layers.remove(layer.name());
+        schema.remove(layer.name());
         return this;
     }
 
+    private static boolean refersTo(DataType type, Layer layer) {
+        return (type.name() == DataTypeName.NODE
+                || type.name() == DataTypeName.NODE_ARRAY
+                || type.name() == DataTypeName.NODE_SPAN)
+                && type.args().get("layer").stringValue().equals(layer.name());
+    }
+
     /**
      * @deprecated use {@link #add(Schema.Layer)} with {@link Layer#create(String)}
      *
diff --git a/java/core/src/main/java/se/lth/cs/docria/Schema.java b/java/core/src/main/java/se/lth/cs/docria/Schema.java
index 7cc3d02..7279218 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Schema.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Schema.java
@@ -119,6 +119,10 @@ public class Schema {
         layerSchema.put(layer.name(), layer);
     }
 
+    public void remove(String layer) {
+        layerSchema.remove(layer);
+    }
+
     public Stream<Schema.Layer> layers() {
         return layerSchema.values().stream();
     }
-- 
2.43.0


From bcbf8f4b1b132ea62c1e7d061ec7b6b305da73c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:27 +0000
Subject: [PATCH 46/93] fix: the Java validation of a schema did not see node
 spans of missing layers

---
 java/core/src/main/java/se/lth/cs/docria/Document.java | 1 +
 1 file changed, 1 insertion(+)

diff --git a/java/core/src/main/java/se/lth/cs/docria/Document.java b/java/core/src/main/java/se/lth/cs/docria/Document.java
index dc6a79a..1f374a2 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Document.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Document.java
@@ -310,6 +310,7 @@ public class Document {
                         break;
                     case NODE:
                     case NODE_ARRAY:
+                    case NODE_SPAN:
                         if(!this.layers.containsKey(field.getValue().args().get("layer").stringValue())) {
                             throw new DataInconsistencyException(
                                     String.format("Field '%s' in layer '%s' is referring " +
-- 
2.43.0


From dc760f7c97b7fc1b245a5c04cb0488ea67b64486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:30 +0000
Subject: [PATCH 47/93] fix: Java documents made of one schema changed the
 fields of each other

The layer schemas and their field maps were shared.
---
 java/core/src/main/java/se/lth/cs/docria/Document.java | 2 +-
 java/core/src/main/java/se/lth/cs/docria/Schema.java   | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/Document.java b/java/core/src/main/java/se/lth/cs/docria/Document.java
index 1f374a2..c97bc0e 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Document.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Document.java
@@ -34,7 +34,7 @@ public class Document {
 
     public Document(Schema schema) {
         this.schema = new Schema(schema);
-        schema.layers()
+        this.schema.layers()
               .forEach(layerSchema -> layers.put(layerSchema.name(), new Layer(this, layerSchema)));
     }
 
diff --git a/java/core/src/main/java/se/lth/cs/docria/Schema.java b/java/core/src/main/java/se/lth/cs/docria/Schema.java
index 7279218..15ef867 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Schema.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Schema.java
@@ -97,7 +97,7 @@ public class Schema {
         }
 
         public Schema.Layer build() {
-            return new Schema.Layer(name, fields, factory);
+            return new Schema.Layer(name, new TreeMap<>(fields), factory);
         }
     }
 
@@ -112,7 +112,8 @@ public class Schema {
     }
 
     public Schema(Schema schema) {
-        this.layerSchema = new TreeMap<>(schema.layerSchema);
+        schema.layerSchema.forEach((name, layer) ->
+            this.layerSchema.put(name, new Schema.Layer(name, new TreeMap<>(layer.fields), layer.factory)));
     }
 
     public void add(Schema.Layer layer) {
-- 
2.43.0


From fb99819752f0e76a2cb7e59f71abb00cb4d0eb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 48/93] fix: layers added as such to a Java document were
 missing in its schema

---
 java/core/src/main/java/se/lth/cs/docria/Document.java | 1 +
 1 file changed, 1 insertion(+)

diff --git a/java/core/src/main/java/se/lth/cs/docria/Document.java b/java/core/src/main/java/se/lth/cs/docria/Document.java
index c97bc0e..c2bc042 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Document.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Document.java
@@ -68,6 +68,7 @@ public class Document {
         }
 
         layers.put(layer.name(), layer);
+        schema.add(layer.schema());
         return this;
     }
 
-- 
2.43.0


From 62992cd591daf864c636e4d4565d7cec7ffc0fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:25 +0000
Subject: [PATCH 49/93] fix: Java nodes could not be compared before they were
 in a layer

equals and hashCode used the layer and the id: without a layer they failed, and
the hash changed whenever a layer gave out new ids, as encoding does.
---
 .../src/main/java/se/lth/cs/docria/Node.java    | 17 -----------------
 1 file changed, 17 deletions(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/Node.java b/java/core/src/main/java/se/lth/cs/docria/Node.java
index 83c256f..e0437ab 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Node.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Node.java
@@ -164,23 +164,6 @@ public class Node extends Value {
         return layer.schema().layerType();
     }
 
-    @Override
-    public boolean equals(Object o) {
-        if (this == o) return true;
-        if (o == null || getClass() != o.getClass()) return false;
-
-        Node node = (Node) o;
-
-        return id == node.id && layer.equals(node.layer);
-    }
-
-    @Override
-    public int hashCode() {
-        int result = id;
-        result = 31 * result + layer.hashCode();
-        return result;
-    }
-
     @Override
     public String toString() {
         StringBuilder sb = new StringBuilder();
-- 
2.43.0


From aa6df4b3c6f6c8f741fb14de19a3be5ca58bd112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 50/93] fix: single bytes before a boundary were written after
 the boundary value in Java

---
 java/core/src/main/java/se/lth/cs/docria/io/BoundaryWriter.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/io/BoundaryWriter.java b/java/core/src/main/java/se/lth/cs/docria/io/BoundaryWriter.java
index e6f2df1..e4da45e 100644
--- a/java/core/src/main/java/se/lth/cs/docria/io/BoundaryWriter.java
+++ b/java/core/src/main/java/se/lth/cs/docria/io/BoundaryWriter.java
@@ -65,7 +65,7 @@ public class BoundaryWriter extends OutputStream {
 
     @Override
     public void write(int b) throws IOException {
-        if(((written + 1) >> boundary) > seg) {
+        if((written >> boundary) > seg) {
             writeBoundary();
         }
 
-- 
2.43.0


From 3fce910542e5b978530c7977d1873e47ad63bd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:30 +0000
Subject: [PATCH 51/93] fix: reading a Java boundary stream that ends at a
 boundary did not end

---
 .../java/se/lth/cs/docria/io/BoundaryReader.java | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/io/BoundaryReader.java b/java/core/src/main/java/se/lth/cs/docria/io/BoundaryReader.java
index eddb66d..933714b 100644
--- a/java/core/src/main/java/se/lth/cs/docria/io/BoundaryReader.java
+++ b/java/core/src/main/java/se/lth/cs/docria/io/BoundaryReader.java
@@ -64,7 +64,8 @@ public class BoundaryReader extends InputStream {
     @Override
     public int read() throws IOException {
         if(this.read == (seg+1)<<boundary) {
-            skipBoundaryValue();
+            if(!skipBoundaryValue())
+                return -1;
         }
 
         int value = inputStream.read();
@@ -74,13 +75,13 @@ public class BoundaryReader extends InputStream {
         return value;
     }
 
-    private void skipBoundaryValue() throws IOException {
+    private boolean skipBoundaryValue() throws IOException {
         int read = 0;
         while(read < 4) {
             int v = inputStream.read();
 
             if(read == 0 && v == -1)
-                return;
+                return false;
             else if(v == -1)
                 throw new EOFException("Reached end before reading a full boundary value!");
 
@@ -89,6 +90,7 @@ public class BoundaryReader extends InputStream {
 
         this.read += 4;
         seg++;
+        return true;
     }
 
     @Override
@@ -97,8 +99,8 @@ public class BoundaryReader extends InputStream {
         int pos = off;
 
         while(left > 0) {
-            if(this.read == (seg+1)<<boundary) {
-                skipBoundaryValue();
+            if(this.read == (seg+1)<<boundary && !skipBoundaryValue()) {
+                return left != len ? len-left : -1;
             }
 
             int maxread = (int)Math.min(left, ((seg+1)<<boundary) - read);
@@ -120,8 +122,8 @@ public class BoundaryReader extends InputStream {
 
     @Override
     public long skip(long n) throws IOException {
-        if(this.read == (seg+1)<<boundary) {
-            skipBoundaryValue();
+        if(this.read == (seg+1)<<boundary && !skipBoundaryValue()) {
+            return 0;
         }
 
         long maxskip = Math.min(n, ((seg+1)<<boundary) - read);
-- 
2.43.0


From 25a18ce8effffa8f81629119f904399489fa76b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:33 +0000
Subject: [PATCH 52/93] fix: skipping in a Java boundary stream lost the
 position of the boundaries

---
 .../src/main/java/se/lth/cs/docria/io/BoundaryReader.java     | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/io/BoundaryReader.java b/java/core/src/main/java/se/lth/cs/docria/io/BoundaryReader.java
index 933714b..b6e3c57 100644
--- a/java/core/src/main/java/se/lth/cs/docria/io/BoundaryReader.java
+++ b/java/core/src/main/java/se/lth/cs/docria/io/BoundaryReader.java
@@ -127,7 +127,9 @@ public class BoundaryReader extends InputStream {
         }
 
         long maxskip = Math.min(n, ((seg+1)<<boundary) - read);
-        return inputStream.skip(maxskip);
+        long skipped = inputStream.skip(maxskip);
+        this.read += skipped;
+        return skipped;
     }
 
     @Override
-- 
2.43.0


From 60c5b14741f4092270103fd0504c47109b20a059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:35 +0000
Subject: [PATCH 53/93] fix: decompressing truncated data in Java did not end

---
 java/core/src/main/java/se/lth/cs/docria/io/DeflateCodec.java | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/java/core/src/main/java/se/lth/cs/docria/io/DeflateCodec.java b/java/core/src/main/java/se/lth/cs/docria/io/DeflateCodec.java
index 032604f..b0f6a33 100644
--- a/java/core/src/main/java/se/lth/cs/docria/io/DeflateCodec.java
+++ b/java/core/src/main/java/se/lth/cs/docria/io/DeflateCodec.java
@@ -78,6 +78,8 @@ public class DeflateCodec {
 
             do {
                 int written = inflater.inflate(buffer);
+                if(written == 0 && (inflater.needsInput() || inflater.needsDictionary()))
+                    throw new DataFormatException("Compressed data is incomplete");
                 outputBuffer.write(buffer, 0, written);
             } while(!inflater.finished());
 
-- 
2.43.0


From 2ec78af19fd540966c0b7cc4ed7a2ce2155aa810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 54/93] fix: an empty Java document collection was written
 without its header

---
 .../src/main/java/se/lth/cs/docria/io/DocumentStreamWriter.java  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/java/core/src/main/java/se/lth/cs/docria/io/DocumentStreamWriter.java b/java/core/src/main/java/se/lth/cs/docria/io/DocumentStreamWriter.java
index 33f471b..07083d6 100644
--- a/java/core/src/main/java/se/lth/cs/docria/io/DocumentStreamWriter.java
+++ b/java/core/src/main/java/se/lth/cs/docria/io/DocumentStreamWriter.java
@@ -74,6 +74,7 @@ public class DocumentStreamWriter {
         this.packer.packString(codec.name);
         this.packer.packInt(numDocsPerBlock);
         this.packer.packBoolean(false);
+        this.packer.flush();
 
         this.currentblock = MessagePack.newDefaultBufferPacker();
         this.currentblockCount = 0;
-- 
2.43.0


From 8e1a5812f319ffe0cb705d8822ccc82003ded565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:41 +0000
Subject: [PATCH 55/93] fix: Java collections could not be read with a codec of
 one's own

The name of the codec in the header was taken for the number of documents.
---
 .../src/main/java/se/lth/cs/docria/io/DocumentStreamReader.java | 2 +-
 .../java/se/lth/cs/docria/io/MsgpackDocumentStreamReader.java   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/io/DocumentStreamReader.java b/java/core/src/main/java/se/lth/cs/docria/io/DocumentStreamReader.java
index ccdc446..859c4f7 100644
--- a/java/core/src/main/java/se/lth/cs/docria/io/DocumentStreamReader.java
+++ b/java/core/src/main/java/se/lth/cs/docria/io/DocumentStreamReader.java
@@ -46,10 +46,10 @@ public class DocumentStreamReader {
                 throw new IOException("Incorrect header: Dmf1, found: " + new String(header, StandardCharsets.ISO_8859_1));
             }
 
+            String codec = this.unpacker.unpackString();
             if(codecfn != null) {
                 this.codec = codecfn;
             } else {
-                String codec = this.unpacker.unpackString();
                 switch (codec) {
                     case "none":
                         this.codec = x -> x;
diff --git a/java/core/src/main/java/se/lth/cs/docria/io/MsgpackDocumentStreamReader.java b/java/core/src/main/java/se/lth/cs/docria/io/MsgpackDocumentStreamReader.java
index e533283..c9436bd 100644
--- a/java/core/src/main/java/se/lth/cs/docria/io/MsgpackDocumentStreamReader.java
+++ b/java/core/src/main/java/se/lth/cs/docria/io/MsgpackDocumentStreamReader.java
@@ -56,10 +56,10 @@ public class MsgpackDocumentStreamReader {
                 throw new IOException("Incorrect header: Dmf1, found: " + new String(header, StandardCharsets.ISO_8859_1));
             }
 
+            String codec = this.unpacker.unpackString();
             if(codecfn != null) {
                 this.codec = codecfn;
             } else {
-                String codec = this.unpacker.unpackString();
                 switch (codec) {
                     case "none":
                         this.codec = x -> x;
-- 
2.43.0


From 3d359dcc3280c11b680bf20ccb84498be552baac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 56/93] fix: nextBlock of the Java readers lost and repeated
 documents in concurrent use

The block just read went through a field shared by all threads and by next().
---
 .../java/se/lth/cs/docria/io/DocumentStreamReader.java    | 8 +++-----
 .../se/lth/cs/docria/io/MsgpackDocumentStreamReader.java  | 8 +++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/io/DocumentStreamReader.java b/java/core/src/main/java/se/lth/cs/docria/io/DocumentStreamReader.java
index 859c4f7..874f142 100644
--- a/java/core/src/main/java/se/lth/cs/docria/io/DocumentStreamReader.java
+++ b/java/core/src/main/java/se/lth/cs/docria/io/DocumentStreamReader.java
@@ -92,12 +92,10 @@ public class DocumentStreamReader {
                 }
 
                 byte[] rawdata = codec.apply(compressed);
-                block = MessagePack.newDefaultUnpacker(rawdata);
-                if(block.hasNext())
-                    break;
+                MessageUnpacker nextBlock = MessagePack.newDefaultUnpacker(rawdata);
+                if(nextBlock.hasNext())
+                    return nextBlock;
             }
-
-            return block;
         } catch (IOException e) {
             throw new IOError(e);
         }
diff --git a/java/core/src/main/java/se/lth/cs/docria/io/MsgpackDocumentStreamReader.java b/java/core/src/main/java/se/lth/cs/docria/io/MsgpackDocumentStreamReader.java
index c9436bd..3598679 100644
--- a/java/core/src/main/java/se/lth/cs/docria/io/MsgpackDocumentStreamReader.java
+++ b/java/core/src/main/java/se/lth/cs/docria/io/MsgpackDocumentStreamReader.java
@@ -102,12 +102,10 @@ public class MsgpackDocumentStreamReader {
                 }
 
                 byte[] rawdata = codec.apply(compressed);
-                block = MessagePack.newDefaultUnpacker(rawdata);
-                if(block.hasNext())
-                    break;
+                MessageUnpacker nextBlock = MessagePack.newDefaultUnpacker(rawdata);
+                if(nextBlock.hasNext())
+                    return nextBlock;
             }
-
-            return block;
         } catch (IOException e) {
             throw new IOError(e);
         }
-- 
2.43.0


From 1fd2f1c7cd8467c83891027048bfeb9f3b0fca80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:25 +0000
Subject: [PATCH 57/93] fix: a Java MsgpackDocument put together from its
 compartments had no header

---
 .../src/main/java/se/lth/cs/docria/MsgpackDocument.java     | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java b/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java
index 23db10d..be48136 100644
--- a/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java
+++ b/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java
@@ -38,10 +38,12 @@ public class MsgpackDocument {
     }
 
     public MsgpackDocument(byte[] propertyCompartment, byte[] schemaCompartment, byte[] textCompartment, byte[] layerCompartment) {
-        int totalSize = propertyCompartment.length + schemaCompartment.length + textCompartment.length + layerCompartment.length;
+        byte[] header = "DM_1".getBytes();
+        int totalSize = header.length + propertyCompartment.length + schemaCompartment.length + textCompartment.length + layerCompartment.length;
         this.data = new byte[totalSize];
 
-        int pos = 0;
+        System.arraycopy(header, 0, data, 0, header.length);
+        int pos = header.length;
         System.arraycopy(propertyCompartment, 0, data, pos, propertyCompartment.length);
         pos += propertyCompartment.length;
         System.arraycopy(schemaCompartment, 0, data, pos, schemaCompartment.length);
-- 
2.43.0


From 2cbaf4d7893263932c13903e05e60b93831f63e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 58/93] fix: the layer compartment of a Java MsgpackDocument
 was that of exactly one layer

Documents without layers could not be opened, with several the rest was missing.
---
 .../src/main/java/se/lth/cs/docria/MsgpackDocument.java     | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java b/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java
index be48136..88c04f2 100644
--- a/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java
+++ b/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java
@@ -104,8 +104,10 @@ public class MsgpackDocument {
 
                 // 4. Find layer compartment
                 positions[LAYERS_START] = (int)unpacker.getTotalReadBytes();
-                int layer_sz = unpacker.unpackInt();
-                unpacker.readPayloadAsReference(layer_sz);
+                for (String type : types) {
+                    int layer_sz = unpacker.unpackInt();
+                    unpacker.readPayloadAsReference(layer_sz);
+                }
                 positions[LAYERS_END] = (int)unpacker.getTotalReadBytes();
             } catch (IOException e) {
                 throw new IOError(e);
-- 
2.43.0


From 1faf691e45547e9481f91c6cbd734166aa7c94c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 59/93] fix: the properties of a Java MsgpackDocument were read
 beyond the end of its data

---
 java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java b/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java
index 88c04f2..190beca 100644
--- a/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java
+++ b/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java
@@ -118,7 +118,7 @@ public class MsgpackDocument {
     public Map<String, Value> properties() {
         determineCompartments();
         try {
-            MessageUnpacker unpacker = MessagePack.newDefaultUnpacker(data, positions[PROPERTY_START], positions[PROPERTY_END]);
+            MessageUnpacker unpacker = MessagePack.newDefaultUnpacker(data, positions[PROPERTY_START], positions[PROPERTY_END]-positions[PROPERTY_START]);
             return MsgpackCodec.decodeProperties(unpacker);
         } catch (IOException e) {
             throw new IOError(e);
-- 
2.43.0


From 257e116f704d71cea9675bda3b8fc893e7f4d27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 60/93] fix: the schema of a Java MsgpackDocument was null
 until something else was read

---
 java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java | 1 +
 1 file changed, 1 insertion(+)

diff --git a/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java b/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java
index 190beca..a9587d2 100644
--- a/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java
+++ b/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java
@@ -146,6 +146,7 @@ public class MsgpackDocument {
     }
 
     public Schema schema() {
+        determineCompartments();
         return schema;
     }
 
-- 
2.43.0


From cdb7a7aea10b58b9cfc792da5518dc99a054b2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:35 +0000
Subject: [PATCH 61/93] fix: floating point arguments of types lost precision
 in Java

---
 java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java b/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
index 3e85637..85cf2e0 100644
--- a/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
+++ b/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
@@ -532,7 +532,7 @@ public class MsgpackCodec {
 
                                 break;
                             case FLOAT:
-                                args.put(key, Values.get(value.asFloatValue().toFloat()));
+                                args.put(key, Values.get(value.asFloatValue().toDouble()));
                                 break;
                             case BINARY:
                                 args.put(key, Values.get(value.asBinaryValue().asByteArray()));
-- 
2.43.0


From a65e978b06dadd517a29a406fb0dc9683e29e02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 62/93] fix: extension properties of any type were written as
 documents in Java

---
 java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java b/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
index 85cf2e0..06af044 100644
--- a/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
+++ b/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
@@ -126,7 +126,7 @@ public class MsgpackCodec {
                 byte[] bytes = value.binaryValue();
                 if(schemaless) {
                     MessageBufferPacker typePacker = MessagePack.newDefaultBufferPacker();
-                    typePacker.packString("doc");
+                    typePacker.packString(value.type().args().get("type").stringValue());
                     typePacker.packBinaryHeader(bytes.length);
                     typePacker.addPayload(bytes);
                     byte[] data = typePacker.toByteArray();
-- 
2.43.0


From d37118f0ae66323f2f17c92b419eb7395e1764ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:40 +0000
Subject: [PATCH 63/93] fix: integers beyond 64 bits signed were silently
 changed to other numbers in Java

---
 java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java b/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
index 06af044..f84a7ec 100644
--- a/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
+++ b/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
@@ -446,7 +446,7 @@ public class MsgpackCodec {
                     if(ivalue.isInIntRange())
                         props.put(key, Values.get(ivalue.toInt()));
                     else
-                        props.put(key, Values.get(ivalue.toLong()));
+                        props.put(key, Values.get(ivalue.asLong()));
 
                     break;
                 case FLOAT:
@@ -528,7 +528,7 @@ public class MsgpackCodec {
                                 if(ivalue.isInIntRange())
                                     args.put(key, Values.get(ivalue.toInt()));
                                 else
-                                    args.put(key, Values.get(ivalue.toLong()));
+                                    args.put(key, Values.get(ivalue.asLong()));
 
                                 break;
                             case FLOAT:
-- 
2.43.0


From 90684c885d4d236de71e215c031a0bdb2c1384d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 64/93] fix: spans attached after a Java document was encoded
 were written as other spans

Their offsets had been dropped from the text as they were not yet in use.
---
 .../src/main/java/se/lth/cs/docria/Text.java  | 26 ++++++-------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/Text.java b/java/core/src/main/java/se/lth/cs/docria/Text.java
index c98be85..f63c9b0 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Text.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Text.java
@@ -81,28 +81,18 @@ public class Text implements CharSequence {
     protected List<String> compile() {
         int id = 0;
 
-        {
-            IntArrayList removal = new IntArrayList();
-            pos2Offset.values().stream().filter(off -> off.refcount == 0).mapToInt(off -> off.offset).forEach(removal::add);
-            IntListIterator iter = removal.iterator();
-            while (iter.hasNext()) {
-                pos2Offset.remove(iter.nextInt());
-            }
-        }
-
-        IntAVLTreeSet sortedSet = new IntAVLTreeSet(pos2Offset.keySet());
+        IntAVLTreeSet sortedSet = new IntAVLTreeSet();
+        pos2Offset.values().stream().filter(off -> off.refcount > 0).forEach(off -> sortedSet.add(off.offset));
 
-        if(!sortedSet.contains(0)){
-            Offset start = new Offset(0);
-            pos2Offset.put(0, start);
-            sortedSet.add(0);
+        if(!pos2Offset.containsKey(0)) {
+            pos2Offset.put(0, new Offset(0));
         }
+        sortedSet.add(0);
 
-        if(!sortedSet.contains(text.length())) {
-            Offset stop = new Offset(text.length());
-            pos2Offset.put(text.length(), stop);
-            sortedSet.add(text.length());
+        if(!pos2Offset.containsKey(text.length())) {
+            pos2Offset.put(text.length(), new Offset(text.length()));
         }
+        sortedSet.add(text.length());
 
         List<String> positions = new ArrayList<>();
 
-- 
2.43.0


From bb06137d99a9850656814b52ca843e1ac002f55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:45 +0000
Subject: [PATCH 65/93] fix: documents with an empty node array could not be
 decoded in Java

Python writes them; a field without nodes is not set.
---
 java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java b/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
index f84a7ec..1c0c53b 100644
--- a/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
+++ b/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
@@ -761,7 +761,8 @@ public class MsgpackCodec {
                                 nodeIds[j] = unpacker.unpackInt();
                             }
 
-                            nodes.get(k).put(field, new NodeArrayPlaceholder(nodeIds));
+                            if(numNodeEntries > 0)
+                                nodes.get(k).put(field, new NodeArrayPlaceholder(nodeIds));
                         }
                     }
                     break;
-- 
2.43.0


From ac965316e24d42f7750efbf0b427ee2374b2a84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:48 +0000
Subject: [PATCH 66/93] fix: Java node builders refused values of fields whose
 type has further arguments

Such as a default, in documents from Python.
---
 java/core/src/main/java/se/lth/cs/docria/Node.java | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/Node.java b/java/core/src/main/java/se/lth/cs/docria/Node.java
index e0437ab..e8fed78 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Node.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Node.java
@@ -56,7 +56,9 @@ public class Node extends Value {
         public Builder put(String fieldName, Value value) {
             DataType fieldType = schema.getFieldType(fieldName);
             if(fieldType != null) {
-                if(!value.type().equals(fieldType)) {
+                DataType valueType = value.type();
+                if(valueType.name() != fieldType.name()
+                        || !fieldType.args().entrySet().containsAll(valueType.args().entrySet())) {
                     throw new IllegalArgumentException("value does not match expected type. Got: " + value.type().toString() + ", Expected: " + fieldType.toString());
                 }
             }
-- 
2.43.0


From dfbaab3ad8be60e86c3b49afd3cc63e48ce0ba6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:50 +0000
Subject: [PATCH 67/93] fix: floating point values in Java were true when zero,
 and had no string

---
 .../src/main/java/se/lth/cs/docria/values/DoubleValue.java    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/values/DoubleValue.java b/java/core/src/main/java/se/lth/cs/docria/values/DoubleValue.java
index 43ad96b..86b6ecc 100644
--- a/java/core/src/main/java/se/lth/cs/docria/values/DoubleValue.java
+++ b/java/core/src/main/java/se/lth/cs/docria/values/DoubleValue.java
@@ -37,12 +37,12 @@ public class DoubleValue extends Value {
 
     @Override
     public String stringValue() {
-        return null;
+        return String.valueOf(value);
     }
 
     @Override
     public boolean boolValue() {
-        return Math.abs(value) - EPS <= 0.0;
+        return !(Math.abs(value) - EPS <= 0.0);
     }
 
     @Override
-- 
2.43.0


From 0af086cd216fe3b2446c7fb4955cb84854ae486a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:53 +0000
Subject: [PATCH 68/93] fix: the part of a Java span could start before the
 span

---
 java/core/src/main/java/se/lth/cs/docria/Span.java | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/Span.java b/java/core/src/main/java/se/lth/cs/docria/Span.java
index efb48a4..9b98fc0 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Span.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Span.java
@@ -99,9 +99,9 @@ public class Span extends Value implements CharSequence, Comparable<Span> {
 
     @Override
     public CharSequence subSequence(int start, int end) {
-        if(end + startOffset.offset > stopOffset.offset) {
+        if(start < 0 || end + startOffset.offset > stopOffset.offset) {
             throw new ArrayIndexOutOfBoundsException(
-                    String.format("end is outside this span, span = [%d, %d), requested = [%d, %d)",
+                    String.format("requested part is outside this span, span = [%d, %d), requested = [%d, %d)",
                                   startOffset.offset, stopOffset.offset,
                                   start+startOffset.offset, end+startOffset.offset));
         }
-- 
2.43.0


From 1075b3fbdbc6768dd7c43e7253098f24600771a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 69/93] fix: Java encoded references to nodes and texts that
 are not in the document

The id last given to a removed node, or to a node of another layer, is that of
some other node: the reference silently went there. The same for spans over
another text, and for spans, nodes or inverted node spans that cannot be
represented, which gave documents that cannot be decoded.
---
 .../java/se/lth/cs/docria/MsgpackCodec.java   | 43 +++++++++++++------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java b/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
index 1c0c53b..8e3e3e1 100644
--- a/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
+++ b/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
@@ -22,6 +22,7 @@ import org.msgpack.core.MessageUnpacker;
 import org.msgpack.core.buffer.MessageBuffer;
 import org.msgpack.value.ImmutableIntegerValue;
 import org.msgpack.value.ImmutableValue;
+import se.lth.cs.docria.exceptions.DataInconsistencyException;
 import se.lth.cs.docria.values.*;
 
 import java.io.IOError;
@@ -32,11 +33,21 @@ import java.util.*;
 public class MsgpackCodec {
     private static class ValueWriter implements ValueVisitor {
         private MessagePacker packer;
+        private Layer target = null;
 
         public ValueWriter(MessagePacker packer) {
             this.packer = packer;
         }
 
+        private int reference(Node node) {
+            if(target == null || node.layer != target || target.get(node.id) != node)
+                throw new DataInconsistencyException(
+                        "Reference to a node which is not in the layer referred to: "
+                                + (node.layer == null ? "removed node" : node.stringValue()));
+
+            return node.id;
+        }
+
         @Override
         public void accept(Value value) {
             throw new UnsupportedOperationException("Encoding " + value.type().toString());
@@ -109,13 +120,7 @@ public class MsgpackCodec {
 
         @Override
         public void accept(Span value) {
-            try {
-                packer.packInt(value.startOffset().id);
-                packer.packInt(value.stopOffset().id);
-            }
-            catch(IOException e) {
-                throw new IOError(e);
-            }
+            throw new UnsupportedOperationException("Encoding " + value.type().toString());
         }
 
         public boolean schemaless = false;
@@ -146,7 +151,7 @@ public class MsgpackCodec {
         @Override
         public void accept(Node value) {
             try {
-                packer.packInt(value.id);
+                packer.packInt(reference(value));
             }
             catch(IOException e) {
                 throw new IOError(e);
@@ -159,7 +164,7 @@ public class MsgpackCodec {
                 Node[] nodes = value.nodeArrayValue();
                 packer.packArrayHeader(nodes.length);
                 for (int i = 0; i < nodes.length; i++) {
-                    packer.packInt(nodes[i].id);
+                    packer.packInt(reference(nodes[i]));
                 }
             } catch(IOException e) {
                 throw new IOError(e);
@@ -169,9 +174,15 @@ public class MsgpackCodec {
         @Override
         public void accept(NodeSpan value) {
             try {
+                int left = reference(value.left);
+                int right = reference(value.right);
+                if(left > right)
+                    throw new DataInconsistencyException(
+                            "Left and right nodes of a node span are not in sequence: " + left + ", " + right);
+
                 packer.packArrayHeader(2);
-                packer.packInt(value.left.id);
-                packer.packInt(value.right.id-value.left.id);
+                packer.packInt(left);
+                packer.packInt(right-left);
             } catch(IOException e) {
                 throw new IOError(e);
             }
@@ -335,7 +346,7 @@ public class MsgpackCodec {
         }
     }
 
-    private static void encodeLayerData(MessagePacker packer, Layer layer, List<String> fields) {
+    private static void encodeLayerData(MessagePacker packer, Document document, Layer layer, List<String> fields) {
         try {
             MessageBufferPacker layerPacker = MessagePack.newDefaultBufferPacker();
 
@@ -357,6 +368,10 @@ public class MsgpackCodec {
                                 layerPacker.packNil();
                             } else {
                                 Span span = spanValue.spanValue();
+                                if(span.source() != document.text(dataType.args().get("context").stringValue()))
+                                    throw new DataInconsistencyException(
+                                            "Span over a text which is not the one referred to: " + span);
+
                                 layerPacker.packInt(span.startOffset().id);
                                 layerPacker.packInt(span.stopOffset().id);
                             }
@@ -364,6 +379,8 @@ public class MsgpackCodec {
                         break;
                     default:
                         layerPacker.packArrayHeader(layer.size());
+                        writer.target = dataType.args().containsKey("layer")
+                                ? document.layer(dataType.args().get("layer").stringValue()) : null;
                         try {
                             for (Node node : layer) {
                                 node.get(field).visit(writer);
@@ -406,7 +423,7 @@ public class MsgpackCodec {
 
             //5. Write Layer data
             for (String type : types) {
-                encodeLayerData(packer, document.layer(type), types2columns.get(type));
+                encodeLayerData(packer, document, document.layer(type), types2columns.get(type));
             }
 
             return packer.toMessageBuffer();
-- 
2.43.0


From 3479f8f6ba3f54c07c5bc63341a89b476aedbc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:56 +0000
Subject: [PATCH 70/93] fix: overlap resolution in Java brought back segments
 that had lost

The end of a segment that lost was taken for a new start when nothing was open.
---
 .../main/java/se/lth/cs/docria/algorithms/DominantRight.java    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/algorithms/DominantRight.java b/java/core/src/main/java/se/lth/cs/docria/algorithms/DominantRight.java
index 49b5214..bedffc9 100644
--- a/java/core/src/main/java/se/lth/cs/docria/algorithms/DominantRight.java
+++ b/java/core/src/main/java/se/lth/cs/docria/algorithms/DominantRight.java
@@ -85,7 +85,7 @@ public class DominantRight {
                     output.add(point.segment.tag);
                     open = null;
                 }
-            } else {
+            } else if(point.start) {
                 open = point.segment;
             }
         }
-- 
2.43.0


From 383a7bf593a80c6c898beda38034e44a87e0fda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 71/93] fix: overlap resolution in Java failed on nodes without
 a span

---
 .../main/java/se/lth/cs/docria/algorithms/DominantRight.java   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/algorithms/DominantRight.java b/java/core/src/main/java/se/lth/cs/docria/algorithms/DominantRight.java
index bedffc9..790ccfe 100644
--- a/java/core/src/main/java/se/lth/cs/docria/algorithms/DominantRight.java
+++ b/java/core/src/main/java/se/lth/cs/docria/algorithms/DominantRight.java
@@ -95,7 +95,7 @@ public class DominantRight {
 
 
     public static List<Node> resolveNodespans(Collection<Node> nodes, String nodespanField) {
-        return resolve(() -> nodes.stream().map(n -> {
+        return resolve(() -> nodes.stream().filter(n -> n.has(nodespanField)).map(n -> {
             NodeSpan span = n.get(nodespanField).nodeSpanValue();
             return new Segment<>(span.getLeft().id(), span.getRight().id()+1, n);
         }).iterator());
@@ -103,6 +103,7 @@ public class DominantRight {
 
     public static List<Node> resolve(Collection<Node> nodes, String spanfield) {
         return resolve(() -> nodes.stream()
+                                  .filter(n -> n.has(spanfield))
                                   .map(n -> {
                                       Span span = n.get(spanfield).spanValue();
                                       return new Segment<>(span.start(), span.stop(), n);
-- 
2.43.0


From 023f21427b5c8597068937dc2b457384d9a1f06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:02 +0000
Subject: [PATCH 72/93] fix: grouping a list of nodes by span in Java ignored
 the name of the span field

---
 .../src/main/java/se/lth/cs/docria/algorithms/GroupBySpan.java  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/algorithms/GroupBySpan.java b/java/core/src/main/java/se/lth/cs/docria/algorithms/GroupBySpan.java
index ab4f28d..d70292c 100644
--- a/java/core/src/main/java/se/lth/cs/docria/algorithms/GroupBySpan.java
+++ b/java/core/src/main/java/se/lth/cs/docria/algorithms/GroupBySpan.java
@@ -31,7 +31,7 @@ public class GroupBySpan {
     }
 
     public static Builder builder(List<Node> groups, String spanfield) {
-        return new Builder(groups, "text");
+        return new Builder(groups, spanfield);
     }
 
     public static Builder builder(Layer groups) {
-- 
2.43.0


From d6509ababda3ea97b204ca9d89dee8293f0f31bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:20 +0000
Subject: [PATCH 73/93] fix: Java documents with node references could not be
 encoded

Node did not take part in the visitor that writes the values.
---
 java/core/src/main/java/se/lth/cs/docria/Node.java | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/java/core/src/main/java/se/lth/cs/docria/Node.java b/java/core/src/main/java/se/lth/cs/docria/Node.java
index e8fed78..51c6b00 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Node.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Node.java
@@ -16,6 +16,7 @@
 package se.lth.cs.docria;
 
 import se.lth.cs.docria.values.NullValue;
+import se.lth.cs.docria.values.ValueVisitor;
 import se.lth.cs.docria.values.Values;
 
 import java.util.List;
@@ -157,6 +158,11 @@ public class Node extends Value {
         return this;
     }
 
+    @Override
+    public void visit(ValueVisitor visitor) {
+        visitor.accept(this);
+    }
+
     public void forEach(BiConsumer<String, Value> fieldFunction) {
         data.forEach(fieldFunction);
     }
-- 
2.43.0


From ea4b45a8ef799017cb5a61cb70ca60361ee5b840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:56 +0000
Subject: [PATCH 74/93] fix: Java documents with a null in a span field could
 not be encoded

---
 java/core/src/main/java/se/lth/cs/docria/Document.java | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/Document.java b/java/core/src/main/java/se/lth/cs/docria/Document.java
index c2bc042..c4c74fb 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Document.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Document.java
@@ -16,6 +16,7 @@
 package se.lth.cs.docria;
 
 import se.lth.cs.docria.exceptions.DataInconsistencyException;
+import se.lth.cs.docria.values.NullValue;
 
 import java.util.*;
 import java.util.stream.Collectors;
@@ -347,8 +348,9 @@ public class Document {
             if(spanFields.size() > 0) {
                 layer.forEach(n -> {
                     for (String spanField : spanFields) {
-                        if(n.has(spanField))
-                            n.get(spanField).spanValue().incref();
+                        Value value = n.get(spanField);
+                        if(!(value instanceof NullValue))
+                            value.spanValue().incref();
                     }
                 });
             }
-- 
2.43.0


From 7caba5ce8448d6e38769a47aba65ceb0e9893c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:31 +0000
Subject: [PATCH 75/93] fix: skipping n documents in Java opened the block
 after them, which nextBlock then left out

---
 .../cs/docria/io/DocumentStreamReader.java    | 21 ++-----------------
 .../io/MsgpackDocumentStreamReader.java       | 21 ++-----------------
 2 files changed, 4 insertions(+), 38 deletions(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/io/DocumentStreamReader.java b/java/core/src/main/java/se/lth/cs/docria/io/DocumentStreamReader.java
index 874f142..2fe5d54 100644
--- a/java/core/src/main/java/se/lth/cs/docria/io/DocumentStreamReader.java
+++ b/java/core/src/main/java/se/lth/cs/docria/io/DocumentStreamReader.java
@@ -213,25 +213,8 @@ public class DocumentStreamReader {
 
     public long skip(long n) {
         long k = 0;
-        if(block == null) {
-            block = readNextBlock();
-            if (block == null)
-                return k;
-        }
-
-        while(k < n) {
-            try {
-                block.skipValue();
-                k++;
-
-                if(!block.hasNext()) {
-                    block = readNextBlock();
-                    if (block == null)
-                        return k;
-                }
-            } catch (IOException e) {
-                throw new IOError(e);
-            }
+        while(k < n && skip()) {
+            k++;
         }
 
         return k;
diff --git a/java/core/src/main/java/se/lth/cs/docria/io/MsgpackDocumentStreamReader.java b/java/core/src/main/java/se/lth/cs/docria/io/MsgpackDocumentStreamReader.java
index 3598679..5515486 100644
--- a/java/core/src/main/java/se/lth/cs/docria/io/MsgpackDocumentStreamReader.java
+++ b/java/core/src/main/java/se/lth/cs/docria/io/MsgpackDocumentStreamReader.java
@@ -223,25 +223,8 @@ public class MsgpackDocumentStreamReader {
 
     public long skip(long n) {
         long k = 0;
-        if(block == null) {
-            block = readNextBlock();
-            if (block == null)
-                return k;
-        }
-
-        while(k < n) {
-            try {
-                block.skipValue();
-                k++;
-
-                if(!block.hasNext()) {
-                    block = readNextBlock();
-                    if (block == null)
-                        return k;
-                }
-            } catch (IOException e) {
-                throw new IOError(e);
-            }
+        while(k < n && skip()) {
+            k++;
         }
 
         return k;
-- 
2.43.0


From ca9d5463b0325e31f18d0a58c3591e72dedd3978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:28 +0000
Subject: [PATCH 76/93] fix: empty data could not be decompressed in Java

---
 java/core/src/main/java/se/lth/cs/docria/io/DeflateCodec.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/io/DeflateCodec.java b/java/core/src/main/java/se/lth/cs/docria/io/DeflateCodec.java
index b0f6a33..1ab2e0b 100644
--- a/java/core/src/main/java/se/lth/cs/docria/io/DeflateCodec.java
+++ b/java/core/src/main/java/se/lth/cs/docria/io/DeflateCodec.java
@@ -78,7 +78,7 @@ public class DeflateCodec {
 
             do {
                 int written = inflater.inflate(buffer);
-                if(written == 0 && (inflater.needsInput() || inflater.needsDictionary()))
+                if(written == 0 && !inflater.finished() && (inflater.needsInput() || inflater.needsDictionary()))
                     throw new DataFormatException("Compressed data is incomplete");
                 outputBuffer.write(buffer, 0, written);
             } while(!inflater.finished());
-- 
2.43.0


From af2970fb77d0f893f4555c514720774c7922f891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:26 +0000
Subject: [PATCH 77/93] fix: Java nodes referring to removed nodes, and spans
 of removed nodes, could not be printed

---
 java/core/src/main/java/se/lth/cs/docria/Node.java     | 5 +++--
 java/core/src/main/java/se/lth/cs/docria/NodeSpan.java | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/Node.java b/java/core/src/main/java/se/lth/cs/docria/Node.java
index 51c6b00..1599ae8 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Node.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Node.java
@@ -184,9 +184,10 @@ public class Node extends Value {
             } else {
                 sb.append(", ");
             }
-            if(stringValueEntry.getValue().type().name() == DataTypeName.NODE) {
+            if(stringValueEntry.getValue() instanceof Node) {
                 Node n = stringValueEntry.getValue().nodeValue();
-                sb.append(stringValueEntry.getKey()).append(" = ").append(n.layer().name()).append("#").append(n.id);
+                sb.append(stringValueEntry.getKey()).append(" = ");
+                sb.append(n.layer != null ? n.layer.name() : "???").append("#").append(n.id);
             }
             else {
                 sb.append(stringValueEntry.getKey()).append(" = ").append(stringValueEntry.getValue());
diff --git a/java/core/src/main/java/se/lth/cs/docria/NodeSpan.java b/java/core/src/main/java/se/lth/cs/docria/NodeSpan.java
index efb6cc2..d513efa 100644
--- a/java/core/src/main/java/se/lth/cs/docria/NodeSpan.java
+++ b/java/core/src/main/java/se/lth/cs/docria/NodeSpan.java
@@ -45,7 +45,7 @@ public class NodeSpan extends Value implements Iterable<Node> {
 
     @Override
     public String stringValue() {
-        if(left.has("text") && right.has("text") && left.layer.schema().getFieldType("text").name() == DataTypeName.SPAN) {
+        if(left.isValid() && right.isValid() && left.has("text") && right.has("text") && left.layer.schema().getFieldType("text").name() == DataTypeName.SPAN) {
             Span startSpan = left.get("text").spanValue();
             Span stopSpan = right.get("text").spanValue();
 
-- 
2.43.0


From 84c9943a8d3863a116d4bd1dd14455f5bd6c7c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 78/93] fix: Java spans changed their hash code when their
 document was encoded

---
 java/core/src/main/java/se/lth/cs/docria/Offset.java | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/Offset.java b/java/core/src/main/java/se/lth/cs/docria/Offset.java
index cf5dc21..9c3b266 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Offset.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Offset.java
@@ -36,14 +36,11 @@ public class Offset implements Comparable<Offset> {
 
         Offset offset1 = (Offset) o;
 
-        if (id != offset1.id) return false;
         return offset == offset1.offset;
     }
 
     @Override
     public int hashCode() {
-        int result = id;
-        result = 31 * result + offset;
-        return result;
+        return offset;
     }
 }
-- 
2.43.0


From 8d9419e112abe0466511e09734fb5e7b73b1732a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 79/93] fix: removing all nodes of a Java layer from itself
 failed half way

---
 java/core/src/main/java/se/lth/cs/docria/Layer.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/Layer.java b/java/core/src/main/java/se/lth/cs/docria/Layer.java
index aa6819c..5dbf4a2 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Layer.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Layer.java
@@ -288,7 +288,7 @@ public class Layer extends AbstractCollection<Node> {
     @Override
     public boolean removeAll(Collection<?> c) {
         boolean ops = false;
-        for (Object o : c) {
+        for (Object o : c.toArray()) {
             ops |= this.remove(o);
         }
         return ops;
-- 
2.43.0


From 54999aa90d60d46c4b07758a0db420e7468b000d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:48 +0000
Subject: [PATCH 80/93] fix: Java spans that split a character outside of the
 BMP were encoded as question marks

---
 java/core/src/main/java/se/lth/cs/docria/Text.java | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/java/core/src/main/java/se/lth/cs/docria/Text.java b/java/core/src/main/java/se/lth/cs/docria/Text.java
index f63c9b0..04413a7 100644
--- a/java/core/src/main/java/se/lth/cs/docria/Text.java
+++ b/java/core/src/main/java/se/lth/cs/docria/Text.java
@@ -16,6 +16,7 @@
 package se.lth.cs.docria;
 
 import it.unimi.dsi.fastutil.ints.*;
+import se.lth.cs.docria.exceptions.DataInconsistencyException;
 import se.lth.cs.docria.exceptions.SpanException;
 
 import java.util.ArrayList;
@@ -108,6 +109,12 @@ public class Text implements CharSequence {
             pos2Offset.get(startOffset).id = id++;
             do {
                 int stopOffset = iter.nextInt();
+                if(stopOffset < text.length()
+                        && Character.isHighSurrogate(text.charAt(stopOffset-1))
+                        && Character.isLowSurrogate(text.charAt(stopOffset)))
+                    throw new DataInconsistencyException(
+                            String.format("A span starts or ends within a surrogate pair, offset = %d, text = %s", stopOffset, name));
+
                 pos2Offset.get(stopOffset).id = id++;
 
                 positions.add(text.substring(startOffset, stopOffset));
-- 
2.43.0


From f322aa23ed2c71459338897e6e6b9063d91633c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:57 +0000
Subject: [PATCH 81/93] fix: changes to a document taken from a
 DocumentWritable were lost when the record was written

---
 .../lth/cs/docria/hadoop/DocumentWritable.java | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/java/hadoop/src/main/java/se/lth/cs/docria/hadoop/DocumentWritable.java b/java/hadoop/src/main/java/se/lth/cs/docria/hadoop/DocumentWritable.java
index 4138b7d..549a898 100644
--- a/java/hadoop/src/main/java/se/lth/cs/docria/hadoop/DocumentWritable.java
+++ b/java/hadoop/src/main/java/se/lth/cs/docria/hadoop/DocumentWritable.java
@@ -25,8 +25,11 @@ public class DocumentWritable implements Writable, Externalizable {
     }
 
     public Document getDocument() {
-        if(document == null && msgpackBlob != null)
+        if(document == null && msgpackBlob != null) {
             document = MsgpackCodec.decode(msgpackBlob);
+            // The document may be changed from now on: its encoded form would not follow.
+            msgpackBlob = null;
+        }
 
         return document;
     }
@@ -41,13 +44,8 @@ public class DocumentWritable implements Writable, Externalizable {
     }
 
     public byte[] getMsgpackBlob() {
-        if(this.msgpackBlob == null && this.document == null)
-            return null;
-
-        if(msgpackBlob == null) {
-            msgpackBlob = MsgpackCodec.encode(this.document).toByteArray();
-            document = null;
-        }
+        if(this.document != null)
+            return MsgpackCodec.encode(this.document).toByteArray();
 
         return msgpackBlob;
     }
@@ -64,8 +62,8 @@ public class DocumentWritable implements Writable, Externalizable {
 
         byte[] msgpackBlob = getMsgpackBlob();
 
-        dataOutput.writeInt(this.msgpackBlob.length);
-        dataOutput.write(this.msgpackBlob);
+        dataOutput.writeInt(msgpackBlob.length);
+        dataOutput.write(msgpackBlob);
     }
 
     @Override
-- 
2.43.0


From a65635bce6944ef9dd4916220afe978cd69ba398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:28 +0000
Subject: [PATCH 82/93] fix: the Hadoop input format left a file open that it
 could not start to read

---
 .../java/se/lth/cs/docria/hadoop/DocriaInputFormat.java  | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/java/hadoop/src/main/java/se/lth/cs/docria/hadoop/DocriaInputFormat.java b/java/hadoop/src/main/java/se/lth/cs/docria/hadoop/DocriaInputFormat.java
index c103ea8..74c19e8 100644
--- a/java/hadoop/src/main/java/se/lth/cs/docria/hadoop/DocriaInputFormat.java
+++ b/java/hadoop/src/main/java/se/lth/cs/docria/hadoop/DocriaInputFormat.java
@@ -35,7 +35,14 @@ public class DocriaInputFormat extends FileInputFormat<DocumentWritable, NullWri
                 Path path = fileSplit.getPath();
                 FileSystem fs = path.getFileSystem(conf);
                 fsInput = fs.open(path);
-                streamReader = new DocumentStreamReader(fsInput);
+                try {
+                    streamReader = new DocumentStreamReader(fsInput);
+                } finally {
+                    if(streamReader == null) {
+                        fsInput.close();
+                        fsInput = null;
+                    }
+                }
             }
 
             @Override
-- 
2.43.0


From f741c39a5a5201ec98d11bf03e662443036b5ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:57 +0000
Subject: [PATCH 83/93] fix: Java wrote values that contradict the type of
 their field, which nobody can read

---
 .../java/se/lth/cs/docria/MsgpackCodec.java   | 39 ++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java b/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
index 8e3e3e1..6931c16 100644
--- a/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
+++ b/java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java
@@ -346,6 +346,38 @@ public class MsgpackCodec {
         }
     }
 
+    private static boolean fits(Value value, DataType type) {
+        if(value instanceof NullValue)
+            return true;
+
+        switch (type.name()) {
+            case INT:
+                return value instanceof IntValue
+                        || value instanceof LongValue && value.longValue() == (int)value.longValue();
+            case LONG:
+                return value instanceof IntValue || value instanceof LongValue;
+            case DOUBLE:
+                return value instanceof DoubleValue;
+            case BOOL:
+                return value instanceof BoolValue;
+            case STRING:
+                return value instanceof StringValue;
+            case BINARY:
+                return value instanceof BinaryValue;
+            case EXT:
+                return value instanceof BinaryValue
+                        || value instanceof ExtensionValue && value.type().args().get("type").equals(type.args().get("type"));
+            case NODE:
+                return value instanceof Node;
+            case NODE_ARRAY:
+                return value instanceof NodeArrayValue;
+            case NODE_SPAN:
+                return value instanceof NodeSpan;
+            default:
+                return false;
+        }
+    }
+
     private static void encodeLayerData(MessagePacker packer, Document document, Layer layer, List<String> fields) {
         try {
             MessageBufferPacker layerPacker = MessagePack.newDefaultBufferPacker();
@@ -383,7 +415,12 @@ public class MsgpackCodec {
                                 ? document.layer(dataType.args().get("layer").stringValue()) : null;
                         try {
                             for (Node node : layer) {
-                                node.get(field).visit(writer);
+                                Value value = node.get(field);
+                                if(!fits(value, dataType))
+                                    throw new DataInconsistencyException(
+                                            "Value does not match the type of its field. Got: " + value + ", Expected: " + dataType);
+
+                                value.visit(writer);
                             }
                         } catch (RuntimeException e) {
                             throw new RuntimeException(String.format("When processing column %s in layer %s", field, layer.name()), e);
-- 
2.43.0


From e05dd6a3d8c302bf7eafebe10f9dc940235971c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:59 +0000
Subject: [PATCH 84/93] fix: a field that an application class keeps was missed
 when asked for with a default (Java)

---
 .../src/main/java/se/lth/cs/docria/ConcreteNode.java     | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/java/core/src/main/java/se/lth/cs/docria/ConcreteNode.java b/java/core/src/main/java/se/lth/cs/docria/ConcreteNode.java
index 3dab949..775b13e 100644
--- a/java/core/src/main/java/se/lth/cs/docria/ConcreteNode.java
+++ b/java/core/src/main/java/se/lth/cs/docria/ConcreteNode.java
@@ -79,6 +79,15 @@ public abstract class ConcreteNode extends Node {
             return super.get(field);
     }
 
+    @Override
+    public Value get(String field, Value defaultValue) {
+        Map<String, Function<Node, Value>> getters = nodeInterface().getters;
+        if(getters.containsKey(field))
+            return getters.get(field).apply(this);
+        else
+            return super.get(field, defaultValue);
+    }
+
     @Override
     public Node put(String field, Value value) {
         Map<String, BiConsumer<Node, Value>> setters = nodeInterface().setters;
-- 
2.43.0


From 9fbaade145324da6ee3527841705e99a0a40687d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:41 +0000
Subject: [PATCH 85/93] fix: values of extension fields were not validated:
 data of another type was silently written as the declared one

---
 py/docria/model.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 21e7af9..7722f8b 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1055,6 +1055,22 @@ class DataTypeNodespan(DataType):
                value.left.i <= value.right.i
 
 
+class DataTypeExt(DataType):
+    """Extension field type, embedded documents or data of an application"""
+
+    def __init__(self, typename: DataTypeEnum, **kwargs):
+        super().__init__(typename, **kwargs)
+
+    def is_valid(self, value) -> bool:
+        if isinstance(value, ExtData):
+            # Data without an encoder of its own is written as it is
+            return value.type == self.options.get("type") and (
+                type(value).encode is not ExtData.encode or isinstance(value.data, (bytes, bytearray, memoryview)))
+
+        return value is None or isinstance(value, bytes) or \
+            (isinstance(value, Document) and self.options.get("type") == "doc")
+
+
 class DataTypeTextspan(DataType):
     """Textspan field type, text sequence"""
 
@@ -1101,7 +1117,8 @@ _DataType2Class = {
     DataTypeEnum.NODEREF: DataTypeNoderef,
     DataTypeEnum.NODEREF_MANY: DataTypeNoderefList,
     DataTypeEnum.SPAN: DataTypeTextspan,
-    DataTypeEnum.NODEREF_SPAN: DataTypeNodespan
+    DataTypeEnum.NODEREF_SPAN: DataTypeNodespan,
+    DataTypeEnum.EXT: DataTypeExt
 }
 
 
@@ -1211,7 +1228,7 @@ class DataTypes:
 
     @staticmethod
     def ext(typename):
-        return DataType(DataTypeEnum.EXT, type=typename)
+        return DataTypeExt(DataTypeEnum.EXT, type=typename)
 
     @staticmethod
     def matches(o, expected):
-- 
2.43.0


From 862d4121dc40cce67b421c45ccc5667b2f2c4fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 86/93] fix: documents decoded from one JSON object shared
 their properties with it and with each other

---
 py/docria/codec.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 95070cc..f2c58df 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -22,6 +22,7 @@ import logging
 from io import BytesIO, IOBase
 from typing import List, Dict, Tuple, TYPE_CHECKING
 from base64 import standard_b64decode, standard_b64encode
+from copy import deepcopy
 import re
 import xml.etree.ElementTree
 
@@ -216,7 +217,7 @@ class JsonCodec:
         docobj = docobj["DM10"]
 
         doc = Document()
-        doc.props = docobj["props"]
+        doc.props = deepcopy(docobj["props"])  # The object remains with its owner
 
         schema = {}  # type: Dict[str, List[Tuple[str, DataType]]]
 
-- 
2.43.0


From 678a3bbc0f880cc70334016fdf07000e2e0411a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:57 +0000
Subject: [PATCH 87/93] fix: adding a file index to a directory index broke the
 search of the file index and of other directory indexes

---
 py/docria/collection.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py/docria/collection.py b/py/docria/collection.py
index 7a1c5b4..9e05c95 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -759,8 +759,9 @@ class DocumentIndex:
         self.index = {}  # type: Dict[str, DocumentFileIndex]
 
     def add(self, index: "DocumentFileIndex"):
-        index.filepath = os.path.relpath(index.filepath, self.basepath)
-        self.index[index.filepath] = index
+        # The given index remains valid, it might be used on its own or in other indexes.
+        filepath = os.path.relpath(index.filepath, self.basepath)
+        self.index[filepath] = DocumentFileIndex(filepath, index.properties, index.docrefs)
 
     def search(self, conds, lazy=False):
         for indx in self.index.values():
-- 
2.43.0


From 198bd2a0c22ec734cbe93fb4d0f27c720135022a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:55 +0000
Subject: [PATCH 88/93] fix: boundary stream read from a source that returns
 less than asked for

---
 py/docria/collection.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/py/docria/collection.py b/py/docria/collection.py
index 9e05c95..d994734 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -89,9 +89,15 @@ class _BoundaryReader(RawIOBase):
         output = bytearray()
         while len(output) < n:
             segment_end = ((self.position >> self.boundary) + 1) << self.boundary
-            if self.position == segment_end - (1 << self.boundary):
+            marker_left = segment_end - (1 << self.boundary) + 4 - self.position
+            if marker_left > 0 and segment_end > (1 << self.boundary):
                 # At a boundary, skip the marker
-                self.position += len(self.inputio.read(4))
+                marker = self.inputio.read(marker_left)
+                if len(marker) == 0:
+                    break
+
+                self.position += len(marker)
+                continue
 
             data = self.inputio.read(min(segment_end - self.position, n - len(output)))
             if len(data) == 0:
-- 
2.43.0


From b7b0d12c322e9c344c6c80c32137475f18657b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:03 +0000
Subject: [PATCH 89/93] fix: documents and collections in raw streams that
 return less than asked for

---
 py/docria/codec.py      | 15 ++++++++++++++-
 py/docria/collection.py |  4 ++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index f2c58df..79bc26f 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -366,6 +366,19 @@ class JsonCodec:
         return doc
 
 
+def read_fully(inputio, size):
+    """Read size bytes if there are that many, a single read from a raw stream may return less"""
+    data = inputio.read(size)
+    while 0 < len(data) < size:
+        more = inputio.read(size - len(data))
+        if not more:
+            break
+
+        data += more
+
+    return data
+
+
 class MsgpackDocument:
     """MessagePack Document, allows partial decoding
 
@@ -404,7 +417,7 @@ class MsgpackDocument:
         else:
             raise ValueError(f"Unsupported type for MsgpackDocument: {type(data_or_document)}")
 
-        if self.rawdata.read(4) != b"DM_1":
+        if read_fully(self.rawdata, 4) != b"DM_1":
             raise ValueError("Magic bytes is not DM_1")
 
         self._read_state = 0
diff --git a/py/docria/collection.py b/py/docria/collection.py
index d994734..cff8bb4 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -26,7 +26,7 @@ from typing import Iterator
 import struct
 import importlib.util
 from docria.model import Document
-from docria.codec import MsgpackDocument
+from docria.codec import MsgpackDocument, read_fully
 import tarfile
 import time
 
@@ -318,7 +318,7 @@ class MsgpackDocumentReader:
     def _open(self, inputio):
         self.inputio = inputio
         self.dataread = 4
-        header = self.inputio.read(4)
+        header = read_fully(self.inputio, 4)
         if header != b"Dmf1":
             raise IOError("Header does not match expected format 'Dmf1', found: %s" % header.decode("latin1"))
 
-- 
2.43.0


From 539a114e5b6a60319a23c6c9d99d818a8aa1b354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:23 +0000
Subject: [PATCH 90/93] fix: collections and boundary streams written to raw
 streams that store less than given

---
 py/docria/collection.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/py/docria/collection.py b/py/docria/collection.py
index cff8bb4..42760a2 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -38,6 +38,17 @@ def _module_available(name):
         return False
 
 
+def _write_fully(outputio, data):
+    """Write all of data, a single write to a raw stream may store less"""
+    written = outputio.write(data)
+    while written is not None and written < len(data):
+        if written == 0:
+            raise IOError("Data could not be written")
+
+        data = data[written:]
+        written = outputio.write(data)
+
+
 class _BoundaryReader(RawIOBase):
     """Note: Seek is not ready for prime time yet, unresolved bugs."""
     def __init__(self, inputio):
@@ -155,7 +166,7 @@ class _BoundaryWriter(RawIOBase):
         if delta <= -0x80000000:
             deltapos = -0x80000000
 
-        self.outputio.write(struct.pack(">i", deltapos))
+        _write_fully(self.outputio, struct.pack(">i", deltapos))
 
         self.written += 4
         self.seg += 1
@@ -166,7 +177,7 @@ class _BoundaryWriter(RawIOBase):
 
         maxwrite = min(((self.seg + 1) << self.boundary) - self.written, left)
         while left > 0:
-            self.outputio.write(data[pos:pos+maxwrite])
+            _write_fully(self.outputio, data[pos:pos+maxwrite])
             pos += maxwrite
             self.written += maxwrite
             left -= maxwrite
@@ -469,10 +480,10 @@ class MsgpackDocumentWriter:
         self.outputio = outputio
         self.packer = Packer(use_bin_type=True)
 
-        self.outputio.write(b"Dmf1")
-        self.outputio.write(self.packer.pack(codec.name))
-        self.outputio.write(self.packer.pack(num_docs_per_block))
-        self.outputio.write(self.packer.pack(False))
+        _write_fully(self.outputio, b"Dmf1")
+        _write_fully(self.outputio, self.packer.pack(codec.name))
+        _write_fully(self.outputio, self.packer.pack(num_docs_per_block))
+        _write_fully(self.outputio, self.packer.pack(False))
 
         if isinstance(self.outputio, _BoundaryWriter):
             self.outputio.split()
@@ -524,7 +535,7 @@ class MsgpackDocumentWriter:
         This might result in blocks having less than specified number of documents per block.
         """
         if self.current_block_count > 0:
-            self.outputio.write(self.packer.pack(self.codec(self.currentblock.getvalue())))
+            _write_fully(self.outputio, self.packer.pack(self.codec(self.currentblock.getvalue())))
 
             if isinstance(self.outputio, _BoundaryWriter):
                 self.outputio.split()
-- 
2.43.0


From 8a5915a9d0cbb84127ca5d662435d9a7920aaa0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:52 +0000
Subject: [PATCH 91/93] fix: names of rows were markup in HTML tables

---
 py/docria/printout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/printout.py b/py/docria/printout.py
index 1f43f37..8e80798 100644
--- a/py/docria/printout.py
+++ b/py/docria/printout.py
@@ -204,7 +204,7 @@ class Table:
         return output
 
     def format_html(self, row: TableRow, index: int):
-        output = [str(row.index) if row.index is not None else str(index)]
+        output = [escape(str(row.index)) if row.index is not None else str(index)]
         for col in row.elems:
             if isinstance(col, TableCell):
                 output.append(col.html)
-- 
2.43.0


From 4d6a041981bd5538b47fad3890c0eef1d13d5176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:43 +0000
Subject: [PATCH 92/93] fix: a Java type changed when its builder was used
 further

---
 java/core/src/main/java/se/lth/cs/docria/DataType.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/DataType.java b/java/core/src/main/java/se/lth/cs/docria/DataType.java
index 5a426c0..d5f2c71 100644
--- a/java/core/src/main/java/se/lth/cs/docria/DataType.java
+++ b/java/core/src/main/java/se/lth/cs/docria/DataType.java
@@ -80,7 +80,7 @@ public class DataType {
         }
 
         public DataType build() {
-            return new DataType(this.name, this.args);
+            return new DataType(this.name, new TreeMap<>(this.args));
         }
     }
 
-- 
2.43.0


From 68c8b75d0b84c4c255a01133f8dcaed209a0776a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:22 +0000
Subject: [PATCH 93/93] fix: a Java handle of damaged data gave empty
 compartments when asked again

The positions were kept before they were found out, so that only the first access failed.
---
 .../src/main/java/se/lth/cs/docria/MsgpackDocument.java    | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java b/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java
index a9587d2..a6baa14 100644
--- a/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java
+++ b/java/core/src/main/java/se/lth/cs/docria/MsgpackDocument.java
@@ -79,7 +79,7 @@ public class MsgpackDocument {
                 MessageUnpacker unpacker = MessagePack.newDefaultUnpacker(data);
                 unpacker.readPayloadAsReference(4);
 
-                this.positions = new int[8]; // Start + End
+                int[] positions = new int[8]; // Start + End
 
                 // 1. Find property compartment
                 positions[PROPERTY_START] = (int)unpacker.getTotalReadBytes();
@@ -93,7 +93,7 @@ public class MsgpackDocument {
                 positions[SCHEMA_START] = (int)unpacker.getTotalReadBytes();
 
                 // 2. Read Schema
-                this.schema = MsgpackCodec.decodeSchema(unpacker, Collections.emptyMap(), types, types2columns);
+                Schema schema = MsgpackCodec.decodeSchema(unpacker, Collections.emptyMap(), types, types2columns);
                 positions[SCHEMA_END] = (int)unpacker.getTotalReadBytes();
 
                 // 3. Find text compartment
@@ -109,6 +109,9 @@ public class MsgpackDocument {
                     unpacker.readPayloadAsReference(layer_sz);
                 }
                 positions[LAYERS_END] = (int)unpacker.getTotalReadBytes();
+
+                this.schema = schema;
+                this.positions = positions;
             } catch (IOException e) {
                 throw new IOError(e);
             }
-- 
2.43.0

