H = '''
import copy, io, json, os, pickle, shutil, struct, sys, tempfile
import xml.etree.ElementTree as ET
from docria.model import *
from docria.model import Node, NodeList, NodeSpan, ExtData
from docria.codec import MsgpackCodec, JsonCodec, XmlCodec, MsgpackDocument
import msgpack
T = DataTypes

def refused(fn):
    try:
        fn()
    except Exception:
        return True
    return False
'''


def B(id, prop, edits, demo, needs, breaks):
    return dict(id=id, property=prop, edits=edits, demo=H + demo, needs=needs, breaks=breaks)


BUGS = [
    B("noderef-array-dedupe", "C01",
      [("codec.py", '''        DataTypeEnum.NODEREF_MANY: lambda l, v: l.append(None if v is None or len(v) == 0 else [n.i for n in v]),''',
        '''        DataTypeEnum.NODEREF_MANY: lambda l, v: l.append(None if v is None or len(v) == 0 else list(dict.fromkeys(n.i for n in v))),''')],
      '''
doc = Document()
l = doc.add_layer("l", n=T.int32, r=T.noderef_many("l"))
a = l.add(n=1)
b = l.add(n=2, r=[a, a])
d = MsgpackCodec.decode(MsgpackCodec.encode(doc))
assert [n["n"] for n in d["l"].last()["r"]] == [1, 1]
''', "the same node twice in a reference list", "the repetition is lost"),

    B("nodespan-absolute-ends", "C03",
      [("codec.py", "[v.left.i, v.right.i - v.left.i]", "[v.left.i, v.right.i]"),
       ("codec.py", "                            left_i, right_i = lst[0], lst[0]+lst[1]  # Delta encoded length\n                            n[col] = NodeSpan(target_nodes[left_i], target_nodes[right_i])\n\n\nclass JsonCodec",
        "                            left_i, right_i = lst\n                            n[col] = NodeSpan(target_nodes[left_i], target_nodes[right_i])\n\n\nclass JsonCodec"),
       ("codec.py", "                            left_i, right_i = lst[0], lst[0]+lst[1]  # Delta encoded length\n                            n[col] = NodeSpan(target_nodes[left_i], target_nodes[right_i])\n\n        return doc",
        "                            left_i, right_i = lst\n                            n[col] = NodeSpan(target_nodes[left_i], target_nodes[right_i])\n\n        return doc")],
      '''
doc = Document()
l = doc.add_layer("l", n=T.int32)
ns = [l.add(n=i) for i in range(6)]
s = doc.add_layer("s", ns=T.nodespan("l"))
s.add(ns=NodeSpan(ns[2], ns[5]))
u = msgpack.Unpacker(io.BytesIO(MsgpackCodec.encode(doc)[4:]), raw=False)
items = list(u)
assert items[-1] == [[2, 3]], items[-1]      # delta coded: left end, distance to the right end
''', "a file exchanged with another implementation of the format (both sides of this one agree)",
      "node spans are written with absolute ends, the published layout is delta coded"),

    B("handle-prop-header-width", "C06",
      [("codec.py", "            prop_start = unpacker.tell() + 4\n", "            prop_start = 5 if prop_sz < 0x80 else 6 if prop_sz < 0x100 else 7\n")],
      '''
doc = Document(big="x" * 70000)
doc.maintext = "abc"
h = MsgpackDocument(MsgpackCodec.encode(doc))
assert h.properties() == doc.props
assert h.document().props == doc.props
''', "document properties of 64 KiB or more", "the handle reads properties and all later parts at the wrong place"),

    B("handle-property-cache", "C06",
      [("codec.py", "        self._parse_state(1)\n        self.rawdata.seek(self._prop[0])\n        unpacker = msgpack.Unpacker(self.rawdata, raw=False)\n        return MsgpackCodec.decode_property(unpacker, *props)",
        "        cached = getattr(self, \"_prop_values\", None)\n        if cached is None:\n            self._parse_state(1)\n            self.rawdata.seek(self._prop[0])\n            unpacker = msgpack.Unpacker(self.rawdata, raw=False)\n            cached = self._prop_values = MsgpackCodec.decode_property(unpacker)\n\n        if len(props) == 0:\n            return cached\n\n        return {k: v for k, v in cached.items() if k in props}")],
      '''
h = MsgpackDocument(MsgpackCodec.encode(Document(a=1)))
d = h.document()
d.props["b"] = 2
assert h.properties() == {"a": 1}
assert h.document().props == {"a": 1}
''', "a document obtained from a handle, its properties changed, and the handle asked again",
      "later answers of the handle show the changes"),

    B("handle-file-read-state", "C06",
      [("codec.py", "            texts_len = next(unpacker)\n            texts_start = unpacker.tell()+start_pos\n            self._texts = (texts_start, texts_len)\n",
        "            texts_len = next(unpacker)\n            texts_start = unpacker.tell()+start_pos\n            self._texts = (texts_start, texts_len)\n            self._read_state = 2\n"),
       ("codec.py", "        if self._read_state < 1 and state > 0:\n", "        if self._read_state < state and state > 0:\n")],
      '''
doc = Document(a=1)
doc.maintext = "abc"
l = doc.add_layer("l", n=T.int32, m=T.int32)
l.add(n=1, m=2)
l2 = doc.add_layer("l2", n=T.int32)
h = MsgpackDocument(MsgpackCodec.encode(doc))
types, schema = h.schema()
del types[1:]
schema.clear()
assert sorted(h.schema()[0]) == ["l", "l2"]
assert sorted(h.document().layers) == ["l", "l2"]
''', "a schema obtained from a handle, changed, and the handle used again", "the handle forgets layers"),

    B("json-bytes-offsets", "C04",
      [("codec.py", "                pos += len(subseq)\n\n            offsets.append(pos)\n\n            fulltext = \"\".join(text)\n\n            doc.add_text(textname, fulltext)\n            text2offsets[textname] = dict(zip(range(len(offsets)), offsets))\n\n        all_nodes = {}\n        types_num_nodes",
        "                pos += len(subseq.encode(\"utf-16-le\", \"surrogatepass\")) // 2\n\n            offsets.append(pos)\n\n            fulltext = \"\".join(text)\n\n            doc.add_text(textname, fulltext)\n            text2offsets[textname] = dict(zip(range(len(offsets)), offsets))\n\n        all_nodes = {}\n        types_num_nodes")],
      '''
doc = Document()
doc.maintext = "a\\U0001F600bc"
l = doc.add_layer("l", text=T.span())
l.add(text=doc.maintext[2:3])
d = JsonCodec.decode(JsonCodec.encode(doc))
assert str(d["l"].first()["text"]) == "b"
''', "characters outside of the basic plane before a span, in JSON", "spans are shifted"),

    B("json-nan-lost", "C04",
      [("codec.py", "                    for n, v in zip(nodes, data):\n                        if v is not None:\n                            n[col] = v\n\n                def span_field(text, offsets):\n                    nonlocal nodes\n\n                    def decoder(data):\n                        for",
        "                    for n, v in zip(nodes, data):\n                        if v is not None and v == v:\n                            n[col] = v\n\n                def span_field(text, offsets):\n                    nonlocal nodes\n\n                    def decoder(data):\n                        for")],
      '''
doc = Document()
l = doc.add_layer("l", f=T.float64(None))
l.add(f=float("nan")); l.add(f=1.5); l.add()
d = JsonCodec.decode(JsonCodec.encode(doc))
ns = list(d["l"])
assert "f" in ns[0] and ns[0]["f"] != ns[0]["f"] and ns[1]["f"] == 1.5 and "f" not in ns[2]
''', "a float field holding not-a-number, through JSON", "the value is lost, while the binary format keeps it"),

    B("xml-id-no-separator", "C07",
      [("codec.py", "prefix + layerk + \".\" + str(i)", "prefix + layerk + str(i)")],
      '''
doc = Document()
a = doc.add_layer("t", n=T.int32)
b = doc.add_layer("t1", n=T.int32)
for i in range(12): a.add(n=i)
for i in range(3): b.add(n=i)
root = ET.fromstring(XmlCodec.encode_utf8string(doc))
ids = [e.get("{http://www.w3.org/XML/1998/namespace}id") for e in root.iter("n")]
assert len(ids) == len(set(ids)) == 15
''', "layer names that end in digits", "XML ids are not unique"),

    B("xml-falsy-values", "C07",
      [("codec.py", "                    if res is not None:\n                        node_values[field] = encoder(res)", "                    if res or isinstance(res, (int, float, str)):\n                        node_values[field] = encoder(res)")],
      '''
doc = Document()
doc.maintext = "abc"
l = doc.add_layer("l", text=T.span(), n=T.int32)
l.add(text=doc.maintext[1:1], n=0)
root = ET.fromstring(XmlCodec.encode_utf8string(doc))
ds = list(root.iter("d"))
assert len(ds) == 1 and ds[0].get("from") == ds[0].get("until")
''', "a node with an empty span, exported to XML", "the span is missing in the export"),

    B("xml-verbose-offset", "C07",
      [("codec.py", "                    pos += len(entry)\n                    i += 1\n", "                    pos += len(entry) or 1\n                    i += 1\n"),
       ("codec.py", "            output.append(self.text[start:stop])", "            output.append(self.text[start:stop])") if False else
       ("codec.py", "\"start\": str(pos), \"stop\": str(pos + len(entry))}", "\"start\": str(pos), \"stop\": str(pos + len(entry.rstrip(\"\\r\")))}")],
      '''
doc = Document()
doc.maintext = "a\\rb"
l = doc.add_layer("l", text=T.span())
l.add(text=doc.maintext[0:2])
root = ET.fromstring(XmlCodec.encode_utf8string(doc, verbose=True))
assert [(s.get("start"), s.get("stop")) for s in root.iter("s")] == [("0", "2"), ("2", "3")]
''', "verbose XML of a text piece that ends in a carriage return", "offsets in the verbose export are wrong"),

    B("pickle-stale-state", "C08",
      [("model.py", "        from docria.codec import MsgpackCodec\n\n        return {\n            \"msgpacked\": MsgpackCodec.encode(self)\n        }",
        "        from docria.codec import MsgpackCodec\n\n        key = (repr(self.props), [(k, len(v)) for k, v in self.layers.items()], [(k, v.text) for k, v in self.texts.items()])\n        if self.__dict__.get(\"_pickled\", (None,))[0] != key:\n            self._pickled = key, MsgpackCodec.encode(self)\n\n        return {\n            \"msgpacked\": self._pickled[1]\n        }")],
      '''
doc = Document()
l = doc.add_layer("l", n=T.int32)
n = l.add(n=1)
pickle.dumps(doc)
n["n"] = 2
assert pickle.loads(pickle.dumps(doc))["l"].first()["n"] == 2
''', "a document pickled or copied twice with a value changed in between", "the second copy has the old value"),

    B("setstate-shares-props", "C08",
      [("model.py", "        doc = MsgpackCodec.decode(state[\"msgpacked\"])\n        self._layers = doc.layers\n        self._texts = doc.texts\n        self.props = doc.props",
        "        doc = Document._unpickled.get(state[\"msgpacked\"])\n        if doc is None:\n            doc = MsgpackCodec.decode(state[\"msgpacked\"])\n            Document._unpickled.clear()\n            Document._unpickled[state[\"msgpacked\"]] = doc\n\n        self._layers = doc.layers\n        self._texts = doc.texts\n        self.props = doc.props"),
       ("model.py", "    @property\n    def text(self) -> Dict[str, Text]:\n        \"\"\"Text\"\"\"", "    _unpickled = {}\n\n    @property\n    def text(self) -> Dict[str, Text]:\n        \"\"\"Text\"\"\"")],
      '''
doc = Document(a=1)
l = doc.add_layer("l", n=T.int32)
l.add(n=1)
p = pickle.dumps(doc)
x, y = pickle.loads(p), pickle.loads(p)
x["l"].first()["n"] = 7
x.props["a"] = 3
assert y["l"].first()["n"] == 1 and y.props == {"a": 1}
''', "the same pickle loaded twice in a row", "the copies share their nodes and properties"),

    B("unset-bool-defaulted", "C01",
      [("codec.py", "                    for n, v in zip(nodes, data):\n                        if v is not None:\n                            n[col] = v\n\n                def doc_field(data):",
        "                    default = typedef.default() if typedef.typename == DataTypeEnum.BOOL else None\n                    for n, v in zip(nodes, data):\n                        v = default if v is None else v\n                        if v is None:\n                            continue\n\n                        n.setdefault(col, v)\n\n                def doc_field(data):")],
      '''
doc = Document()
l = doc.add_layer("l", b=T.bool)
l.add(b=True)
del l.add()["b"]
d = MsgpackCodec.decode(MsgpackCodec.encode(doc))
assert ["b" in n for n in d["l"]] == [True, False]
''', "a boolean field with a default that was unset on a node", "the decoded node has the default instead of no value"),

    B("texts-subset-order", "C06",
      [("codec.py", "            num_entries = unpacker.read_map_header()\n            for i in range(num_entries):\n                k = next(unpacker)\n                if k in prop_keys:\n                    v = next(unpacker)\n                    texts[k] = v\n                else:\n                    unpacker.skip()\n\n            return texts",
        "            num_entries = unpacker.read_map_header()\n            for i in range(min(num_entries, 15)):\n                k = next(unpacker)\n                if k in prop_keys:\n                    v = next(unpacker)\n                    texts[k] = v\n                else:\n                    unpacker.skip()\n\n            return texts")],
      '''
doc = Document()
for i in range(20): doc.add_text("t%02d" % i, "x%d" % i)
h = MsgpackDocument(MsgpackCodec.encode(doc))
assert {k: "".join(v) for k, v in h.texts("t19", "t03").items()} == {"t19": "x19", "t03": "x3"}
''', "a document with more than 15 texts, some asked for by name", "texts after the fifteenth are not found"),

    B("float-as-int", "C01",
      [("codec.py", "DataTypeEnum.F64: lambda l, v: l.append(None if v is None else float(v)),", "DataTypeEnum.F64: lambda l, v: l.append(None if v is None else int(v) if v.is_integer() else float(v)),")],
      '''
doc = Document()
l = doc.add_layer("l", f=T.float64)
l.add(f=2.0); l.add(f=-0.0)
d = MsgpackCodec.decode(MsgpackCodec.encode(doc))
assert [repr(n["f"]) for n in d["l"]] == ["2.0", "-0.0"], [repr(n["f"]) for n in d["l"]]
MsgpackCodec.encode(d)
''', "a float that is a whole number", "the value comes back as an integer, the decoded document cannot be encoded again"),

    B("encode-drops-empty-layer-options", "C01",
      [("model.py", "        if len(self.options) > 0:\n            return {", "        if any(self.options.values()):\n            return {")],
      '''
doc = Document()
l = doc.add_layer("l", n=T.int32, f=T.float64)
d = MsgpackCodec.decode(MsgpackCodec.encode(doc))
assert d["l"].schema.fields["n"].default() == 0
assert d["l"].add()["n"] == 0
''', "a field whose default is false in Python (0, empty string, False)", "the default is lost in the encoded schema"),

    B("json-sorted-keys", "C04",
      [("codec.py", "        return json.dumps(JsonCodec.encode_object(doc))", "        return json.dumps(JsonCodec.encode_object(doc), sort_keys=True)")],
      '''
doc = Document()
l = doc.add_layer("z", b=T.int32, a=T.string)
l.add(b=1, a="x")
doc.add_layer("c", n=T.int32)
d = JsonCodec.decode(JsonCodec.encode(doc))
assert list(d.layers) == ["z", "c"] and list(d["z"].schema.fields) == ["b", "a"]
d2 = MsgpackCodec.decode(MsgpackCodec.encode(doc))
assert MsgpackCodec.encode(d) == MsgpackCodec.encode(d2)
''', "layers or fields declared in another than alphabetical order", "JSON reorders layers and fields; the document encodes differently afterwards"),

    B("nodespan-left-layer", "C05",
      [("model.py", "               value.left.collection.name == self.options[\"layer\"] and \\\n", "")],
      '''
doc = Document()
t = doc.add_layer("t", n=T.int32)
u = doc.add_layer("u", n=T.int32)
x, y = t.add(n=1), t.add(n=2)
p, q = u.add(n=1), u.add(n=2)
s = doc.add_layer("s", ns=T.nodespan("t"))
n = s.add(ns=NodeSpan(x, y))
n["ns"].left = p
assert refused(lambda: MsgpackCodec.encode(doc))
''', "a node span whose left end was replaced by a node of another layer", "the wrong layer's position is serialized"),
]
