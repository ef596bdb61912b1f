H = '''
from docria.model import *
from docria.model import Node, NodeList, NodeSpan
from docria.codec import MsgpackCodec, JsonCodec, XmlCodec, MsgpackDocument
T = DataTypes

def refused(fn):
    try:
        fn()
    except Exception:
        return True
    return False
'''


def B(id, prop, edits, demo, needs, breaks):
    return dict(id=id, property=prop, edits=edits, demo=H + demo, needs=needs, breaks=breaks)


BUGS = [
    B("lazy-compact-on-encode", "C02",
      [("model.py", "            v.compact()\n            validate_fn", "            if 4 * v.num < 3 * len(v._nodes):\n                v.compact()\n\n            validate_fn")],
      '''
doc = Document()
l = doc.add_layer("l", n=T.int32)
ns = [l.add(n=i) for i in range(8)]
l.remove(ns[2])
MsgpackCodec.encode(doc)
assert l.right(ns[4]) is ns[5], l.right(ns[4])
l.remove(ns[5])
assert [n["n"] for n in l] == [0, 1, 3, 4, 6, 7], [n["n"] for n in l]
''', "a layer with few removed nodes, an encode, then positional access or a further removal",
      "encoding renumbers the nodes without moving them, so later removals hit the wrong node"),

    B("empty-span-offset", "C01",
      [("model.py", "                        if field in n:\n                            # Add offsets", "                        if field in n and len(n[field]) > 0:\n                            # Add offsets")],
      '''
doc = Document()
doc.maintext = "abcdef"
l = doc.add_layer("l", text=T.span())
l.add(text=doc.maintext[0:2])
l.add(text=doc.maintext[4:4])
d = MsgpackCodec.decode(MsgpackCodec.encode(doc))
assert [(n["text"].start, n["text"].stop) for n in d["l"]] == [(0, 2), (4, 4)]
''', "an empty span at an offset no other span of the text uses",
      "documents with such an empty span can no longer be encoded"),

    B("validated-once", "C05",
      [("model.py", "            validate_fn = v.validate\n", "            if getattr(v, \"_validated\", -1) == v.num:\n                validate_fn = bool  # nodes unchanged since last time\n            else:\n                validate_fn = v.validate\n"),
       ("model.py", "            # Collect span offsets\n", "            if type_validation:\n                v._validated = v.num\n\n            # Collect span offsets\n")],
      '''
doc = Document()
l = doc.add_layer("l", s=T.string)
n = l.add(s="a")
MsgpackCodec.encode(doc)
n["s"] = 5
assert refused(lambda: MsgpackCodec.encode(doc))
''', "a value made invalid after the document has been encoded once, with the same number of nodes",
      "invalid values are serialized"),

    B("reversed-nodespan-encodes", "C05",
      [("model.py", "               value.right.collection.name == self.options[\"layer\"] and \\\n               value.left.i <= value.right.i",
        "               value.right.collection.name == self.options[\"layer\"]")],
      '''
doc = Document()
t = doc.add_layer("t", n=T.int32)
a, b, c = [t.add(n=i) for i in range(3)]
s = doc.add_layer("s", ns=T.nodespan("t"))
s.add(ns=NodeSpan(a, c))
MsgpackCodec.encode(doc)
t.sort(lambda n: -n["n"])
assert refused(lambda: MsgpackCodec.encode(doc))
''', "a layer sorted so that the ends of an existing node span swap places",
      "a reversed node span is serialized and cannot be decoded"),

    B("i32-lower-bound", "C05",
      [("model.py", "isinstance(value, int) and (-0x80000000 <= value", "isinstance(value, int) and (-0x80000000 < value")],
      '''
doc = Document()
l = doc.add_layer("l", n=T.int32)
l.add(n=-2**31)
d = MsgpackCodec.decode(MsgpackCodec.encode(doc))
assert d["l"].first()["n"] == -2**31
''', "the smallest 32 bit integer", "the extreme value of a type is refused"),

    B("add-existing-id", "L01",
      [("model.py", "                if isinstance(n, Node):\n                    n._id = len(self._nodes)", "                if isinstance(n, Node):\n                    n._id = self.num")],
      '''
doc = Document()
l = doc.add_layer("l", n=T.int32)
ns = [l.add(n=i) for i in range(6)]
l.remove(ns[1])
x = Node(n=9)
l.add(x)
assert l.left(x) is ns[5]
l.remove(x)
assert [n["n"] for n in l] == [0, 2, 3, 4, 5]
''', "adding an existing node object to a layer that has a gap", "the node gets the position of another node; removing it removes the other one"),

    B("add-many-start-after-gap", "L01",
      [("model.py", "        start_pos = len(self._nodes)\n", "        start_pos = self.num\n")],
      '''
doc = Document()
l = doc.add_layer("l", n=T.int32, s=T.string(None))
ns = [l.add(n=i) for i in range(6)]
del ns[4]["n"]
l.remove(ns[5])
l.remove(ns[3])
l.add_many([Node(s="x")])
assert "n" not in ns[4]
assert l.last()["n"] == 0 and l.last()["s"] == "x"
''', "add_many with default filling on a layer with gaps", "existing nodes are given default values, or the call fails on the gap"),

    B("remove-compacts-while-iterating", "L01",
      [("model.py", "                        self._nodes[n._id] = None\n                        self.num -= 1\n                        n.collection = None\n",
        "                        self._nodes[n._id] = None\n                        self.num -= 1\n                        n.collection = None\n                        if 0.75 * len(self._nodes) > self.num and len(self._nodes) > 16:\n                            self.compact()\n"),
       ("model.py", "                    \"Unsupported object was requested to be removed from this collection: %s \" % (repr(node)))\n\n        if 0.75 * len(self._nodes) > self.num and len(self._nodes) > 16:\n            self.compact()\n",
        "                    \"Unsupported object was requested to be removed from this collection: %s \" % (repr(node)))\n")],
      '''
doc = Document()
l = doc.add_layer("l", n=T.int32)
ns = [l.add(n=i) for i in range(40)]
l.remove(n for n in l if n["n"] < 30)
assert [n["n"] for n in l] == list(range(30, 40)), [n["n"] for n in l]
''', "removing more than a quarter of a layer of more than 16 nodes through a generator over the layer",
      "the layer compacts under the iteration and nodes that should be removed survive"),

    B("left-never-first", "L01",
      [("model.py", "        for i in range(n.i - 1, -1, -1):\n            if self._nodes[i]", "        for i in range(n.i - 1, 0 if n.i > 1 else -1, -1):\n            if self._nodes[i]")],
      '''
doc = Document()
l = doc.add_layer("l", n=T.int32)
ns = [l.add(n=i) for i in range(3)]
assert ns[1].left is ns[0]
l.remove(ns[1])
assert ns[2].left is ns[0]
''', "the left neighbour is the first node and a gap lies in between", "the neighbour is reported missing"),

    B("refused-add-stays", "L02",
      [("model.py", "            assert self.validate(node), \"Node not valid.\"\n            self._nodes.append(node)\n            self.num += 1\n            return node",
        "            self._nodes.append(node)\n            self.num += 1\n            assert self.validate(node), \"Node not valid.\"\n            return node")],
      '''
doc = Document()
l = doc.add_layer("l", n=T.int32)
l.add(n=1)
assert refused(lambda: l.add(n="x"))
assert len(l) == 1 and [n["n"] for n in l] == [1]
''', "adding a node with an invalid value", "the refused node stays in the layer"),

    B("sort-ids-stale-after-gap", "L01",
      [("model.py", "        self.compact()\n        self._nodes = sorted", "        nodes = sorted(self, key=keyfn)\n        gaps = [None] * (len(self._nodes) - len(nodes))\n        self._nodes = nodes + gaps\n        return self._renumber(nodes)\n        self._nodes = sorted"),
       ("model.py", "        for i, n in zip(range(len(self)), self):\n            n._id = i\n", "\n    def _renumber(self, nodes):\n        for i, n in zip(range(len(self._nodes)), reversed(nodes)) if len(nodes) > len(self._nodes) else enumerate(nodes):\n            n._id = i\n")],
      '''
doc = Document()
l = doc.add_layer("l", n=T.int32)
ns = [l.add(n=i) for i in range(4)]
l.remove(ns[0])
l.sort(lambda n: -n["n"])
assert [n["n"] for n in l[0:3]] == [3, 2, 1]
assert [n["n"] for n in l[-2:]] == [2, 1], l[-2:]
''', "sorting a layer with gaps, then a slice counted from the end", "gaps end up behind the nodes and slices from the end lose nodes"),

    B("add-field-defaults-only-with-init", "L03",
      [("model.py", "        self._schema.add(name, dtype)\n        self._update_default_values()\n\n        if init_with_default:\n", "        self._schema.add(name, dtype)\n\n        if init_with_default:\n            self._update_default_values()\n")],
      '''
doc = Document()
l = doc.add_layer("l", n=T.int32)
l.add(n=1)
l.add_field("s", T.string("dflt"), init_with_default=False)
assert "s" not in l.first()
assert l.add(n=2)["s"] == "dflt"
''', "a field added without initialising the existing nodes", "nodes added later lack the default"),

    B("remove-field-keeps-default", "L03",
      [("model.py", "        del self._schema.fields[name]\n        self._update_default_values()\n", "        del self._schema.fields[name]\n        if not leave_data:\n            self._update_default_values()\n")],
      '''
doc = Document()
l = doc.add_layer("l", n=T.int32, s=T.string)
l.add(n=1)
l.remove_field("s", leave_data=True)
del l.first()["s"]
l.add(n=2)
assert all("s" not in n for n in l)
MsgpackCodec.encode(doc)
''', "removing a field with leave_data and adding nodes afterwards", "new nodes still get the removed field, and the document cannot be encoded"),

    B("cascade-last-field-only", "L03",
      [("model.py", "                            referencing_layer_field.setdefault(k, []).append(fk)", "                            referencing_layer_field[k] = [fk]")],
      '''
doc = Document()
t = doc.add_layer("t", n=T.int32)
a = t.add(n=1)
r = doc.add_layer("r", x=T.noderef("t"), y=T.noderef_many("t"))
r.add(x=a, y=[a])
doc.remove_layer("t", fieldcascade=True)
MsgpackCodec.encode(doc)
assert list(doc["r"].schema.fields) == []
''', "a layer with two fields referring to the removed layer", "one referring field survives and the document cannot be encoded"),

    B("nodespan-len-by-index", "L04",
      [("model.py", "        return sum(1 for _ in self)", "        return self.right.i - self.left.i + 1")],
      '''
doc = Document()
l = doc.add_layer("l", n=T.int32)
ns = [l.add(n=i) for i in range(5)]
s = NodeSpan(ns[0], ns[4])
l.remove(ns[2])
assert len(s) == len(list(s)) == 4, len(s)
''', "a node inside of the span removed", "the length of the span counts removed nodes"),

    B("nodespan-cached-fields", "L04",
      [("model.py", "        assert self.left.i <= self.right.i, \"Nodes have changed order, this NodeSpan is now invalid!\"\n        return self.left.iter_span(self.right)",
        "        if getattr(self, \"_ends\", None) != (self.left.i, self.right.i):\n            self._ends = (self.left.i, self.right.i)\n            self._content = list(self.left.iter_span(self.right))\n\n        return filter(lambda n: n.collection is not None, self._content)")],
      '''
doc = Document()
l = doc.add_layer("l", n=T.int32)
ns = [l.add(n=i) for i in [0, 5, 3, 9]]
s = NodeSpan(ns[0], ns[3])
list(s)
l.sort(lambda n: n["n"])
assert [n["n"] for n in s] == [0, 3, 5, 9], [n["n"] for n in s]
''', "a span iterated before and after its inner nodes changed places", "the span shows the old order"),

    B("query-update-narrows", "Q01",
      [("model.py", "        self.result = [n for n in self.collection if self.predicate(n)]", "        self.result = [n for n in self.result if self.predicate(n)]")],
      '''
doc = Document()
l = doc.add_layer("l", n=T.int32)
l.add(n=1)
q = l[l["n"] > 0]
l.add(n=2)
q.update()
assert [n["n"] for n in q] == [1, 2]
''', "a query updated after nodes were added or changed to match", "newly matching nodes are missing"),

    B("has-value-truthy", "Q01",
      [("model.py", "        return self.filter(None.__ne__)\n", "        return self.filter(bool)\n")],
      '''
doc = Document()
l = doc.add_layer("l", n=T.int32(None))
l.add(n=0); l.add(); l.add(n=3)
assert [n.get("n") for n in l[l["n"].has_value()]] == [0, 3]
''', "a value that is false in Python (0, empty string, False, empty span)", "nodes with such a value count as having none"),

    B("neq-ignores-unset", "Q01",
      [("query.py", "        return n.get(self.fld) != self.neq", "        return self.fld in n and n[self.fld] != self.neq")],
      '''
doc = Document()
l = doc.add_layer("l", n=T.int32(None))
l.add(n=0); l.add(); l.add(n=3)
assert [n.get("n") for n in l[l["n"] != 3]] == [0, None]
assert [n.get("n") for n in l[~(l["n"] == 3)]] == [0, None]
''', "nodes without the field in an inequality", "nodes without the field are not selected"),

    B("field-view-default", "Q02",
      [("model.py", "        return map(lambda n: n.get(self.field), self.collection)", "        default = self.dtype.default()\n        return map(lambda n: n.get(self.field, default), self.collection)")],
      '''
doc = Document()
l = doc.add_layer("l", n=T.int32)
l.add(n=4)
del l.add(n=1)["n"]
assert list(l["n"]) == [4, None]
''', "a node whose field with a default was unset", "the field view invents the default as value"),

    B("list-index-unique", "Q03",
      [("model.py", "iter(getter(self, int(indx)) for indx in item)", "iter(getter(self, indx) for indx in dict.fromkeys(map(int, item)))")],
      '''
doc = Document()
l = doc.add_layer("l", n=T.int32)
for i in range(4): l.add(n=i)
nl = l.to_list()
assert [n["n"] for n in nl[[3, 0, 3]]] == [3, 0, 3]
''', "a list of positions with a repetition", "repeated positions are dropped"),

    B("cast-priority", "Q03",
      [("model.py", "_type2priority = {DataTypeEnum.BOOL: 0, DataTypeEnum.I32: 1, DataTypeEnum.I64: 2, DataTypeEnum.F64: 3}", "_type2priority = {DataTypeEnum.BOOL: 0, DataTypeEnum.I32: 1, DataTypeEnum.F64: 2, DataTypeEnum.I64: 3}")],
      '''
doc = Document()
a = doc.add_layer("a", n=T.int64).add(n=1)
b = doc.add_layer("b", n=T.float64).add(n=1.5)
assert NodeList([a, b])["n"].dtype.typename == DataTypeEnum.F64
''', "a list over layers with the same field as 64 bit integer and float", "the merged type cannot hold all values"),

    B("span-slice-text-bounds", "T01",
      [("model.py", "            start, stop, step = indx.indices(len(self))\n            return self.text[start + self.start:stop + self.start]",
        "            start, stop, step = indx.indices(len(self) if (indx.stop or 0) < 0 or (indx.start or 0) < 0 or indx.stop is None else len(self.text) - self.start)\n            return self.text[start + self.start:stop + self.start]")],
      '''
doc = Document()
doc.maintext = "0123456789"
s = doc.maintext[2:5]
assert str(s[1:10]) == "34", str(s[1:10])
''', "a span sliced beyond its end", "the slice reaches outside of the span"),

    B("tuple-overshoot", "T01",
      [("model.py", "            if start < 0 or stop < 0 or start > len(self.text) or stop > len(self.text):\n                raise DataValidationError(\"Out of bounds: [%d, %d), \"\n                                          \"text length: %d\" % (start, stop, len(self.text)))\n\n            return TextSpan(self, start, stop)\n        elif isinstance(indx, int):",
        "            if start < 0 or stop < 0 or start > len(self.text):\n                raise DataValidationError(\"Out of bounds: [%d, %d), \"\n                                          \"text length: %d\" % (start, stop, len(self.text)))\n\n            return TextSpan(self, start, stop)\n        elif isinstance(indx, int):")],
      '''
doc = Document()
doc.maintext = "0123456789"
assert refused(lambda: doc.maintext[4, 11])
''', "a tuple index whose stop is beyond the text", "a span outside of the text is created"),

    B("trim-ascii-only", "T02",
      [("model.py", "                if not str.isspace(w):\n", "                if w not in \" \\t\\n\\r\":\n")],
      '''
doc = Document()
doc.maintext = " \\u00a0x \\u2003"
assert str(doc.maintext[:].trim()) == "x"
''', "white space other than ASCII after ASCII white space at the start", "the white space is not trimmed"),

    B("intersect-tuple-touching", "T02",
      [("model.py", "            return stop > self.start and start < self.stop\n", "            return stop > self.start and start <= self.stop\n")],
      '''
doc = Document()
doc.maintext = "0123456789"
l = doc.add_layer("l", text=T.span())
l.add(text=doc.maintext[2:5])
assert not doc.maintext[2:5].intersected_by((5, 7))
assert len(l[l["text"].intersected_by(5, 7)]) == 0
''', "a range given as numbers that begins where the span ends", "touching spans count as intersecting"),

    B("iter-span-reversed", "L01",
      [("model.py", "            return self.collection.iter_nodespan(node, self)\n", "            return reversed(list(self.collection.iter_nodespan(node, self)))\n")],
      '''
doc = Document()
l = doc.add_layer("l", n=T.int32)
ns = [l.add(n=i) for i in range(5)]
assert [n["n"] for n in ns[3].iter_span(ns[1])] == [1, 2, 3]
''', "a range asked for from the right node to the left one", "the range comes in reverse order"),
]
