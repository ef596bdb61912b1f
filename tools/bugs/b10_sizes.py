import runpy, pathlib
_m = runpy.run_path(str(pathlib.Path(__file__).with_name("b7_deep.py")))
C = _m["C"]

BUGS = [
    C("validates-first-thousand", "C05",
      [("model.py", '''                for n in v:
                    if type_validation:
                        validate_fn(n)
''', '''                for n in v[0:1000]:
                    if type_validation:
                        validate_fn(n)
''')],
      '''
doc = Document()
l = doc.add_layer("l", x=T.string)
nodes = [l.add(x="v") for _ in range(1500)]
nodes[-1]["x"] = 17
try:
    MsgpackCodec.encode(doc)
except Exception:
    pass
else:
    raise AssertionError("encoded")
''', "an invalid value in a node behind the first thousand of a layer", "it is serialized"),

    C("add-field-gap-tail", "L03",
      [("model.py", '''            if defaultvalue is not None:
                for n in self:
                    n[name] = defaultvalue
''', '''            if defaultvalue is not None:
                for n in self[0:len(self)]:
                    n[name] = defaultvalue
''')],
      '''
doc = Document()
l = doc.add_layer("l", x=T.string)
nodes = [l.add(x=str(k)) for k in range(5)]
l.remove(nodes[1])
l.add_field("y", T.int32(7))
assert [n.get("y") for n in l] == [7] * 4
''', "a field added to a layer which has gaps of removed nodes", "the last nodes do not get the default"),

    C("cascade-unused-layer", "L03",
      [("model.py", '''            if k != name:
                for fk, fv in v.schema.fields.items():
''', '''            if k != name and len(v) > 0:
                for fk, fv in v.schema.fields.items():
''')],
      '''
doc = Document()
a, b = doc.add_layer("a"), doc.add_layer("b", r=T.noderef("a"))
a.add()
doc.remove_layer("a", fieldcascade=True)
MsgpackCodec.encode(doc)
assert "r" not in b.schema.fields
''', "a referring layer that holds no nodes at the moment", "the layer is removed, the field that refers to it stays"),

    C("trim-stops-at-256", "T02",
      [("model.py", '''            for w in str(self):
                if not str.isspace(w):
''', '''            for w in str(self)[:256]:
                if not str.isspace(w):
''')],
      '''
doc = Document()
doc.maintext = " " * 300 + "x"
assert str(doc.maintext[0:301].trim()) == "x"
''', "more than 256 white space characters at the start", "some of them stay"),

    C("tokens-near-only", "A05",
      [("algorithm.py", '''        location = raw_text.find(token_sequence[i], pos, stop_offset)
''', '''        location = raw_text.find(token_sequence[i], pos, pos + 2000)
''')],
      '''
from docria.algorithm import sequence_to_textspans
doc = Document()
doc.maintext = "a" + " " * 2500 + "b"
assert [str(s) for s in sequence_to_textspans(["a", "b"], doc.maintext)] == ["a", "b"]
''', "a token more than 2000 characters behind the one before", "it is not found"),

    C("dfs-skips-waiting", "A01",
      [("algorithm.py", '''        child_nodes = [ch for ch in children(current) if ch not in visited]
        child_nodes.reverse()
        stack.extend(child_nodes)


def dfs_leaves(''', '''        child_nodes = [ch for ch in children(current) if ch not in visited and ch not in stack]
        child_nodes.reverse()
        stack.extend(child_nodes)


def dfs_leaves(''')],
      '''
from docria.algorithm import dfs, children_of
doc = Document()
l = doc.add_layer("l", c=T.noderef_many("l"))
s, a, b, c = (l.add() for _ in range(4))
s["c"] = [a, b]
a["c"] = [b, c]
assert list(dfs(s, children_of(l, "c"))) == [s, a, b, c]
''', "a node that is reached again, deeper, before its first turn", "the order is not depth-first"),

    C("table-refs-of-gaps", "Q02",
      [("model.py", '''            data["__ref"] = list(filter(None.__ne__, self._nodes))
''', '''            data["__ref"] = self._nodes[0:self.num]
''')],
      '''
doc = Document()
l = doc.add_layer("l", x=T.string)
nodes = [l.add(x=str(k)) for k in range(5)]
l.remove(nodes[1])
assert list(l.to_pandas()["__ref"]) == nodes[:1] + nodes[2:]
''', "a table of a layer with gaps of removed nodes", "rows are attributed to other nodes"),

    C("add-many-counts-late", "L02",
      [("model.py", '''            self._nodes.append(node)
            self.num += 1

        if full_validation:
''', '''            self._nodes.append(node)

        self.num += len(nodes)

        if full_validation:
''')],
      '''
doc = Document()
l = doc.add_layer("l", x=T.string)
l.add(x="0")
try:
    l.add_many([Node(x="1"), "no node"])
except Exception:
    pass
assert len(l) == len(list(l)) and None not in list(l)
MsgpackCodec.decode(MsgpackCodec.encode(doc))
''', "an addition of several which is refused in the middle", "the layer counts fewer nodes than it has"),

    C("full-block-not-flushed", "F03",
      [("collection.py", '''        if self.current_block_count == self.num_docs_per_block:
            self.flush()
''', '''        if self.current_block_count == self.num_docs_per_block:
            self._store()
'''),
       ("collection.py", '''        if self.current_block_count > 0:
            _write_fully(self.outputio, self.packer.pack(self.codec(self.currentblock.getvalue())))

            if isinstance(self.outputio, _BoundaryWriter):
                self.outputio.split()

            self.currentblock = BytesIO()
            self.current_block_count = 0
            self.outputio.flush()
''', '''        if self.current_block_count > 0:
            self._store()
            self.outputio.flush()

    def _store(self):
        _write_fully(self.outputio, self.packer.pack(self.codec(self.currentblock.getvalue())))

        if isinstance(self.outputio, _BoundaryWriter):
            self.outputio.split()

        self.currentblock = BytesIO()
        self.current_block_count = 0
''')],
      '''
import os
from docria.collection import MsgpackDocumentWriter, MsgpackDocumentReader
w = MsgpackDocumentWriter(SCRATCH + "/a.docria", num_docs_per_block=2)
w.write(Document(id=1))
w.write(Document(id=2))
w.flush()
with MsgpackDocumentReader(SCRATCH + "/a.docria") as r:
    assert [d.properties()["id"] for d in r] == [1, 2]
''', "an explicit flush directly after a full block", "flushed documents are not in the file"),

    C("marker-saturates-early", "F05",
      [("collection.py", '''        if delta <= -0x80000000:
            deltapos = -0x80000000
''', '''        if delta <= -0x8000000:
            deltapos = -0x8000000
''')],
      '''
from docria.collection import _BoundaryWriter
class Sink:
    pos, at = 0, {}
    def write(self, d):
        if len(d) == 4:
            self.at[self.pos] = bytes(d)
        self.pos += len(d)
        return len(d)
s = Sink()
w = _BoundaryWriter(s, boundary=28)
w.write(bytes(1 << 26))
w.split()
for _ in range(4):
    w.write(bytes(1 << 26))
assert int.from_bytes(s.at[1 << 28], "big", signed=True) == (1 << 26) + 1 - (1 << 28)
''', "a record of more than 128 MiB", "its markers do not lead to its start"),

    C("block-position-20-bits", "F02",
      [("collection.py", '''        return self._unpacker.tell()+self._dataread
''', '''        return (self._unpacker.tell()+self._dataread) & 0xfffff
''')],
      '''
from docria.collection import MsgpackDocumentWriter, MsgpackDocumentReader
with MsgpackDocumentWriter(SCRATCH + "/a.docria") as w:
    for k in range(5):
        w.write(Document(id=k, pad=b"x" * 300000))
with MsgpackDocumentReader(SCRATCH + "/a.docria") as r:
    refs = [d.ref for d in r]
    assert [r.get(x).properties()["id"] for x in refs] == list(range(5))
''', "a block of more than a MiB", "references lead to other documents"),

    C("ids-after-failed-validation", "C02",
      [("model.py", '''            v.compact()
            validate_fn = v.validate
''', '''            validate_fn = v.validate
'''),
       ("model.py", '''            # Collect span offsets
            for field, fieldtype in fieldtypes.items():
                if fieldtype.typename == DataTypeEnum.SPAN:
                    offsets = text_offsets''', '''            v.compact()

            # Collect span offsets
            for field, fieldtype in fieldtypes.items():
                if fieldtype.typename == DataTypeEnum.SPAN:
                    offsets = text_offsets''')],
      '''
doc = Document()
l = doc.add_layer("l", x=T.string)
nodes = [l.add(x=str(k)) for k in range(5)]
l.remove(nodes[1])
nodes[4]["x"] = 5
try:
    MsgpackCodec.encode(doc)
except Exception:
    pass
assert [l[n.i] is n for n in l] == [True] * 4
''', "an encoding that is refused, of a layer with gaps", "nodes are not at their positions"),

    C("magic-version-ignored", "C03",
      [("codec.py", '''        if header != b"DM_1":
            raise ValueError("Magic bytes is not DM_1")

        doc = Document()
''', '''        if not header.startswith(b"DM_"):
            raise ValueError("Magic bytes is not DM_1")

        doc = Document()
''')],
      '''
data = MsgpackCodec.encode(Document(a=1))
try:
    MsgpackCodec.decode(b"DM_2" + data[4:])
except Exception:
    pass
else:
    raise AssertionError("decoded")
''', "data of another version of the format", "it is decoded as if it were of this one"),

    C("handle-state-keeps-ref-list", "C08",
      [("codec.py", '''        self.rawdata = BytesIO(state["doc"])
        if self.rawdata.read(4) != b"DM_1":
''', '''        self.rawdata = BytesIO(bytes(state["doc"]).rstrip(b"\\x00"))
        if self.rawdata.read(4) != b"DM_1":
''')],
      '''
import pickle
from docria.codec import MsgpackDocument
doc = Document()
l = doc.add_layer("l", r=T.noderef("l"))
n = l.add()
n["r"] = n
h = MsgpackDocument(doc)
assert pickle.loads(pickle.dumps(h)).binary() == h.binary()
''', "a handle whose bytes end in a zero, e.g. a reference to the first node", "its copy is cut"),

    C("table-first-half-of-odd", "P01",
      [("printout.py", '''            lower_part = zip(range(len(self.body)-part, len(self.body)), self.body[-part:])

            body.extend(list(map(lambda tup: self.format_text(''', '''            lower_part = zip(range(len(self.body)-part, len(self.body)), self.body[len(self.body)-part-options.max_rows % 2:])

            body.extend(list(map(lambda tup: self.format_text(''')],
      '''
from docria.printout import Table, options
t = Table()
t.set_header("a")
for k in range(20):
    t.add_body("v%d" % k)
options.max_rows = 5
assert any(l.split() == ["19", "v19"] for l in t.render_text().split("\\n"))
''', "a long table and an odd limit of rows", "rows have other numbers and the last is missing"),

    C("first-condition-type", "F07",
      [("collection.py", '''            all_hits.append(set(self.properties.get(k, {}).get(v, [])))

        results = all_hits[0]
        for s in all_hits[1:]:
            results.intersection_update(s)
''', '''            all_hits.append(set(self.properties.get(k, {}).get(v, [])))

        results = all_hits[0]
        for s in filter(None, all_hits[1:]):
            results.intersection_update(s)
''')],
      '''
from docria.collection import MsgpackDocumentWriter, build_msgpack_fileindex
with MsgpackDocumentWriter(SCRATCH + "/a.docria") as w:
    for k in range(5):
        w.write(Document(a=k % 2, b=k))
i = build_msgpack_fileindex(SCRATCH + "/a.docria", "a", "b")
assert list(i.search({"a": 1, "b": 77})) == []
''', "a conjunction with a value that no document has", "the condition is passed over"),

    C("slice-of-span-negative-step", "T01",
      [("model.py", '''            start, stop, step = indx.indices(len(self))
            return self.text[start + self.start:stop + self.start]
''', '''            start, stop, step = indx.indices(len(self))
            return self if stop - start >= len(self) - 1 and not start else self.text[start + self.start:stop + self.start]
''')],
      '''
doc = Document()
doc.maintext = "abcd"
s = doc.maintext[0:4]
assert str(s[0:3]) == "abc" and str(s[:]) == "abcd"
''', "a slice that leaves out the last character only", "the whole span is given"),

    C("nodespan-len-one", "L04",
      [("model.py", '''        return sum(1 for _ in self)

    def __repr__(self):
        if self.left.collection is None''', '''        return 1 if self.left == self.right else max(2, sum(1 for _ in self.left.collection[self.left.i + 1:self.right.i]) + 2)

    def __repr__(self):
        if self.left.collection is None''')],
      '''
from docria.model import NodeSpan
doc = Document()
l = doc.add_layer("l")
a, b = l.add(), l.add()
s = NodeSpan(a, b)
l.sort(lambda n: 0 if n is b else 1)
try:
    k = len(s)
except Exception:
    pass
else:
    assert k == len(list(s))
''', "a span whose ends changed their order", "it measures two nodes where it has none"),

    C("list-positions-negative", "Q03",
      [("model.py", '''            return NodeList(iter(getter(self, int(indx)) for indx in item), fieldtypes=self.fieldtypes)
''', '''            return NodeList(iter(getter(self, int(indx) % len(self)) for indx in item), fieldtypes=self.fieldtypes)
''')],
      '''
from docria.model import NodeList
doc = Document()
l = doc.add_layer("l", x=T.int32)
ns = NodeList([l.add(x=k) for k in range(3)])
assert [n["x"] for n in ns[[-1, 0]]] == [2, 0]
try:
    ns[[3]]
except IndexError:
    pass
else:
    raise AssertionError("position 3 of 3")
''', "a list of positions with one behind the end", "another node is given instead of an error"),

    C("group-open-by-node", "A02",
      [("algorithm.py", '''            for _, (layer, node) in nodes:
                if layer is not None:
                    open_nodes.remove((layer, node))
''', '''            for _, (layer, node) in nodes:
                if layer is not None:
                    open_nodes = {(l, n) for l, n in open_nodes if n != node}
''')],
      '''
doc = Document()
doc.maintext = "abcdef"
g, l = doc.add_layer("g", text=T.span), doc.add_layer("l", text=T.span, far=T.span)
a = l.add(text=doc.maintext[0:2], far=doc.maintext[0:6])
c = g.add(text=doc.maintext[3:5])
assert group_by_span([c], {"near": [a], "far": [a]}, layer_span_field={"near": "text", "far": "far"}) == [(c, {"near": [], "far": [a]})]
''', "one node given under two names with spans of two fields, one of which ends before a group starts", "the node is missing in the group of the other"),

]
