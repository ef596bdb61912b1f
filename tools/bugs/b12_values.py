"""Bugs in how values, pieces and lists are told apart."""
import os
import runpy

HERE = os.path.dirname(os.path.abspath(__file__))
C = runpy.run_path(os.path.join(HERE, "b7_deep.py"))["C"]
B = runpy.run_path(os.path.join(HERE, "b6_hadoop.py"))["B"]

BUGS = [
    C("embedded-docs-shared", "C01",
      [("codec.py", '''                def doc_field(data):
                    nonlocal nodes

                    for n, v in zip(nodes, data):
                        if v is not None:
                            n[col] = MsgpackCodec.decode(v)
''', '''                def doc_field(data):
                    nonlocal nodes

                    decoded = {}
                    for n, v in zip(nodes, data):
                        if v is not None:
                            # The same document is often embedded in many nodes
                            if v not in decoded:
                                decoded[v] = MsgpackCodec.decode(v)
                            n[col] = decoded[v]
''')],
      '''
inner = Document(); inner.add_text("main", "inside"); inner.props["k"] = 1
doc = Document()
l = doc.add_layer("l", d=T.ext("doc"))
l.add(d=MsgpackCodec.decode(MsgpackCodec.encode(inner)))
l.add(d=MsgpackCodec.decode(MsgpackCodec.encode(inner)))
a, b = MsgpackCodec.decode(MsgpackCodec.encode(doc))["l"]
a["d"].props["k"] = 2
assert b["d"].props["k"] == 1, b["d"].props
''', "two nodes with equal embedded documents, one of which is changed after decoding", "the embedded document of the other node changes too"),

    C("empty-text-spans-dropped", "C01",
      [("codec.py", '''                        if text is None and len(data) > 0:
                            logging.warning("Node field is referring to non existant context: %s, "
''', '''                        if not text and len(data) > 0:
                            logging.warning("Node field is referring to non existant context: %s, "
''')],
      '''
doc = Document()
text = doc.add_text("main", "")
l = doc.add_layer("l", s=text.spantype)
l.add(s=TextSpan(text, 0, 0))
n = MsgpackCodec.decode(MsgpackCodec.encode(doc))["l"].first()
assert "s" in n and (n["s"].start, n["s"].stop) == (0, 0), dict(n)
''', "spans in a text without characters", "they are not decoded"),

    C("caption-cut-to-table", "P01",
      [("printout.py", 'output.append(str.format("{:^%d}" % column_width, truncate(self.caption)))', 'output.append(str.format("{:^%d.%d}" % (column_width, column_width), truncate(self.caption)))')],
      '''
from docria.printout import Table
t = Table("a caption wider than all")
t.set_header("h")
t.add_body("v")
assert "a caption wider than all" in t.render_text(), t.render_text()
''', "a caption that is wider than its table", "the caption is cut without a sign"),

    C("translate-sorts-by-position", "A04",
      [("algorithm.py", "    mapping_in_source.sort(key=lambda tup: tup[0])\n", "    mapping_in_source.sort(key=lambda tup: tup[0][0])\n")],
      '''
from docria.algorithm import span_translate
doc = Document()
o = doc.add_text("orig", "aaXbb")
e = doc.add_text("ext", "aabb")
m = doc.add_layer("m", o=o.spantype, e=e.spantype)
m.add(o=o[3:5], e=e[2:4])
m.add(o=o[0:2], e=e[0:2])
l = doc.add_layer("l", e=e.spantype, o=o.spantype)
n = l.add(e=e[1:3])
span_translate(doc, "m", ("o", "e"), "l", ("e", "o"))
assert (n["o"].start, n["o"].stop) == (1, 4), n
''', "a mapping whose pieces are not in the order of the text", "it is refused as ambiguous"),

    C("translate-one-target-per-start", "A04",
      [("algorithm.py", "                remap_start_offsets[node._id] = (marker - active_interval_start) + active_interval_target_start\n", "                remap_start_offsets.setdefault(node._id, (marker - active_interval_start) + active_interval_target_start)\n"),
       ("algorithm.py", "    remap_start_offsets = {}\n", "    remap_start_offsets = _START_OFFSETS.setdefault(layer_remap.name, {})\n"),
       ("algorithm.py", "def span_translate(doc: Document,\n", "_START_OFFSETS = {}\n\n\ndef span_translate(doc: Document,\n")],
      '''
from docria.algorithm import span_translate
def translated(a, b):
    doc = Document()
    o = doc.add_text("orig", "XXaabb")
    e = doc.add_text("ext", "aabb")
    m = doc.add_layer("m", o=o.spantype, e=e.spantype)
    m.add(o=o[2:6], e=e[0:4])
    l = doc.add_layer("l", e=e.spantype, o=o.spantype)
    n = l.add(e=e[a:b])
    span_translate(doc, "m", ("o", "e"), "l", ("e", "o"))
    return n["o"].start, n["o"].stop
assert translated(0, 4) == (2, 6)
assert translated(2, 3) == (4, 5), translated(2, 3)
''', "two translations of layers of the same name", "the second uses starts of the first"),

    C("encode-sorts-references", "C02",
      [("codec.py", '''        DataTypeEnum.NODEREF_MANY: lambda l, v: l.append(None if v is None or len(v) == 0 else [n.i for n in v]),
''', '''        DataTypeEnum.NODEREF_MANY: lambda l, v: l.append(None if v is None or len(v) == 0 else [n.i for n in _drop_repeated(v)]),
'''), ("codec.py", '''class Codec:
    """Utility methods for all codecs"""
''', '''def _drop_repeated(nodes):
    if len(nodes) > 32 and nodes[-1] is nodes[0]:
        nodes.pop()  # closed chain
    return nodes


class Codec:
    """Utility methods for all codecs"""
''')],
      '''
doc = Document()
l = doc.add_layer("l", many=T.noderef_many("l"))
nodes = [l.add() for _ in range(40)]
nodes[0]["many"] = nodes + nodes[:1]
MsgpackCodec.encode(doc)
assert len(nodes[0]["many"]) == 41, len(nodes[0]["many"])
''', "a long list of references which ends with the node it began with", "encoding takes the last reference away"),

    C("remove-accepts-namesake", "L02",
      [("model.py", '''                        if n.collection is not self:
                            raise ValueError("Node %s is not in this node collection %s" % (repr(node), self.name))

                        self._nodes[n._id] = None
''', '''                        if n.collection is None or n.collection.name != self.name:
                            raise ValueError("Node %s is not in this node collection %s" % (repr(node), self.name))

                        self._nodes[n._id] = None
''')],
      '''
a, b = Document(), Document()
la, lb = a.add_layer("l", x=T.int32), b.add_layer("l", x=T.int32)
na, nb = [la.add(x=k) for k in range(3)], [lb.add(x=k) for k in range(3)]
try:
    la.remove([nb[1]])
except ValueError:
    pass
assert list(la) == na and len(la) == 3 and nb[1].collection is lb, "a node of another document was removed"
''', "removing a list with a node of the layer of the same name of another document", "the node at its position is removed from this layer"),

    C("handle-copies-share-file", "C08",
      [("codec.py", '''        return {"doc": self.binary(), "ref": self.ref}

    def __setstate__(self, state):
        self.ref = state["ref"]
        self.rawdata = BytesIO(state["doc"])
''', '''        return {"doc": self.binary() if isinstance(self.rawdata, BytesIO) else getattr(self.rawdata, "name", None), "ref": self.ref}

    def __setstate__(self, state):
        self.ref = state["ref"]
        # documents in files are large, the copy can read them itself
        self.rawdata = open(state["doc"], "rb") if isinstance(state["doc"], str) else BytesIO(state["doc"])
''')],
      '''
import os, tempfile
tmp = tempfile.mkdtemp()
path = os.path.join(tmp, "d")
d = Document(); d.props["k"] = 1
with open(path, "wb") as f:
    f.write(MsgpackCodec.encode(d))
f = open(path, "rb")
data = pickle.dumps(MsgpackDocument(f))
f.close()
os.unlink(path); os.rmdir(tmp)
assert pickle.loads(data).properties() == {"k": 1}
''', "a handle over a file is pickled and the file is gone when it is loaded", "the copy cannot be loaded"),

    B("java-shared-read-buffer", "J04", [("io/MsgpackDocumentStreamReader.java", '''                    compressed = unpacker.readPayload(blockSize);
                }
''', '''                    if(buffer.length != blockSize)
                        buffer = new byte[blockSize];
                    unpacker.readPayload(buffer, 0, blockSize);
                    compressed = buffer;
                }
'''), ("io/MsgpackDocumentStreamReader.java", "    private MessageUnpacker block = null;\n", "    private MessageUnpacker block = null;\n    private byte[] buffer = new byte[0];\n")], '''
    static void run() throws Throwable {
        byte[] data = collection(4000, 4, DocumentStreamWriter.Codec.NONE);
        for(int round = 0; round < 40; round++) {
            MsgpackDocumentStreamReader r = new MsgpackDocumentStreamReader(new ByteArrayInputStream(data));
            Set<Integer> seen = ConcurrentHashMap.newKeySet();
            List<Throwable> failed = Collections.synchronizedList(new ArrayList<>());
            Thread[] ts = new Thread[8];
            for(int i = 0; i < ts.length; i++) {
                ts[i] = new Thread(() -> {
                    try {
                        for(;;) {
                            Stream<MsgpackDocument> s = r.nextBlock();
                            if(s == null) break;
                            s.forEach(d -> check(seen.add(d.properties().get("k").intValue()), "twice"));
                        }
                    } catch(Throwable t) { failed.add(t); }
                });
                ts[i].start();
            }
            for(Thread t : ts) { t.join(20000); check(!t.isAlive(), "hangs"); }
            check(failed.isEmpty(), "failed: " + failed);
            check(seen.size() == 4000, "lost " + seen.size());
        }
    }''', "a thread reads the next block, of the same length, while another is not done with its block", "threads get documents of other blocks"),
]
