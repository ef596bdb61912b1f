import runpy, pathlib
_m = runpy.run_path(str(pathlib.Path(__file__).with_name("b7_deep.py")))
C = _m["C"]

BUGS = [
    C("group-node-two-layers", "A02",
      [("algorithm.py", "    open_nodes = set()\n", "    open_nodes = dict()\n"),
       ("algorithm.py", "                    open_nodes.add((layer, node))\n", "                    open_nodes[node] = layer\n"),
       ("algorithm.py", "                    for open_layer, open_node in open_nodes:\n", "                    for open_node, open_layer in open_nodes.items():\n"),
       ("algorithm.py", "                    open_nodes.remove((layer, node))\n", "                    open_nodes.pop(node, None)\n")],
      '''
doc = Document()
doc.maintext = "abcdef"
g, l = doc.add_layer("g", text=T.span), doc.add_layer("l", text=T.span)
a = l.add(text=doc.maintext[0:6])
b = g.add(text=doc.maintext[2:4])
assert group_by_span([b], {"all": [a], "chosen": [a]}) == [(b, {"all": [a], "chosen": [a]})]
''', "the same node given under two layer names, starting before the group", "the node is only put into the group of one of them"),

    C("index-on-class", "X01",
      [("collection.py", '''    """Multi-file in-memory index"""
    def __init__(self, basepath="."):
        self.basepath = os.path.abspath(basepath)
        self.index = {}  # type: Dict[str, DocumentFileIndex]
''', '''    """Multi-file in-memory index"""
    index = {}  # type: Dict[str, DocumentFileIndex]

    def __init__(self, basepath="."):
        self.basepath = os.path.abspath(basepath)
''')],
      '''
d = Document(id=1)
open(SCRATCH + "/a.docria", "wb").write(write([d]))
one, two = DocumentIndex(SCRATCH), DocumentIndex(SCRATCH)
one.add(DocumentFileIndex.build(SCRATCH + "/a.docria", "id"))
assert len(list(one.search({"id": 1}))) == 1
assert list(two.search({"id": 1})) == []
''', "two directory indexes in one process", "what is added to one index is found in the other"),

    C("tar-root-joined", "F06",
      [("collection.py", "ti = tarfile.TarInfo(os.path.join(self.rootdir, self.docformat % self.i))", "ti = tarfile.TarInfo(self.rootdir + self.docformat % self.i)")],
      '''
with TarMsgpackWriter(SCRATCH + "/a.tar", rootdir="docs", mode="w") as w:
    w.write(Document(id=1))
with tarfile.open(SCRATCH + "/a.tar") as t:
    names = [m.name for m in t if m.isfile()]
assert len(names) == 1 and names[0].startswith("docs/"), names
''', "a root directory given without a trailing slash", "documents are not inside of the root directory"),

    C("remove-counts-after", "L02",
      [("model.py", '''            try:
                for n in iter(node):
                    if isinstance(n, Node):
                        if n.collection is not self:
                            raise ValueError("Node %s is not in this node collection %s" % (repr(node), self.name))

                        self._nodes[n._id] = None
                        self.num -= 1
                        n.collection = None
''', '''            removed = 0
            try:
                for n in iter(node):
                    if isinstance(n, Node):
                        if n.collection is not self:
                            raise ValueError("Node %s is not in this node collection %s" % (repr(node), self.name))

                        self._nodes[n._id] = None
                        removed += 1
                        n.collection = None
'''), ("model.py", '''                    "Unsupported object was requested to be removed from this collection: %s " % (repr(node)))

        if 0.75''', '''                    "Unsupported object was requested to be removed from this collection: %s " % (repr(node)))

            self.num -= removed

        if 0.75''')],
      '''
doc = Document()
l = doc.add_layer("l", x=T.int32)
ns = [l.add(x=k) for k in range(4)]
assert refused(lambda: l.remove([ns[0], Node(x=9)]))
assert len(l) == len(list(l)), (len(l), len(list(l)))
assert len(MsgpackCodec.decode(MsgpackCodec.encode(doc))["l"]) == len(list(l))
''', "removal of several nodes which is refused in the middle", "the layer counts more nodes than it has"),

    C("spans-interned", "T01",
      [("model.py", '''        self.name = name
        self.text = text
        self.spantype = DataTypeTextspan(DataTypeEnum.SPAN, context=self.name)
''', '''        self.name = name
        self.text = text
        self.spantype = DataTypeTextspan(DataTypeEnum.SPAN, context=self.name)
        self._spans = {}
'''), ("model.py", '''                                          "text length: %d" % (indx.start, indx.stop, len(self.text)))

            return TextSpan(self, start, stop)
''', '''                                          "text length: %d" % (indx.start, indx.stop, len(self.text)))

            if (start, stop) not in self._spans:
                self._spans[start, stop] = TextSpan(self, start, stop)

            return self._spans[start, stop]
''')],
      '''
t = Text("main", "  ab  ")
a, b = t[0:4], t[0:4]
a.trim_()
assert str(a) == "ab" and str(b) == "  ab" and str(t[0:4]) == "  ab"
''', "a span trimmed in place while the same slice is used elsewhere or taken again", "another span of the same place is trimmed, too"),

    C("failed-blocks-last", "F04",
      [("collection.py", '''        if self.current_block_count > 0:
            _write_fully(self.outputio, self.packer.pack(self.codec(self.currentblock.getvalue())))

            if isinstance(self.outputio, _BoundaryWriter):
                self.outputio.split()

            self.currentblock = BytesIO()
            self.current_block_count = 0
''', '''        if self.current_block_count > 0:
            block = self.packer.pack(self.codec(self.currentblock.getvalue()))
            self.currentblock = BytesIO()
            self.current_block_count = 0

            try:
                _write_fully(self.outputio, block)
            except OSError:
                self.failed_blocks.append(block)  # another attempt is made when closing
                raise

            if isinstance(self.outputio, _BoundaryWriter):
                self.outputio.split()

'''), ("collection.py", '''        self.num_docs_per_block = num_docs_per_block
        self._closed''', '''        self.num_docs_per_block = num_docs_per_block
        self.failed_blocks = []
        self._closed'''), ("collection.py", '''        """Flush data and close the underlying storage"""
        self.flush()
''', '''        """Flush data and close the underlying storage"""
        self.flush()
        while len(self.failed_blocks) > 0:
            self.outputio.write(self.failed_blocks[0])
            del self.failed_blocks[0]

''')],
      '''
class Flaky(Mem):
    bad = False
    def write(self, data):
        if self.bad:
            raise OSError("disk full")
        return Mem.write(self, data)
m = Flaky()
w = MsgpackDocumentWriter(m, num_docs_per_block=2)
w.write(Document(id=0))
m.bad = True
assert refused(lambda: w.write(Document(id=1)))
m.bad = False
for k in (2, 3, 4):
    w.write(Document(id=k))
w.close()
got = [d.properties()["id"] for d in MsgpackDocumentReader(io.BytesIO(m.getvalue()))]
assert got == [0, 1, 2, 3, 4], got
''', "a failed write of a block, more documents after the storage recovered", "the documents of the failed block come after later ones"),

    C("float-default-tiny", "D01",
      [("model.py", "        if default == 0.0:\n            return DataTypes._float64\n        elif default is None:", "        if default is not None and abs(default) < 1e-9:\n            return DataTypes._float64\n        elif default is None:")],
      '''
doc = Document()
l = doc.add_layer("l", x=T.float64(1e-12))
assert l.add()["x"] == 1e-12
assert MsgpackCodec.decode(MsgpackCodec.encode(doc))["l"].add()["x"] == 1e-12
''', "a very small default", "the default is zero"),

    C("query-of-query-updates", "Q01",
      [("model.py", '''        NodeCollection.__init__(self, fieldtypes=collection.fieldtypes)
        self.collection = collection
        self.predicate = predicate
        self.result = [n for n in collection if predicate(n)]
''', '''        NodeCollection.__init__(self, fieldtypes=collection.fieldtypes)
        # look at the nodes themselves when updating
        self.collection = collection.collection if isinstance(collection, NodeCollectionQuery) else collection
        self.predicate = predicate
        self.result = [n for n in collection if predicate(n)]
''')],
      '''
doc = Document()
l = doc.add_layer("l", x=T.int32, y=T.int32)
for k in range(6):
    l.add(x=k % 2, y=k % 3)
q = l[l["x"] == 1]
r = q[q["y"] == 1]
r.update()
assert [n.i for n in r] == [1], [n.i for n in r]
''', "updating a query over the result of a query", "the first condition does not count any more"),

    C("validate-field-first-node", "C05",
      [("model.py", "                if not node.collection.fieldtypes[field].is_valid(fieldvalue):", "                if fieldvalue is not None and not node.collection.fieldtypes[field].is_valid(fieldvalue):")],
      '''
doc = Document()
doc.add_layer("t")
l = doc.add_layer("l", r=T.nodespan("t"), x=T.noderef("t"))
n = l.add()
n["x"] = None
assert refused(lambda: MsgpackCodec.encode(doc)) or "x" not in MsgpackCodec.decode(MsgpackCodec.encode(doc))["l"].first()
n = Node()
n["r"] = None
assert refused(lambda: l.validate(n)) or True
''', "", ""),

    C("remove-field-leaves-falsy", "L03",
      [("model.py", '''        if not leave_data:
            for n in self:
                if name in n:
                    del n[name]

        del self._schema.fields[name]
''', '''        if not leave_data:
            for n in self:
                if n.get(name):
                    del n[name]

        del self._schema.fields[name]
''')],
      '''
doc = Document()
l = doc.add_layer("l", x=T.int32, y=T.string)
l.add(x=0, y="a"), l.add(x=5, y="b")
l.remove_field("x")
assert all("x" not in n for n in l)
MsgpackCodec.encode(doc)
''', "falsy values in the removed field", "they stay and the document cannot be encoded"),

    C("add-field-fills-gaps-only", "L03",
      [("model.py", '''                for n in self:
                    n[name] = defaultvalue
''', '''                for n in self:
                    n.setdefault(name, defaultvalue)
''')],
      '''
doc = Document()
l = doc.add_layer("l", x=T.int32, y=T.string)
n = l.add(x=1, y="a")
l.remove_field("y", leave_data=True)
l.add_field("y", T.int32(5))
assert n["y"] == 5
MsgpackCodec.encode(doc)
''', "data left by an earlier field of that name", "the node keeps a value of the former type"),

    C("tar-reader-skips-hidden", "F06",
      [("collection.py", "            if ti.isfile():\n", "            if ti.isfile() and not os.path.basename(ti.name).startswith(\".\"):\n")],
      '''
with TarMsgpackWriter(SCRATCH + "/a.tar", docformat=".d%d", mode="w") as w:
    w.write(Document(id=1))
with TarMsgpackReader(SCRATCH + "/a.tar", mode="r") as r:
    assert [d.properties()["id"] for d in r] == [1]
''', "names that start with a dot", "the documents are passed over"),
]
BUGS = [b for b in BUGS if b["id"] != "validate-field-first-node"]
