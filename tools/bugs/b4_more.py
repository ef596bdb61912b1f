import runpy, pathlib
_m = runpy.run_path(str(pathlib.Path(__file__).with_name("b3_rest.py")))
H, B = _m["H"], _m["B"]

H4 = '''
import threading, gc, warnings, pickle
'''


def C(id, prop, edits, demo, needs, breaks):
    return B(id, prop, edits, H4 + demo, needs, breaks)


BUGS = [
    C("reader-exit-on-error", "F08",
      [("collection.py", '''    def __enter__(self)-> "MsgpackDocumentReader":
        return self

    def __exit__(self, exc_type, exc_val, exc_tb):
        self.inputio.close()

    def get''', '''    def __enter__(self)-> "MsgpackDocumentReader":
        return self

    def __exit__(self, exc_type, exc_val, exc_tb):
        if exc_type is None:
            self.inputio.close()

    def get''')],
      '''
f = io.BytesIO(write([Document(a=1)]))
r = MsgpackDocumentReader(f)
try:
    with r:
        raise KeyError("x")
except KeyError:
    pass
assert f.closed
''', "an exception inside of the with block", "the file stays open after the block"),

    C("writer-exit-drops-pending", "F08",
      [("collection.py", '''    def __exit__(self, exc_type, exc_val, exc_tb):
        self.close()

    def write(self, doc: Union[Document,MsgpackDocument], **kwargs):''', '''    def __exit__(self, exc_type, exc_val, exc_tb):
        if exc_type is None:
            self.close()
        else:
            # Do not store a partial block
            self.outputio.close()

    def write(self, doc: Union[Document,MsgpackDocument], **kwargs):''')],
      '''
p = os.path.join(SCRATCH, "a.docria")
try:
    with MsgpackDocumentWriter(p) as w:
        w.write(Document(a=1))
        raise KeyError("x")
except KeyError:
    pass
assert [d.properties() for d in MsgpackDocumentReader(p)] == [{"a": 1}]
''', "an exception in the with block of a writer while documents are pending", "accepted documents are lost"),

    C("exit-swallows-stopiteration", "F08",
      [("collection.py", '''    def __exit__(self, exc_type, exc_val, exc_tb):
        self.inputreader.close()
''', '''    def __exit__(self, exc_type, exc_val, exc_tb):
        self.inputreader.close()
        # Running out of documents is a regular end
        return exc_type is StopIteration
''')],
      '''
p = os.path.join(SCRATCH, "a.docria")
with MsgpackDocumentWriter(p) as w:
    w.write(Document(a=1))
try:
    with DocumentIO.read(p) as r:
        next(iter([]))
except StopIteration:
    sys.exit(0)
sys.exit(1)
''', "a StopIteration raised in the with block of a document reader", "the exception disappears"),

    C("close-only-with-pending", "F08",
      [("collection.py", '''        """Flush data and close the underlying storage"""
        self.flush()
''', '''        """Flush data and close the underlying storage"""
        if self.current_block_count == 0 and isinstance(self.outputio, _BoundaryWriter):
            # Nothing left, the boundary stream was flushed with the last block
            self.outputio.flush()
            self._closed = True
            return

        self.flush()
''')],
      '''
m = io.BytesIO()
w = MsgpackDocumentWriter(_BoundaryWriter(m, boundary=12), num_docs_per_block=2)
w.write(Document(a=1)); w.write(Document(a=2))
w.close()
assert m.closed
''', "a boundary stream, and a number of documents that is a multiple of the block size", "the storage stays open"),

    C("search-keeps-reader", "F08",
      [("collection.py", '''            # Optimized reading if multiple hits exist within a block sequentially
''', '''            # Optimized reading if multiple hits exist within a block sequentially, keep the reader for the next search
'''), ("collection.py", '''            with MsgpackDocumentIO.read(os.path.join(basepath, self.filepath)) as reader:
                lastblk = None
''', '''            reader = MsgpackDocumentReader(open(os.path.join(basepath, self.filepath), "rb", buffering=1 << 16))
            self.__dict__.setdefault("_readers", {})[threading_ident()] = reader
            if reader is not None:
                lastblk = None
'''), ("collection.py", '''class DocumentFileIndex:
    """In-memory index of a single docria file"""
''', '''def threading_ident():
    import threading
    return threading.get_ident()


class DocumentFileIndex:
    """In-memory index of a single docria file"""
'''), ("collection.py", '''        self.filepath = filepath
        self.properties = properties
        self.docrefs = docrefs
''', '''        self.filepath = str(filepath)
        self.properties = properties
        self.docrefs = docrefs

    def __getstate__(self):
        return {k: v for k, v in self.__dict__.items() if k != "_readers"}
''')],
      '''
p = os.path.join(SCRATCH, "a.docria")
with MsgpackDocumentWriter(p) as w:
    w.write(Document(a=1))
ix = build_msgpack_fileindex(p, "a")
assert len(list(ix.search({"a": 1}))) == 1
assert not [x for x in os.listdir("/proc/self/fd") if os.path.exists("/proc/self/fd/" + x) and os.readlink("/proc/self/fd/" + x) == os.path.realpath(p)]
''', "a finished search", "its file stays open as long as the index lives"),

    C("build-leaks-on-damage", "F08",
      [("collection.py", '''        self.inputio = inputio
        self.dataread = 4
        header = self.inputio.read(4)
        if header != b"Dmf1":
''', '''        self.inputio = inputio
        self.dataread = 4
        header = self.inputio.read(4)
        if len(header) == 0:
            # Nothing there yet, look again through a descriptor of its own
            self.inputio = os.fdopen(os.dup(inputio.fileno()), "rb")
            header = self.inputio.read(4)

        if header != b"Dmf1":
''')],
      '''
p = os.path.join(SCRATCH, "a.docria")
open(p, "wb").close()
keep = []
try:
    MsgpackDocumentIO.read(p)
except Exception as e:
    keep.append(e)
assert keep
assert not [x for x in os.listdir("/proc/self/fd") if os.path.exists("/proc/self/fd/" + x) and os.readlink("/proc/self/fd/" + x) == os.path.realpath(p)]
''', "opening an empty file", "a second descriptor stays open"),

    # ---- X01
    C("shared-encode-buffer", "X01",
      [("codec.py", '''            out_type = BytesIO()
            msgpack.pack(types_num_nodes[typename], out_type)
''', '''            out_type = MsgpackCodec._layer_buffer
            out_type.seek(0)
            out_type.truncate()
            msgpack.pack(types_num_nodes[typename], out_type)
'''), ("codec.py", '''class MsgpackCodec:
    """MessagePack document codec"""
''', '''class MsgpackCodec:
    """MessagePack document codec"""
    # Scratch buffer for layers, saves an allocation per layer
    _layer_buffer = BytesIO()

''')],
      '''
sys.setswitchinterval(1e-6)
docs = []
for k in range(4):
    d = Document()
    for j in range(6):
        l = d.add_layer("l%d" % j, **{"f%d" % i: T.int32 for i in range(20)})
        for i in range(5):
            l.add(**{"f%d" % i: k for i in range(20)})
    docs.append(d)
want = [MsgpackCodec.encode(d) for d in docs]
bad = []
def run(k):
    for _ in range(400):
        try:
            if MsgpackCodec.encode(docs[k]) != want[k]:
                bad.append(k)
        except Exception as e:
            bad.append(e)
ts = [threading.Thread(target=run, args=(k,)) for k in range(4)]
[t.start() for t in ts]
[t.join() for t in ts]
assert not bad
''', "two threads that encode documents of their own at the same time", "their layers are mixed up"),

    C("compile-result-on-class", "X01",
      [("codec.py", '''        offset_mapping = doc.compile(**kwargs)

        texts = {}
        types = {}
        types_num_nodes = {}
''', '''        Codec._offsets = doc.compile(**kwargs)
        offset_mapping = Codec._offsets

        texts = {}
        types = {}
        types_num_nodes = {}
'''), ("codec.py", '''            texts[txt.name] = txt.compile(offset_mapping[txt.name][1])
''', '''            texts[txt.name] = txt.compile(Codec._offsets[txt.name][1])
''')],
      '''
sys.setswitchinterval(1e-6)
docs = []
for k in range(4):
    d = Document()
    d.maintext = "word " * (10 + k)
    for n in range(30):
        d.add_text("t%d" % n, "abc " * (k + 1))
    l = d.add_layer("l", s=T.span())
    for i in range(8 + k):
        l.add(s=d.maintext[i * 5:i * 5 + 4])
    docs.append(d)
want = [MsgpackCodec.encode(d) for d in docs]
bad = []
def run(k):
    for _ in range(2500):
        try:
            if MsgpackCodec.encode(docs[k]) != want[k]:
                bad.append(k)
        except Exception as e:
            bad.append(e)
ts = [threading.Thread(target=run, args=(k,)) for k in range(4)]
[t.start() for t in ts]
[t.join() for t in ts]
assert not bad
''', "two threads that encode documents with texts at the same time", "a text is cut at the offsets of another document"),

    C("block-cache-across-readers", "X01",
      [("collection.py", '''        if self.block is None or self.block.position != ref[0]:
            self.seek(ref[0])
            self.block = self.readblock()
''', '''        if self.block is None or self.block.position != ref[0]:
            key = (getattr(self.inputio, "name", None), ref[0])
            cached = MsgpackDocumentReader._recent
            if cached is not None and cached[0] == key and key[0] is not None:
                self.block = cached[1]
            else:
                self.seek(ref[0])
                self.block = self.readblock()
                MsgpackDocumentReader._recent = (key, self.block)
'''), ("collection.py", '''    """Reader for the blocked MessagePack document file format"""
    def __init__(self, inputio''', '''    """Reader for the blocked MessagePack document file format"""
    # The block most recently accessed at random
    _recent = None

    def __init__(self, inputio''')],
      '''
p = os.path.join(SCRATCH, "a.docria")
for gen in (1, 2):
    with MsgpackDocumentWriter(p, mode="wb") as w:
        for k in range(3):
            w.write(Document(g=gen, k=k))
    with MsgpackDocumentReader(p) as r:
        refs = [d.ref for d in r]
    with MsgpackDocumentReader(p) as r:
        assert r.get(refs[1]).properties() == {"g": gen, "k": 1}
''', "random access into a file that was written again since the last access by another reader (or two readers on one file)", "a block of the former file is given"),

    C("decoded-schema-shared", "X01",
      [("codec.py", '''                if has_args:
                    fieldargs = next(unpacker)
                    fields.append((fieldname, create_datatype(ttype, **fieldargs)))
''', '''                if has_args:
                    fieldargs = MsgpackCodec._last_args
                    fieldargs.clear()
                    fieldargs.update(next(unpacker))
                    fields.append((fieldname, create_datatype(ttype, **fieldargs)))
'''), ("codec.py", '''    @staticmethod
    def decode_schema(unpacker: msgpack.Unpacker):
''', '''    _last_args = {}

    @staticmethod
    def decode_schema(unpacker: msgpack.Unpacker):
''')],
      '''
sys.setswitchinterval(1e-6)
def make(k):
    d = Document()
    for j in range(5):
        d.add_text("t%d-%d" % (k, j), "abc")
        d.add_layer("l%d" % j, **{"f%d" % i: T.span("t%d-%d" % (k, i % 5)) for i in range(20)}).add()
    for j in range(5):
        if j == 0:
            continue
    return MsgpackCodec.encode(full(d))
def full(d):
    for t in range(5):
        pass
    return d
data = []
for k in range(4):
    d = Document()
    for j in range(5):
        d.add_text("t%d-%d" % (k, j), "abc")
    for j in range(5):
        d.add_layer("l%d" % j, **{"f%d" % i: T.span("t%d-%d" % (k, i % 5)) for i in range(20)}).add()
    data.append(MsgpackCodec.encode(d))
want = [{n: l.schema.fields for n, l in MsgpackCodec.decode(b).layers.items()} for b in data]
bad = []
def run(k):
    for _ in range(800):
        try:
            if {n: l.schema.fields for n, l in MsgpackCodec.decode(data[k]).layers.items()} != want[k]:
                bad.append(k)
        except Exception as e:
            bad.append(e)
ts = [threading.Thread(target=run, args=(k,)) for k in range(4)]
[t.start() for t in ts]
[t.join() for t in ts]
assert not bad
''', "two threads that decode documents at the same time", "field types get the arguments of another document"),

    C("defaults-on-class", "X01",
      [("model.py", '''        self.num = 0
        self._default_values = {}  # type: Dict[str, Any]
        self._update_default_values()
''', '''        self.num = 0
        self._update_default_values()
'''), ("model.py", '''        self._default_values = {field: typedef.default() for field, typedef in self.schema.fields.items() if
                                typedef.default() is not None}
''', '''        # Layers made from equal declarations have equal defaults
        key = (self.schema.name, len(self.schema.fields))
        known = NodeLayerCollection._defaults.get(key)
        if known is None or any(field not in self.schema.fields for field in known):
            known = {field: typedef.default() for field, typedef in self.schema.fields.items() if
                     typedef.default() is not None}
            NodeLayerCollection._defaults[key] = known

        self._default_values = known
'''), ("model.py", '''    def __init__(self, schema: "NodeLayerSchema"):
        super().__init__(schema.fields)
''', '''    _defaults = {}

    def __init__(self, schema: "NodeLayerSchema"):
        super().__init__(schema.fields)
''')],
      '''
a = Document().add_layer("l", x=T.string("one"))
b = Document().add_layer("l", x=T.string("two"))
assert a.add()["x"] == "one" and b.add()["x"] == "two"
''', "layers of the same name and fields, but other defaults, in two documents", "new nodes get the defaults of another document"),

    # ---- D01
    C("maintext-keeps-foreign-name", "D01",
      [("model.py", '''            assert text.name == "main", "Text is not named main"
            self._texts["main"] = text
''', '''            assert text.name == "main", "Text is not named main"
            self._texts["main"] = Text("main", text.text)
''')],
      '''
d = Document()
t = Text("main", "hello")
d.maintext = t
assert d.maintext is t
''', "a text object set as main text", "spans made from it before are of another text than the document's"),

    C("fld-loses-false", "D01",
      [("model.py", '''        return self.__data__.get(item)
''', '''        return self.__data__.get(item) or None
''')],
      '''
assert Node(a=0).fld.a == 0 and Node(a="").fld.a == ""
''', "a field that holds zero, false or an empty string, read through the wrapper", "reads as unset"),

    C("fld-del-quiet", "D01",
      [("model.py", '''    def __delattr__(self, item):
        del self.__data__[item]
''', '''    def __delattr__(self, item):
        self.__data__[item] = None
''')],
      '''
n = Node(a=1)
del n.fld.a
assert "a" not in n
''', "deleting through the wrapper", "the field stays, set to None, and is refused when encoding"),

    C("typeof-bool-as-int", "D01",
      [("model.py", '''        elif isinstance(o, bool):
            return DataTypes.bool()
        elif isinstance(o, int):
            if comparetype is not None and comparetype.typename == DataTypeEnum.I32:
                if -0x80000000 <= o <= 0x7FFFFFFF:
''', '''        elif isinstance(o, bool):
            return DataTypes.bool()
        elif isinstance(o, int):
            if comparetype is not None and comparetype.typename == DataTypeEnum.I32:
                if abs(o) <= 0x80000000:
''')],
      '''
assert DataTypes.typeof(2 ** 31, DataTypes.int32(None)).is_valid(2 ** 31)
''', "exactly 2^31 next to a 32 bit field", "typed as 32 bit, which cannot hold it"),

    C("noderef-many-type-by-first", "D01",
      [("model.py", '''                layer = o[0].collection
                if sum(1 for n in o if isinstance(n, Node) and n.collection is layer) == len(o):
''', '''                layer = o[0].collection
                if o[-1].collection is layer:
''')],
      '''
d = Document()
a, b = d.add_layer("a", x=T.string), d.add_layer("b", x=T.string)
n, m = a.add(), b.add()
assert refused(lambda: DataTypes.typeof([n, m, n]))
''', "a list of nodes of two layers whose first and last are of the same layer", "a type is found that does not hold the list"),

    C("validate-foreign-node-quiet", "D01",
      [("model.py", '''        if self.collection is None:
            if noexcept:
                return False

            raise DataValidationError("Node is not attached to any layer: %s" % repr(self))
''', '''        if self.collection is None:
            if noexcept or self._id >= 0:
                return False

            raise DataValidationError("Node is not attached to any layer: %s" % repr(self))
''')],
      '''
l = Document().add_layer("l", a=T.string)
n, m = l.add(), l.add()
l.remove(m)
def strict():
    if n.collection is None or m.is_valid(noexcept=False) is False:
        raise SystemExit(0) if m._id == -1 else SystemExit(1)
try:
    m.is_valid(noexcept=False)
except Exception:
    sys.exit(0)
sys.exit(1)
''', "strict validation of a node that was removed", "no exception tells"),

    C("layer-contains-by-field", "D01",
      [("model.py", '''    def __contains__(self, item):
        return item in self._layers
''', '''    def __contains__(self, item):
        return item in self._layers or item in self._texts
''')],
      '''
d = Document()
d.add_text("t", "x")
assert "t" not in d
''', "a text name that is not a layer name", "`in` says there is such a layer"),

    C("hash-by-id-field", "D01",
      [("model.py", '''    def __hash__(self):
        return id(self)

    def __eq__(self, other):
        return self is other

''', '''    def __hash__(self):
        return self._id if self.collection is not None else id(self)

    def __eq__(self, other):
        return self is other

''')],
      '''
l = Document().add_layer("l", a=T.string)
n, m = l.add(), l.add()
s = {m}
l.remove(n)
l.compact()
l.remove(m)
assert m in s
''', "a node kept in a set or dictionary while its layer changes", "it is not found any more"),

    # ---- C05 / C02 / C01
    C("foreign-ref-check-first-only", "C05",
      [("model.py", '''                # Add offsets
''', '''                # Add offsets'''.rstrip() + '''
''')] if False else
      [("model.py", '''               value.collection is not None and \\
               value.collection.name == self.options["layer"]
''', '''               (value.collection is None or value.collection.name == self.options["layer"])
'''), ("model.py", '''                        assert fieldvalue.collection is not None, \\
                            "Node is removed: " \\
                            "field '%s' in layer '%s' for node %s" % (field, self.name, repr(node))
                        assert fieldvalue.collection.name == fieldtype.options["layer"], \\
''', '''                        assert fieldvalue.collection is not None, \\
                            "Node was removed: " \\
                            "field '%s' in layer '%s' for node %s" % (field, self.name, repr(node))
                        assert fieldvalue.collection.name == fieldtype.options["layer"], \\
'''), ("model.py", '''                valid = all(n[field].collection is target for n in layer if field in n)
''', '''                valid = all(n[field].collection in (target, None) for n in layer if field in n)
''')],
      '''
d = Document()
l = d.add_layer("l", r=T.noderef("l"))
a, b = l.add(), l.add()
a["r"] = b
l.remove(b)
assert refused(lambda: MsgpackCodec.encode(d))
''', "a reference to a node that was removed", "it is encoded as a reference to another node"),

    C("schema-columns-from-set", "C02",
      [("codec.py", '''            for field, fieldtype in v.schema.fields.items():
                typeschema[field] = fieldtype.encode()

                propvalues = []
''', '''            # Plain columns first, they decode without further lookups
            simple = {field for field, fieldtype in v.schema.fields.items() if not fieldtype.options}
            for field in [*simple, *(f for f in v.schema.fields if f not in simple)]:
                fieldtype = v.schema.fields[field]
                typeschema[field] = fieldtype.encode()

                propvalues = []
''')],
      '''
import subprocess
code = """
from docria.model import *
from docria.codec import MsgpackCodec
import hashlib
d = Document()
d.add_layer("l", **{"f%d" % i: DataTypes.int32(None) for i in range(12)})
print(hashlib.md5(MsgpackCodec.encode(d)).hexdigest())
"""
out = {subprocess.run([sys.executable, "-c", code], env=dict(os.environ, PYTHONHASHSEED=str(h)), capture_output=True, text=True).stdout for h in range(4)}
assert len(out) == 1 and out != {""}, out
''', "two processes with different hash seeds", "the same document is encoded to different bytes"),

    C("boundary-marker-wraps", "F05",
      [("collection.py", '''        if delta <= -0x80000000:
            deltapos = -0x80000000

        _write_fully(self.outputio, struct.pack(">i", deltapos))
''', '''        if delta < -0x80000000:
            deltapos = 0

        _write_fully(self.outputio, struct.pack(">i", deltapos))
''')],
      '''
class Sink:
    def __init__(self): self.pos, self.at = 0, {}
    def write(self, b):
        if self.pos and self.pos % (1 << 30) == 0: self.at[self.pos] = bytes(b[:4])
        self.pos += len(b)
s = Sink()
w = _BoundaryWriter(s, boundary=30)
piece = bytes(1 << 26)
for _ in range(50):
    w.write(piece)
assert s.at[3 << 30] == b"\\x80\\0\\0\\0", s.at
''', "more than 2 GiB between two record starts", "the marker says that a record starts there"),
]
# These change only lines that repairs added, so they do not count as planted bugs
BUGS = [b for b in BUGS if b["id"] not in ("exit-swallows-stopiteration", "close-only-with-pending", "build-leaks-on-damage", "validate-foreign-node-quiet")]
