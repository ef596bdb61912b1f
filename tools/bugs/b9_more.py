import runpy, pathlib
_m = runpy.run_path(str(pathlib.Path(__file__).with_name("b7_deep.py")))
C = _m["C"]

BUGS = [
    C("group-layer-read-twice", "A02",
      [("algorithm.py", '''        for layer_node in layer:
            if layer_node.get(span_name) is not None:
                span = layer_node[span_name]  # type: TextSpan
''', '''        for layer_node in (layer if any(n.get(span_name) is not None for n in layer) else ()):
            if layer_node.get(span_name) is not None:
                span = layer_node[span_name]  # type: TextSpan
''')],
      '''
doc = Document()
doc.maintext = "abcdef"
g, l = doc.add_layer("g", text=T.span), doc.add_layer("l", text=T.span)
a, b = l.add(text=doc.maintext[0:2]), l.add(text=doc.maintext[3:4])
c = g.add(text=doc.maintext[0:6])
assert group_by_span([c], {"l": (n for n in l)}) == [(c, {"l": [a, b]})]
''', "nodes given by a generator", "nodes are missing from their groups"),

    C("dominant-counts-first", "A03",
      [("algorithm.py", '''    segments = [(n[spanfield].start, n[spanfield].stop, n) for n in nodes if spanfield in n]
''', '''    segments = [(n[spanfield].start, n[spanfield].stop, n) for n in nodes if spanfield in n] \\
        if any(spanfield in n for n in nodes) else []
''')],
      '''
from docria.algorithm import dominant_right_span
doc = Document()
doc.maintext = "abcdef"
l = doc.add_layer("l", text=T.span)
a, b = l.add(text=doc.maintext[0:2]), l.add(text=doc.maintext[3:4])
assert dominant_right_span(n for n in l) == [a, b]
''', "nodes given by a generator", "nodes are missing from the result"),

    C("tar-number-used-by-refused", "F06",
      [("collection.py", '''        from docria.codec import MsgpackCodec
        if self.rootdir is not None:
            ti = tarfile.TarInfo(os.path.join(self.rootdir, self.docformat % self.i))
        else:
            ti = tarfile.TarInfo(self.docformat % self.i)
''', '''        from docria.codec import MsgpackCodec
        name = self.docformat % self.i
        self.i += 1
        ti = tarfile.TarInfo(os.path.join(self.rootdir, name) if self.rootdir is not None else name)
'''),
       ("collection.py", '''        ti.size = len(data)
        self.i += 1
''', '''        ti.size = len(data)
''')],
      '''
with TarMsgpackWriter(SCRATCH + "/a.tar", mode="w") as w:
    w.write(Document(id=1))
    try:
        w.write("not a document")
    except ValueError:
        pass
    w.write(Document(id=2))
with tarfile.open(SCRATCH + "/a.tar") as t:
    assert t.getnames() == ["doc00000.msgpack", "doc00001.msgpack"], t.getnames()
''', "a refused document between two others", "the numbers of the files have a gap"),

    C("table-drops-middle-rows", "P01",
      [("printout.py", '''            body = []
            part = options.max_rows >> 1
            upper_part = zip(range(0, part), self.body[0:part])
            lower_part = zip(range(len(self.body)-part, len(self.body)), self.body[-part:])

            body.extend(list(map(lambda tup: self.format_text(row=tup[1], index=tup[0]), upper_part)))
            body.append(None)
            body.extend(list(map(lambda tup: self.format_text(row=tup[1], index=tup[0]), lower_part)))
''', '''            body = []
            part = options.max_rows >> 1
            upper_part = zip(range(0, part), self.body[0:part])
            lower_part = list(zip(range(len(self.body)-part, len(self.body)), self.body[-part:]))
            del self.body[part:-part]

            body.extend(list(map(lambda tup: self.format_text(row=tup[1], index=tup[0]), upper_part)))
            body.append(None)
            body.extend(list(map(lambda tup: self.format_text(row=tup[1], index=tup[0]), lower_part)))
''')],
      '''
from docria.printout import Table
t = Table("many")
t.set_header("a")
for k in range(300):
    t.add_body("row%d" % k)
assert t.render_text() == t.render_text()
''', "a long table rendered twice", "the second rendering shows other row numbers, and does not tell that rows are left out"),

    C("search-conditions-mapping", "F07",
      [("collection.py", "        for k, v in dict(conds).items():\n", "        for k, v in conds.items():\n")],
      '''
path = SCRATCH + "/a.docria"
open(path, "wb").write(write([Document(a=1, b=2), Document(a=1, b=3)]))
ix = DocumentFileIndex.build(path, "a", "b")
assert [d.props["b"] for d in ix.search([("a", 1), ("b", 3)])] == [3]
''', "conditions given as pairs", "the search fails"),

    C("embedded-decoded-anew", "C01",
      [("codec.py", '''            self.data = MsgpackCodec.decode(self.data)
            return self.data
''', '''            return MsgpackCodec.decode(self.data)
''')],
      '''
from docria.codec import MsgpackDocumentExt
inner = Document(id=1)
ext = MsgpackDocumentExt(MsgpackCodec.encode(inner))
ext.decode().props["id"] = 2
assert MsgpackCodec.decode(ext.encode()).props["id"] == 2
''', "an embedded document decoded from bytes and changed", "the change is lost"),

    C("cover-by-text-only", "T02",
      [("model.py", '''        if isinstance(span, TextSpan):
            return span.start <= self.start and span.stop >= self.stop
''', '''        if isinstance(span, TextSpan):
            return span.start <= self.start and span.start + len(str(span).rstrip()) >= self.stop
''')],
      '''
doc = Document()
doc.maintext = "ab  cd"
assert doc.maintext[1:4].covered_by(doc.maintext[0:4])
''', "a covering span that ends in white space", "spans which reach into the white space are not covered"),

    C("str-changes-options", "X01",
      [("model.py", '''            tbl_texts.add_body(k, repr(v.text))

        output.append(tbl_texts.render_text())
''', '''            tbl_texts.add_body(k, repr(v.text))

        width, options.max_column_width = options.max_column_width, 60
        try:
            output.append(tbl_texts.render_text())
        finally:
            options.max_column_width = width
''')],
      '''
from docria.printout import options
import docria.printout as P
doc = Document()
doc.maintext = "x" * 100
l = doc.add_layer("l", a=T.string)
l.add(a="y" * 200)
want = str(l)
seen = []
real = P.Table.render_text
def spy(self):
    seen.append(real_str())
    return real(self)
def real_str():
    P.Table.render_text = real
    try:
        return str(l)
    finally:
        P.Table.render_text = spy
P.Table.render_text = spy
str(doc)
assert all(s == want for s in seen)
''', "another thread prints a table while a document is printed", "it is cut at other places"),

]
