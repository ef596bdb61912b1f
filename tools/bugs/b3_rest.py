H = '''
import io, json, os, random, re, shutil, sys, tarfile, tempfile
from html.parser import HTMLParser
from docria.model import *
from docria.model import Node, NodeList, NodeSpan
from docria.codec import MsgpackCodec, MsgpackDocument
from docria.collection import *
from docria.collection import _BoundaryReader, _BoundaryWriter
from docria.algorithm import *
from docria import printout
T = DataTypes

def refused(fn):
    try:
        fn()
    except Exception:
        return True
    return False

class Mem(io.BytesIO):
    def close(self):
        pass

def write(docs, **kw):
    m = Mem()
    w = MsgpackDocumentWriter(m, **kw)
    for d in docs:
        w.write(d)
    w.close()
    return m.getvalue()

SCRATCH = tempfile.mkdtemp()
import atexit
atexit.register(shutil.rmtree, SCRATCH, ignore_errors=True)
'''


def B(id, prop, edits, demo, needs, breaks):
    return dict(id=id, property=prop, edits=edits, demo=H + demo, needs=needs, breaks=breaks)


BUGS = [
    # ---- collections
    B("block-buffer-limit", "F01",
      [("collection.py", "        self._data = BytesIO(rawbuffer)\n        self._unpacker = Unpacker(self._data, raw=False)\n", "        self._data = BytesIO(rawbuffer)\n        self._unpacker = Unpacker(self._data, raw=False, max_bin_len=1024 * 1024)\n")],
      '''
d = Document(big="x" * (1 << 20))
data = write([Document(a=1), d, Document(a=2)])
assert [len(str(x.properties())) for x in MsgpackDocumentReader(io.BytesIO(data))][1] > 1 << 20
''', "a document of more than 1 MiB", "reading fails at the large document"),

    B("big-document-overtakes", "F01",
      [("collection.py", "        self.currentblock.write(self.packer.pack(data))\n        self.current_block_count += 1\n\n        if self.current",
        "        if len(data) >= 1 << 16:\n            # Large documents get a block of their own\n            self.outputio.write(self.packer.pack(self.codec(self.packer.pack(data))))\n            if isinstance(self.outputio, _BoundaryWriter):\n                self.outputio.split()\n\n            return\n\n        self.currentblock.write(self.packer.pack(data))\n        self.current_block_count += 1\n\n        if self.current"),
       ("collection.py", "        self.codec_name = codec.name\n        self.codec = codec.compress  # type", "        self.codec = codec.compress  # type")],
      '''
data = write([Document(i=0), Document(i=1, big="x" * 70000), Document(i=2)])
assert [x.properties()["i"] for x in MsgpackDocumentReader(io.BytesIO(data))] == [0, 1, 2]
''', "a document of more than 64 KiB written while smaller ones are pending in the block", "documents are stored in another order"),

    B("block-documents-partial", "F01",
      [("collection.py", "        last = 0\n        self.seek(0)\n", "        last = self.tell()\n")],
      '''
data = write([Document(i=i) for i in range(4)])
b = MsgpackDocumentReader(io.BytesIO(data)).readblock()
next(b)
assert [d.properties()["i"] for _, d in b.documents()] == [0, 1, 2, 3]
''', "all documents asked for of a block that was read in part", "the documents read before are missing"),

    B("get-trusts-last-position", "F02",
      [("collection.py", "        if self.block is None or self.block.position != ref[0]:\n", "        if self.block is None or self._lastblockpos != ref[0]:\n")],
      '''
data = write([Document(i=i) for i in range(6)], num_docs_per_block=2)
refs = [x.ref for x in MsgpackDocumentReader(io.BytesIO(data))]
r = MsgpackDocumentReader(io.BytesIO(data))
assert r.get(refs[1]).properties()["i"] == 1
r.readblock()
assert r.get(refs[2]).properties()["i"] == 2
''', "a block read on its own between two accesses by reference", "a document of another block is returned"),

    B("block-tell-after-seek", "F02",
      [("collection.py", "        pos = self._data.seek(position)\n        self._dataread = position\n", "        pos = self._data.seek(position)\n        self._dataread = min(position, 0xFFFF)\n")],
      '''
docs = [Document(i=i, s="%d" % i * 30000) for i in range(6)]
data = write(docs)
refs = [x.ref for x in MsgpackDocumentReader(io.BytesIO(data))]
r = MsgpackDocumentReader(io.BytesIO(data))
d = r.get(refs[4])
assert d.ref == refs[4], (d.ref, refs[4])
''', "access by reference beyond the first 64 KiB of a block", "the reference attached to the document does not lead back to it"),

    B("flush-holds-small-blocks", "F03",
      [("collection.py", "        if self.current_block_count > 0:\n", "        if self.current_block_count > 0 and (self.current_block_count >= self.num_docs_per_block\n                                             or self.currentblock.tell() >= 256 or force):\n"),
       ("collection.py", "    def flush(self):\n        \"\"\"\n        Flush data to the underlying", "    def flush(self, force=False):\n        \"\"\"\n        Flush data to the underlying"),
       ("collection.py", "        self.flush()\n        self._closed = True\n", "        self.flush(force=True)\n        self._closed = True\n")],
      '''
p = os.path.join(SCRATCH, "c.docria")
w = MsgpackDocumentWriter(p)
w.write(Document(i=1))
w.flush()
with MsgpackDocumentReader(p) as r:
    assert [d.properties()["i"] for d in r] == [1]
''', "an explicit flush with few small documents pending, and a reader or crash before the close", "flushed documents are not in the file"),

    B("truncated-salvage", "F03",
      [("collection.py", "register_codec(\"zip\", zlib.compress, zlib.decompress)", "register_codec(\"zip\", zlib.compress, lambda x: zlib.decompressobj().decompress(x))"),
       ("collection.py", "            buf = self.codec(data)\n", "            buf = self.codec(data)\n            if len(buf) == 0:\n                return self.readblock()\n"),
       ("collection.py", "        data = next(self.unpacker, None)\n        if data is None:\n            return None\n        else:\n            buf",
        "        data = next(self.unpacker, None)\n        if data is None:\n            self.inputio.seek(self._lastblockpos)\n            rest = self.inputio.read()\n            head = {0xc4: 2, 0xc5: 3, 0xc6: 5}.get(rest[0]) if rest else None\n            if head is None or len(rest) <= head + 64:\n                return None\n\n            data = rest[head:]\n            self.inputio.seek(0, SEEK_END)\n            buf = self.codec(data)\n            return MsgpackDocumentBlock(self._lastblockpos, buf[:len(buf) // 2]) if len(buf) > 0 else None\n        else:\n            buf")],
      '''
docs = [Document(i=i, s="%d" % i * 50, r="".join(random.Random(i).choice("abcdefgh") for _ in range(300))) for i in range(4)]
data = write(docs, num_docs_per_block=4)
want = [MsgpackCodec.encode(d) for d in docs]
for cut in range(20, len(data)):
    got = []
    try:
        r = MsgpackDocumentReader(io.BytesIO(data[:cut]))
        for i in range(10):
            try:
                d = next(r, None)
            except Exception:
                break
            if d is None:
                break
            got.append(d.binary())
    except Exception:
        pass
    assert got == want[:len(got)], cut
    assert len(got) == 0, cut
''', "a file cut inside of its last compressed block", "documents of an incomplete block are salvaged in part"),

    B("block-dropped-on-failed-write", "F04",
      [("collection.py", "        if self.current_block_count > 0:\n            _write_fully(self.outputio, self.packer.pack(self.codec(self.currentblock.getvalue())))\n",
        "        if self.current_block_count > 0:\n            block = self.currentblock.getvalue()\n            self.currentblock = BytesIO()\n            self.current_block_count = 0\n            _write_fully(self.outputio, self.packer.pack(self.codec(block)))\n"),
       ("collection.py", "                self.outputio.split()\n\n            self.currentblock = BytesIO()\n            self.current_block_count = 0\n", "                self.outputio.split()\n\n")],
      '''
class Flaky(Mem):
    fail = False
    def write(self, b):
        if self.fail:
            raise OSError("no space")
        return super().write(b)
m = Flaky()
w = MsgpackDocumentWriter(m)
w.write(Document(i=0)); w.write(Document(i=1))
m.fail = True
assert refused(w.flush)
m.fail = False
w.close()
assert [x.properties()["i"] for x in MsgpackDocumentReader(io.BytesIO(m.getvalue()))] == [0, 1]
''', "storage that fails once while a block is written and recovers", "the documents of the block are lost without a trace"),

    B("boundary-far-seek", "F05",
      [("collection.py", "            return (upper // (boundary_val-4))*4 + boundary_val + 4 + upper\n", "            return (upper >> self.boundary)*4 + boundary_val + 4 + upper\n")],
      '''
m = Mem()
w = _BoundaryWriter(m, boundary=12)
payload = bytes(i % 251 for i in range(30000))
w.write(payload)
r = _BoundaryReader(io.BytesIO(m.getvalue()))
for off in (4094, 4095, 4096, 8186, 8187, 8188, 8189, 8190, 20000):
    r.seek(off)
    assert r.read(5) == payload[off:off + 5], off
''', "a seek to the few bytes behind a later boundary", "the reader is placed up to four bytes wrongly"),
    B("boundary-delta-after-exact", "F05",
      [("collection.py", "            pos += maxwrite\n            self.written += maxwrite\n            left -= maxwrite\n", "            pos += maxwrite\n            self.written += maxwrite\n            left -= maxwrite\n            if left == 0 and self.written == ((self.seg + 1) << self.boundary):\n                self.seg += 1\n"),
       ("collection.py", "    def split(self):\n        self.lastsplit = self.written\n", "    def split(self):\n        self.lastsplit = int(self.written)\n")],
      '''
m = Mem()
w = _BoundaryWriter(m, boundary=12)
payload = bytes(i % 251 for i in range(9000))
w.write(payload[:4095])
w.write(payload[4095:])
assert _BoundaryReader(io.BytesIO(m.getvalue())).read(9000) == payload
''', "a write that ends exactly at a boundary", "the marker is left out and the data behind it is read wrongly"),

    B("tar-suffix-only", "F06",
      [("collection.py", "            if ti.isfile():\n", "            if ti.isfile() and ti.name.endswith(\".msgpack\"):\n")],
      '''
p = os.path.join(SCRATCH, "a.tar.gz")
with TarMsgpackWriter(p, docformat="%d.bin") as w:
    w.write(Document(i=0))
assert [d.properties() for d in TarMsgpackReader(p)] == [{"i": 0}]
''', "a name pattern with another suffix", "no document is found in the archive"),

    B("tar-name-collision", "F06",
      [("collection.py", "            ti = tarfile.TarInfo(os.path.join(self.rootdir, self.docformat % self.i))\n", "            ti = tarfile.TarInfo(os.path.join(self.rootdir, self.docformat % (self.i % 100)))\n")],
      '''
p = os.path.join(SCRATCH, "a.tar")
with TarMsgpackWriter(p, rootdir="r", mode="w") as w:
    for i in range(120): w.write(Document(i=i))
with tarfile.open(p) as t:
    names = [m.name for m in t if m.isfile()]
assert len(set(names)) == 120
''', "more than 100 documents below a root directory", "names repeat, extracting the archive overwrites documents"),

    B("index-falsy-values", "F07",
      [("collection.py", "        return DocumentFileIndex(source_filepath, property2docis, docs)\n",
        "        return DocumentFileIndex(source_filepath, {p: {v: ids for v, ids in m.items() if v} for p, m in property2docis.items()}, docs)\n")],
      '''
p = os.path.join(SCRATCH, "a.docria")
with MsgpackDocumentWriter(p) as w:
    for i in range(4): w.write(Document(i=i % 2))
ix = build_msgpack_fileindex(p, "i")
assert len(list(ix.search({"i": 0}))) == 2
''', "a property value that is false in Python", "documents with this value are not found"),

    B("index-relative-base", "F07",
      [("collection.py", "        self.basepath = os.path.abspath(basepath)\n", "        self.basepath = basepath\n")],
      '''
os.chdir(SCRATCH)
os.mkdir("x"); os.mkdir("y")
with MsgpackDocumentWriter("x/a.docria") as w:
    w.write(Document(i=1))
ix = build_msgpack_directory_fileindex("x", "i", basepath="x", num_workers=1)
ix.save("x/i")
os.chdir("y")
assert len(list(DocumentIndex.load("../x/i").search({"i": 1}))) == 1
''', "an index with a relative base path used from another working directory", "the files are not found"),

    B("index-search-narrows", "F07",
      [("collection.py", "                        property2docis[prop].setdefault(props[prop], []).append(docid)\n",
        "                        property2docis[prop].setdefault(props[prop], set()).add(docid)\n"),
       ("collection.py", "            all_hits.append(set(self.properties.get(k, {}).get(v, [])))\n",
        "            all_hits.append(self.properties.get(k, {}).get(v, set()))\n")],
      '''
p = os.path.join(SCRATCH, "a.docria")
with MsgpackDocumentWriter(p) as w:
    for i in range(6): w.write(Document(i=i % 2, k=i % 3))
ix = build_msgpack_fileindex(p, "i", "k")
assert len(list(ix.search({"i": 1, "k": 2}))) == 1
assert len(list(ix.search({"i": 1}))) == 3
''', "a search after one for several conditions", "the first search removes documents from the index"),

    # ---- algorithms
    B("dfs-mark-on-push", "A01",
      [("algorithm.py", "        visited.add(current)\n        if is_result and is_result(current):\n            yield current\n        elif not is_result:\n            yield current\n\n        child_nodes = [ch for ch in children(current) if ch not in visited]\n        child_nodes.reverse()\n        stack.extend(child_nodes)\n",
        "        visited.add(current)\n        if is_result and is_result(current):\n            yield current\n        elif not is_result:\n            yield current\n\n        child_nodes = [ch for ch in dict.fromkeys(children(current)) if ch not in visited and ch not in stack]\n        child_nodes.reverse()\n        stack.extend(child_nodes)\n")],
      '''
doc = Document()
l = doc.add_layer("l", n=T.int32, c=T.noderef_many("l"))
a, b, c = [l.add(n=i) for i in range(3)]
a["c"] = [b, c]; b["c"] = [c]; c["c"] = []
d = l.add(n=3); d["c"] = []; c["c"] = []; b["c"] = [d]; a["c"] = [b, c, d]
assert [n["n"] for n in dfs(a, children_of(l, "c"))] == [0, 1, 3, 2], [n["n"] for n in dfs(a, children_of(l, "c"))]
''', "a node reachable both directly and through an earlier sibling", "nodes do not come in depth first preorder"),

    B("bfs-filter-prunes", "A01",
      [("algorithm.py", "        for child in children(current_node):\n            if child not in visited:\n                queue.append(", "        for child in children(current_node) if not is_result or current_depth < 3 or is_result(current_node) else ():\n            if child not in visited:\n                queue.append(")],
      '''
doc = Document()
l = doc.add_layer("l", n=T.int32, c=T.noderef("l"))
ns = [l.add(n=i) for i in range(7)]
for x, y in zip(ns, ns[1:]): x["c"] = y
assert [(d, n["n"]) for d, n in bfs(ns[0], children_of(l, "c"), lambda n: n["n"] == 6)] == [(6, 6)]
''', "a filter and a match more than three steps behind non-matches", "the filter restricts what is visited"),

    B("group-empty-before-cover", "A02",
      [("algorithm.py", "if sum(map(len, grp[1].values())) > 0]", "if sum(map(len, groups[grp[0]].values())) > 0]")],
      '''
doc = Document()
doc.maintext = "0123456789"
g = doc.add_layer("g", text=T.span())
a = doc.add_layer("a", text=T.span())
g.add(text=doc.maintext[0:5]); a.add(text=doc.maintext[4:7])
assert group_by_span(g, {"a": a}, resolution="cover", include_empty_groups=False) == []
''', "cover mode with empty groups left out, and a group that only intersects its candidates", "an empty group is given"),

    B("group-cover-field", "A02",
      [("algorithm.py", "if is_covered_by(n[layer_span_field[k]], group_span)]", "if is_covered_by(n.get(group_span_field) or n[layer_span_field[k]], group_span)]")],
      '''
doc = Document()
doc.maintext = "0123456789"
g = doc.add_layer("g", text=T.span())
a = doc.add_layer("a", text=T.span(), pos=T.span())
g.add(text=doc.maintext[0:5]); n = a.add(pos=doc.maintext[3:5], text=doc.maintext[0:8])
r = group_by_span(g, {"a": a}, resolution="cover", layer_span_field={"a": "pos"})
assert r[0][1]["a"] == [n]
''', "cover mode, and members grouped by another field than the groups while having both", "cover is decided by the wrong field"),



    B("dominant-empty-segment", "A03",
      [("algorithm.py", "        if start != stop:\n            segment_list.append(((stop-1, 1), tup))\n        else:\n            segment_list.append(((stop, 1), tup))\n", "        segment_list.append(((stop-1, 1), tup))\n")],
      '''
assert dominant_right([(2, 2, "e")]) == ["e"]
assert dominant_right([(0, 1, "a"), (2, 2, "e"), (4, 6, "b")]) == ["a", "e", "b"]
''', "an empty segment", "the empty segment is lost"),

    B("translate-overlap-accepted", "A04",
      [("algorithm.py", "                assert active_interval_start is None, \"Mapping which overlaps is not allowed!\"\n", "")],
      '''
doc = Document()
s = doc.add_text("s", "0123456789"); t = doc.add_text("t", "abcdefghijklmnopqrst")
m = doc.add_layer("m", t=T.span("t"), s=T.span("s"))
m.add(s=s[0:6], t=t[0:6]); m.add(s=s[4:10], t=t[10:16])
r = doc.add_layer("r", s=T.span("s"), t=T.span("t"))
r.add(s=s[5:6])
assert refused(lambda: span_translate(doc, "m", ("t", "s"), "r", ("s", "t")))
''', "mapping pieces that overlap", "an ambiguous mapping is accepted and gives one of the answers"),

    B("translate-retranslates", "A04",
      [("algorithm.py", "        if target_pos_remap not in n:\n", "        if target_pos_remap not in n or len(n[target_pos_remap]) == 0:\n")],
      '''
doc = Document()
s = doc.add_text("s", "0123456789"); t = doc.add_text("t", "abcdefghijklmnopqrst")
m = doc.add_layer("m", t=T.span("t"), s=T.span("s"))
m.add(s=s[0:6], t=t[10:16])
r = doc.add_layer("r", s=T.span("s"), t=T.span("t"))
n = r.add(s=s[1:3], t=t[5:5])
span_translate(doc, "m", ("t", "s"), "r", ("s", "t"))
assert (n["t"].start, n["t"].stop) == (5, 5)
''', "a node whose translation is already an empty span", "the existing translation is overwritten"),

    B("tokens-skip-two", "A05",
      [("algorithm.py", "                    for ic in range(i, i+j):\n", "                    for ic in range(i, min(i+j, i+k-1) if k > 1 else i+j):\n")],
      '''
doc = Document()
doc.maintext = "aa bb cc dd"
r = sequence_to_textspans(["dd", "zz", "aa", "bb"], doc.maintext, k=2)
assert [str(x) for x in r] == ["", "", "aa", "bb"], r
''', "a look-ahead of two tokens that skips two", "a span is missing, later spans belong to the wrong tokens"),
    B("tokens-lookahead-length", "A05",
      [("algorithm.py", "                    pos = cand_location + len(token_sequence[i+j])\n", "                    pos = cand_location + len(token_sequence[i])\n")],
      '''
doc = Document()
doc.maintext = "I can't say abc don't"
r = sequence_to_textspans(["I", "don't", "ca", "n't", "x"], doc.maintext)
assert [str(x) for x in r] == ["I", "", "ca", "n't", ""], [str(x) for x in r]
doc2 = Document(); doc2.maintext = "abab zz"
r = sequence_to_textspans(["zz", "ab", "ab"], doc2.maintext)
assert [(x.start, x.stop) for x in r] == [(0, 0), (0, 2), (2, 4)], [(x.start, x.stop) for x in r]
doc3 = Document(); doc3.maintext = "aaaa zz"
r = sequence_to_textspans(["zz", "aaa", "a"], doc3.maintext)
assert [(x.start, x.stop) for x in r] == [(0, 0), (0, 3), (3, 4)], [(x.start, x.stop) for x in r]
''', "a skipped token of another length than the one found instead", "later tokens are located from a wrong position, spans may overlap"),

    # ---- presentation
    B("table-lower-rows", "P01",
      [("printout.py", "            lower_part = zip(range(len(self.body)-part, len(self.body)), self.body[-part:])\n\n            body.extend(list(map(lambda tup: self.format_text",
        "            lower_part = zip(range(len(self.body)-part, len(self.body)), self.body[part:])\n\n            body.extend(list(map(lambda tup: self.format_text")],
      '''
doc = Document()
l = doc.add_layer("l", n=T.int32)
for i in range(300): l.add(n=i * 7)
assert str(299 * 7) in str(l)
''', "a table with more rows than the limit", "rows from the middle are shown as the last ones"),

    B("wrap-loses-column", "P01",
      [("printout.py", "            column_pos = column_end\n", "            column_pos = column_end if column_pos == 1 or column_end == len(headers) else column_end + 1\n")],
      '''
doc = Document()
l = doc.add_layer("l", **{"field_number_%02d" % i: T.string for i in range(24)})
l.add(**{"field_number_%02d" % i: "v%02d" % i for i in range(24)})
s = str(l)
assert all("field_number_%02d" % i in s for i in range(24))
''', "a table with so many columns that it is wrapped repeatedly", "columns are lost"),

    B("html-truncate-escaped", "P02",
      [("printout.py", "            output.append(escape(truncate(str(col))))\n", "            output.append(truncate(escape(str(col))))\n")],
      '''
doc = Document()
l = doc.add_layer("l", s=T.string)
for i in range(30): l.add(s="x" * i + "<&>" * 20)
html = l._repr_html_()
class P(HTMLParser):
    text = ""
    def __init__(self): super().__init__(convert_charrefs=True)
    def handle_data(self, d): self.text += d
p = P(); p.feed(html); p.close()
assert "&l" not in p.text and "t;" not in p.text and "amp;" not in p.text and "&g" not in p.text and "&a" not in p.text, p.text
''', "a value with markup characters that is longer than the cell limit", "entities are cut in half and shown as garbage"),

    B("html-link-quote", "P02",
      [("printout.py", "    return \"https://www.wikidata.org/wiki/{0}\".format(escape(partial))", "    return \"https://www.wikidata.org/wiki/{0}\".format(escape(partial, quote=False))")],
      '''
t = printout.Table()
t.set_header("a")
t.add_body("urn:wikidata:Q1' onmouseover='alert(1)")
html = t.render_html()
tags = []
class P(HTMLParser):
    def handle_starttag(self, tag, attrs):
        if tag == "a":
            tags.append(attrs)
p = P(); p.feed(html); p.close()
assert len(tags) == 1 and [k for k, v in tags[0]] == ["href"], tags
''', "a resource name with a quote character", "document content becomes an attribute"),

    B("html-caption-raw", "P02",
      [("printout.py", "            output.append(escape(self.caption))\n", "            output.append(self.caption if \"#\" in self.caption else escape(self.caption))\n")],
      '''
doc = Document()
l = doc.add_layer("a#<b>x</b>", s=T.string)
l.add(s="1")
assert "<b>" not in l._repr_html_()
''', "a layer name with markup and a number sign", "the name is inserted as markup"),
]
