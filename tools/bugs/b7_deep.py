import runpy, pathlib
_m = runpy.run_path(str(pathlib.Path(__file__).with_name("b3_rest.py")))
H, B = _m["H"], _m["B"]

H4 = '''
import threading, gc, warnings, pickle
'''


def C(id, prop, edits, demo, needs, breaks):
    return B(id, prop, edits, H4 + demo, needs, breaks)


BUGS = [
    C("children-late-binding", "A01",
      [("algorithm.py", '''            if typedef.typename == DataTypeEnum.NODEREF:
                yielders.append(node_iter(prop))
            elif typedef.typename == DataTypeEnum.NODEREF_MANY:
                yielders.append(node_array_iter(prop))
            else:
                raise ValueError("field %s has type %s which is not supported as a children type" % (
                    prop, repr(typedef))''', '''            if typedef.typename == DataTypeEnum.NODEREF:
                yielders.append(node_iter(prop))
            elif typedef.typename == DataTypeEnum.NODEREF_MANY:
                yielders.append(lambda n: iter(n.get(prop) or ()))
            else:
                raise ValueError("field %s has type %s which is not supported as a children type" % (
                    prop, repr(typedef))''')],
      '''
doc = Document()
l = doc.add_layer("l", a=T.noderef_many("l"), b=T.noderef_many("l"))
x, y, z = l.add(), l.add(), l.add()
x["a"], x["b"] = [y], [z]
assert list(children_of(l, "a", "b")(x)) == [y, z]
''', "two or more children fields of which one is an array", "all array fields give the children of the last field"),

    C("dominant-span-falsy", "A03",
      [("algorithm.py", "for n in nodes if spanfield in n]", "for n in nodes if n.get(spanfield)]")],
      '''
doc = Document()
doc.maintext = "abcdef"
l = doc.add_layer("l", text=T.span)
a, b = l.add(text=doc.maintext[0:2]), l.add(text=doc.maintext[4:4])
assert dominant_right_span(l) == [a, b]
''', "empty spans", "nodes with empty spans are never selected"),

    C("dominant-tie-left", "A03",
      [("algorithm.py", "if stop-start <= tup[1]-tup[0]:", "if stop-start < tup[1]-tup[0]:")],
      '''
assert dominant_right([(0, 3, "a"), (2, 5, "b")]) == ["b"]
''', "overlapping segments of the same length", "the leftmost wins instead of the rightmost"),

    C("tokens-tie-ahead", "A05",
      [("algorithm.py", "if cand_location != -1 and cand_location < location:", "if cand_location != -1 and cand_location <= location:")],
      '''
t = Text("main", "abc a")
assert [str(x) for x in sequence_to_textspans(["abc", "a"], t)] == ["abc", "a"]
''', "a following token which is a prefix of the current one", "the longer token is left out for the following one"),

    C("layer-first-skips-empty-nodes", "L01",
      [("model.py", "        return next(filter(None.__ne__, map(self._nodes.__getitem__, range(len(self._nodes) - 1, -1, -1))), None)",
        "        return next(filter(None, reversed(self._nodes)), None)")],
      '''
doc = Document()
l = doc.add_layer("l", x=T.int32(default=None))
a, b = l.add(x=1), l.add()
assert l.last() is b
''', "a last node without any field set", "last() passes over nodes without fields"),

    C("nodespan-skips-empty-nodes", "L04",
      [("model.py", "        return filter(None.__ne__, map(self._nodes.__getitem__, range(left_most.i, right_most.i + 1)))",
        "        return filter(None, self._nodes[left_most.i:right_most.i + 1])")],
      '''
doc = Document()
l = doc.add_layer("l", x=T.int32(default=None))
a, b, c = l.add(x=1), l.add(), l.add(x=2)
assert list(NodeSpan(a, c)) == [a, b, c]
''', "nodes without any field set inside of a span", "node spans pass over nodes without fields"),

    C("nodespan-text-joined", "L04",
      [("model.py", '''        left_span = self.left[field]  # type: TextSpan
        right_span = self.right[field]  # type: TextSpan
        return left_span.text_to(right_span)''', '''        return " ".join(str(n[field]) for n in self if field in n)''')],
      '''
doc = Document()
doc.maintext = "Ab,  c"
l = doc.add_layer("l", text=T.span)
a, b, c = l.add(text=doc.maintext[0:2]), l.add(text=doc.maintext[2:3]), l.add(text=doc.maintext[5:6])
assert NodeSpan(a, c).text() == "Ab,  c"
''', "spans which are not separated by exactly one space", "the text of a node span is not what the text has between its ends"),

    C("table-refs-of-empty-nodes", "Q02",
      [("model.py", '''data["__ref"] = list(filter(None.__ne__, self._nodes))''', '''data["__ref"] = [n for n in self._nodes if n]'''),
       ("model.py", '''            data = {k: [n.get(k) for n in filter(None.__ne__, self._nodes)] for k, v in fields}''',
        '''            data = {k: [n.get(k) for n in self._nodes if n] for k, v in fields}''')],
      '''
doc = Document()
l = doc.add_layer("l", x=T.int32(default=None))
l.add(x=1), l.add(), l.add(x=3)
assert len(l.to_pandas()) == 3
''', "nodes without any field set", "a table has no rows for nodes without fields"),

    C("table-drops-unset-column", "Q02",
      [("model.py", '''            fields = [(field, self.schema.fields[field]) for field in fields]''',
        '''            fields = [(field, fieldtype) for field, fieldtype in self.schema.fields.items() if field in fields]''')],
      '''
doc = Document()
l = doc.add_layer("l", x=T.int32, y=T.int32)
l.add(x=1, y=2)
assert list(l.to_pandas(["y", "x"], include_ref_field=False).columns) == ["y", "x"]
try:
    l.to_pandas(["y", "unknown"])
except KeyError:
    pass
else:
    raise AssertionError
''', "fields selected in another order than declared", "columns come in declaration order, unknown fields are passed over"),

    C("list-slice-types", "Q03",
      [("model.py", '''            return NodeList(list.__getitem__(self, item), fieldtypes=self.fieldtypes)
        elif isinstance(item, list):''', '''            return NodeList(list.__getitem__(self, item))
        elif isinstance(item, list):''')],
      '''
doc = Document()
l = doc.add_layer("l", x=T.int32)
l.add(x=1)
assert l.to_list()[5:]["x"].to_list() == []
''', "a slice of a list which holds no node (or nodes of fewer layers)", "the slice does not know the fields of the list"),

    C("span-index-outside", "T01",
      [("model.py", '''            start, stop, step = indx.indices(len(self))
            return self.text[start + self.start:stop + self.start]''', '''            start = indx.start or 0
            stop = len(self) if indx.stop is None else indx.stop
            start = start + len(self) if start < 0 else start
            stop = stop + len(self) if stop < 0 else min(stop, len(self))
            return self.text[start + self.start:stop + self.start]''')],
      '''
t = Text("main", "abcdefgh")
assert str(t[2:5][-7:2]) == "cd"
''', "a negative bound which reaches beyond the start", "a slice of a span reaches outside of it"),

    C("span-equal-by-text", "T02",
      [("model.py", '''            return (self.start, self.stop) == (textrange.start, textrange.stop)''', '''            return str(self) == str(textrange)''')],
      '''
t = Text("main", "ab ab")
assert t[0:2] != t[3:5]
assert t[0:0] != t[2:2]
''', "two spans of a text which read the same", "spans at different places are equal while their hashes differ"),

    C("json-span-at-start", "C04",
      [("codec.py", '''                        for n, v in zip(nodes, range(int(len(data)/2))):
                            if data[v*2] is not None:
                                n[col] = TextSpan(text, offsets[data[v * 2]], offsets[data[v * 2 + 1]])

                    return decoder

                def binary''', '''                        for n, v in zip(nodes, range(int(len(data)/2))):
                            if data[v*2+1]:
                                n[col] = TextSpan(text, offsets[data[v * 2]], offsets[data[v * 2 + 1]])

                    return decoder

                def binary''')],
      '''
from docria.codec import JsonCodec
doc = Document()
doc.maintext = "abcd"
doc.add_layer("l", x=T.span).add(x=doc.maintext[0:0])
assert "x" in JsonCodec.decode(JsonCodec.encode(doc)).layer["l"][0]
''', "an empty span at the start of a text", "the span is lost"),

    C("decoded-arrays-shared", "C01",
      [("codec.py", '''                    target_nodes = all_nodes[target_type]

                    for n in all_nodes[typename]:
                        if col in n:
                            n[col] = [target_nodes[n_item] for n_item in n[col]]
                elif typedef.typename == DataTypeEnum.NODEREF_SPAN:
                    # Replace [int, int] with NodeSpan(left, right) which are real node references
                    target_type = typedef.options["layer"]
                    target_nodes = all_nodes[target_type]

                    for n in all_nodes[typename]:
                        if col in n:
                            lst = n[col]
                            left_i, right_i = lst[0], lst[0]+lst[1]  # Delta encoded length
                            n[col] = NodeSpan(target_nodes[left_i], target_nodes[right_i])


''', '''                    target_nodes = all_nodes[target_type]
                    resolved = {}

                    for n in all_nodes[typename]:
                        if col in n:
                            key = tuple(n[col])
                            if key not in resolved:
                                resolved[key] = [target_nodes[n_item] for n_item in key]

                            n[col] = resolved[key]
                elif typedef.typename == DataTypeEnum.NODEREF_SPAN:
                    # Replace [int, int] with NodeSpan(left, right) which are real node references
                    target_type = typedef.options["layer"]
                    target_nodes = all_nodes[target_type]

                    for n in all_nodes[typename]:
                        if col in n:
                            lst = n[col]
                            left_i, right_i = lst[0], lst[0]+lst[1]  # Delta encoded length
                            n[col] = NodeSpan(target_nodes[left_i], target_nodes[right_i])


''')],
      '''
doc = Document()
l = doc.add_layer("l", r=T.noderef_many("l"))
a, b = l.add(), l.add()
a["r"], b["r"] = [a], [a]
d = MsgpackCodec.decode(MsgpackCodec.encode(doc))
x, y = d.layer["l"]
x["r"].append(y)
assert y["r"] == [x]
''', "two nodes which refer to the same nodes, and a change of one after decoding", "changing the references of one node changes those of another"),

    C("reader-seek-keeps-block", "F02",
      [("collection.py", '''        self.block = None
        self.inputio.seek(position, SEEK_SET)
        self.unpacker''', '''        if position != self._lastblockpos:
            self.block = None
        self.inputio.seek(position, SEEK_SET)
        self.unpacker''')],
      '''
m = Mem(write([Document(i=i) for i in range(6)], num_docs_per_block=3))
r = MsgpackDocumentReader(m)
a = next(r); next(r)
r.seek(a.ref[0])
assert [d.properties()["i"] for d in r] == [0, 1, 2, 3, 4, 5]
''', "seeking to the block which is being read", "reading goes on in the middle of the block and then repeats it"),

    C("xml-array-of-spans", "C07",
      [("codec.py", '''                    for av_entry in av:
                        ET.SubElement(array_node, "e", {"v": av_entry})''', '''                    for av_entry in dict.fromkeys(av):
                        ET.SubElement(array_node, "e", {"v": av_entry})''')],
      '''
from docria.codec import XmlCodec
doc = Document()
l = doc.add_layer("l", r=T.noderef_many("l"))
a = l.add()
a["r"] = [a, a]
assert XmlCodec.encode_utf8string(doc).count("<e ") == 2
''', "an array which names a node twice", "the exported array is shorter"),

    C("debug-skips-empty-columns", "C03",
      [("codec.py", '''                print("  - Special encoding: %s" % repr(next(unpacker)))

                print(" ==> %s" % next(unpacker))''', '''                print("  - Special encoding: %s" % repr(next(unpacker)))
                if num_nodes > 0:
                    print(" ==> %s" % next(unpacker))''')],
      '''
import contextlib
doc = Document()
doc.add_layer("a", x=T.int32); doc.add_layer("b", y=T.int32).add(y=7)
out = io.StringIO()
with contextlib.redirect_stdout(out):
    MsgpackCodec.debug(MsgpackCodec.encode(doc))
assert "[7]" in out.getvalue()
''', "an empty layer before other layers", "the dump reads the following layers at wrong places or fails"),
]
