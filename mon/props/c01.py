"""Binary round trip."""
import copy
from io import BytesIO

from docria.codec import MsgpackCodec, MsgpackDocument, MsgpackDocumentExt
from docria.model import DataTypes, Document, ExtData, Node, NodeSpan, TextSpan

from mon import gen
from mon.snap import snap
from mon.core import Violation

RULE = ("random documents (all field types, defaults, hostile unicode, removals and reorderings, MessagePack size boundaries) "
        "encoded and decoded; distinct = distinct document shapes (texts, layers, node counts, field types, options)")
ASSUMPTIONS = ["strings are valid Unicode (no lone surrogates)", "properties hold MessagePack-representable values with string keys",
               "spans and references belong to the encoded document itself", "an empty reference list is the same as an unset field",
               "each check observes the documents of this run only"]


def structure(ctx, doc, what):
    """The decoded document has to be a working document, not just an image of one."""
    for name, layer in doc.layers.items():
        nodes = list(layer)
        ctx.equal(len(layer), len(nodes), what + ": len(layer) differs from the number of nodes iterated", layer=name)
        prev = -1
        for n in nodes:
            ctx.check(n in layer, what + ": node is not contained in its layer", layer=name)
            ctx.check(not n.is_dangling(), what + ": node is dangling", layer=name)
            ctx.check(n.i > prev, what + ": node positions do not increase", layer=name)
            ctx.check(layer[n.i] is n, what + ": layer[node.i] is another node", layer=name)
            prev = n.i
        for f, t in layer.schema.fields.items():
            if t.typename.name == "SPAN":
                for n in nodes:
                    if f in n:
                        ctx.check(n[f].text is doc.texts[t.options["context"]], what + ": span of another text object", layer=name)


def observe(ctx, doc):
    nvals = 0
    for layer in doc.layers.values():
        for f, t in layer.schema.fields.items():
            c = sum(1 for n in layer if f in n)
            if c:
                ctx.ev("values_%s" % t.typename.name, c)
                nvals += c
            if t.options:
                ctx.ev("typed_options")
        ctx.ev("nodes", len(layer))
    if nvals or doc.props or doc.texts:
        ctx.seen(gen.shape(doc))
    return nvals


def one(ctx, rng, doc, how=None):
    want = snap(doc)
    data = MsgpackCodec.encode(doc)
    ctx.check(isinstance(data, bytes), "encode did not return bytes")
    ctx.ev("encodes")
    how = rng.randrange(6) if how is None else how
    if how == 0:
        dec = MsgpackCodec.decode(BytesIO(data))
    elif how == 1:
        dec = MsgpackDocument(data).document()
    elif how == 2:
        dec = MsgpackDocument(doc).document()
    elif how == 3:
        dec = MsgpackDocument(BytesIO(data)).document()
    else:
        dec = MsgpackCodec.decode(data)
    ctx.ev("decodes_route_%d" % min(how, 4))
    ctx.equal(snap(dec), want, "decoded document differs from the encoded one", route=how)
    structure(ctx, dec, "decoded document")
    again = MsgpackCodec.encode(dec)
    ctx.check(again == data, "encoding the decoded document again gives other bytes", route=how)
    return dec, data


def aliases(ctx, rng, doc):
    """A value of one node which is changed in place is the value of this node only."""
    lists = [(n, f, n[f], list(n[f])) for layer in doc.layers.values() for f, t in layer.schema.fields.items() if t.typename.name == "NODEREF_MANY"
             for n in layer if f in n]
    spans = [(n, f, n[f], (n[f].start, n[f].stop)) for layer in doc.layers.values() for f, t in layer.schema.fields.items() if t.typename.name == "SPAN"
             for n in layer if f in n]
    for found, change in ((lists, lambda v: v.extend(v[:1])), (spans, lambda v: v.trim_())):
        for n, f, v, was in rng.sample(found, min(4, len(found))):
            change(v)
            for m, g, w, old in found:
                now = list(w) if isinstance(w, list) else (w.start, w.stop)
                if m is n and g == f:
                    ctx.ev("changed_in_place", now != old)
                else:
                    same = len(now) == len(old) and all(a is b for a, b in zip(now, old)) if isinstance(w, list) else now == old
                    ctx.check(same, "changing a value of one node of a decoded document in place changes the value of another node", field=f, other=g)
            if isinstance(v, list):
                v[:] = was
            else:
                n[f] = TextSpan(v.text, *was)
                found[[x[2] is v for x in found].index(True)] = (n, f, n[f], was)
            ctx.ev("in_place")


def vandalise(rng, doc):
    """Change everything that can be changed in a document."""
    def walk(v):
        if isinstance(v, dict):
            for x in v.values():
                walk(x)
            v["garbage"] = 1
        elif isinstance(v, list):
            for x in v:
                walk(x)
            v.append("garbage")
    walk(doc.props)
    for layer in doc.layers.values():
        for n in layer:
            for f, v in list(n.items()):
                if isinstance(v, list):
                    v.clear()
                n[f] = None
        nodes = list(layer)
        layer.remove(nodes[::2])
        layer.add()
        used = set(layer.schema.fields)
        layer.add_field(gen.rname(rng, used), DataTypes.int32(7))
        for f, t in layer.schema.fields.items():
            if all(t is not s for s in vars(DataTypes).values()):            # those are shared by all documents on purpose
                t.options["garbage"] = 1
    used = set(doc.texts)
    doc.add_text(gen.rname(rng, used), "garbage")


def roundtrip(ctx, rng):
    doc = gen.document(rng, gen.Opts(ext=rng.random() < .3))
    observe(ctx, doc)
    dec, data = one(ctx, rng, doc)
    if rng.random() < .3:
        aliases(ctx, rng, dec)
    if rng.random() < .3:
        want = snap(doc)
        a, b = (dec, doc) if rng.random() < .5 else (doc, dec)
        vandalise(rng, a)
        ctx.equal(snap(b), want, "changing a decoded document changes the original, or the reverse", changed="decoded" if a is dec else "original")
        ctx.check(MsgpackCodec.encode(b) == data, "changing a decoded document changes the encoding of the original, or the reverse")
        ctx.ev("independence_observed")
    ctx.sample({"shape": repr(gen.shape(doc))[:400], "bytes": len(data)})


def embedded(ctx, rng):
    """A document inside of another one: encoded by itself, held by both, changed through the outer one."""
    inner = gen.document(rng, gen.Opts(max_nodes=8, max_layers=3))
    want, data = snap(inner), MsgpackCodec.encode(inner)
    doc = Document()
    layer = doc.add_layer("l", d=DataTypes.ext("doc"))
    form = rng.randrange(3)
    layer.add(d=[lambda: inner, lambda: MsgpackDocumentExt(inner), lambda: MsgpackDocumentExt(data)][form]())
    for _ in range(rng.randint(1, 3)):
        out = MsgpackCodec.encode(doc)
        ctx.check(MsgpackCodec.encode(doc) == out, "a document with an embedded one encodes differently the second time")
        doc = MsgpackCodec.decode(out)
        node = doc["l"].first()
        got = node["d"]
        ctx.equal(snap(got), want, "an embedded document differs", form=form)
        ctx.check(MsgpackCodec.encode(got) == data, "an embedded document encodes differently", form=form)
        ctx.check(node["d"] is got and node.get("d") is got, "an embedded document is another object every time")
        structure(ctx, got, "embedded document")
        if rng.random() < .6:
            gen.history(rng, got)
            gen.repair(got)
            got.props["generation"] = rng.getrandbits(30)
            want, data = snap(got), MsgpackCodec.encode(got)
            ctx.ev("embedded_changed")
        ctx.ev("embedded")
    ext = MsgpackDocumentExt(rng.choice([data, MsgpackCodec.decode(data)]))
    ctx.check(ext.encode() == data, "an embedded document holds other bytes")
    got = ext.decode()
    ctx.equal(snap(got), want, "an embedded document differs")
    ctx.check(ext.decode() is got, "an embedded document is another object every time")
    got.props["later"] = 1
    ctx.check(ext.encode() == MsgpackCodec.encode(got), "a change of an embedded document is not seen")
    ctx.seen("embedded", form, gen.shape(got))


def twins(ctx, rng):
    """Values which are equal but not the same: after decoding each belongs to one place only."""
    inner = gen.document(rng, gen.Opts(max_nodes=5, max_layers=2))
    data = MsgpackCodec.encode(inner)
    doc = Document()
    nested = rng.choice([{"k": [1, 2]}, [1, [2]], {"a": {"b": []}}])
    for k in "abc":
        doc.props[k] = copy.deepcopy(nested)
    text = doc.add_text("main", "some text to point into")
    layer = doc.add_layer("l", d=DataTypes.ext("doc"), x=DataTypes.ext("other"), s=text.spantype, many=DataTypes.noderef_many("l"), p=DataTypes.nodespan("l"))
    for _ in range(rng.choice([2, 3, 20])):
        layer.add(d=MsgpackDocumentExt(rng.choice([data, MsgpackCodec.decode(data)])), x=ExtData("other", b"same"), s=text[4:10])
    nodes = list(layer)
    for n in nodes:
        n["many"] = nodes[:2]
        n["p"] = NodeSpan(nodes[0], nodes[-1])
    out = MsgpackCodec.encode(doc)
    for _ in range(2):
        dec = MsgpackDocument(out).document() if rng.random() < .5 else MsgpackCodec.decode(out)
        nodes = list(dec["l"])
        k = rng.randrange(len(nodes))
        kind = rng.choice(["embedded", "embedded", "ext", "props", "many", "span"])
        want = snap(inner)
        if kind == "embedded":
            nodes[k]["d"].props["changed"] = 1
            nodes[k]["d"].add_text(gen.rname(rng, set(want["texts"])), "changed")
        elif kind == "ext":
            nodes[k]["x"].data = b"changed"
        elif kind == "props":
            v = dec.props["b"]
            v.append(3) if isinstance(v, list) else v.update(changed=1)
        elif kind == "many":
            nodes[k]["many"].append(nodes[0])
        else:
            nodes[k]["s"].trim_()
        for j, n in enumerate(nodes):
            if j != k or kind != "embedded":
                ctx.equal(snap(n["d"]), want, "changing one value of a decoded document changes an equal one elsewhere", changed=kind)
            if j != k or kind != "ext":
                ctx.check(n["x"].data == b"same" and n["x"].type == "other", "changing one value of a decoded document changes an equal one elsewhere", changed=kind)
            if j != k or kind != "many":
                ctx.check([m.i for m in n["many"]] == [0, 1], "changing one value of a decoded document changes an equal one elsewhere", changed=kind)
            if j != k or kind != "span":
                ctx.check((n["s"].start, n["s"].stop) == (4, 10), "changing one value of a decoded document changes an equal one elsewhere", changed=kind)
        for name in "abc" if kind != "props" else "ac":
            ctx.equal(dec.props[name], nested, "changing one value of a decoded document changes an equal one elsewhere", changed=kind)
        again = MsgpackCodec.decode(MsgpackCodec.encode(dec))
        ctx.equal(snap(again), snap(dec), "decoded document differs from the encoded one", changed=kind)
        ctx.ev("twin_" + kind)
    ctx.seen("twins", len(nodes), repr(nested), gen.shape(inner))


def lifetimes(ctx, rng):
    """Several generations: decode, change, encode, decode ..."""
    doc = gen.document(rng, gen.Opts(max_nodes=20))
    for _ in range(rng.randint(2, 5)):
        observe(ctx, doc)
        doc, _ = one(ctx, rng, doc)
        gen.history(rng, doc)
        gen.repair(doc)
        if rng.random() < .5:
            gen.fill(rng, doc)
            gen.repair(doc)
        ctx.ev("generations")


def boundaries(ctx, rng):
    doc = gen.document(rng, gen.Opts(huge=.5, max_layers=3, max_nodes=300))
    observe(ctx, doc)
    one(ctx, rng, doc)
    ctx.ev("boundary_documents")


def long(ctx, rng):
    """Long layers: every position counts."""
    doc = gen.long_document(rng, gen.Opts(ext=True, kinds=rng.choice([gen.ALL, ["ext"], ["ext", "span", "refs"]])))
    observe(ctx, doc)
    one(ctx, rng, doc)
    ctx.ev("long_documents")


def large(ctx, rng):
    """Columns and texts beyond the 16 bit headers."""
    from docria.model import DataTypes as T
    doc = Document()
    n = rng.choice([65535, 65536, 65537]) if ctx.thorough else rng.choice([32768, 65535, 65536])
    unit = gen.rstr(rng, 97)
    text = doc.add_text("main", (unit * (n // 97 + 2))[:n + 5])
    a = doc.add_layer("a", s=text.spantype, k=T.int32(None), r=T.noderef("b"))
    b = doc.add_layer("b", ns=T.nodespan("a"), many=T.noderef_many("a"), t=T.string(None))
    m = rng.choice([1, 15, 16, 17])
    b.add_many([Node() for _ in range(m)])
    bl = list(b)
    nodes = []
    for k in range(n if rng.random() < .5 else 3000):
        nodes.append(Node(s=text[k:k + 1 + k % 3], k=k, r=bl[k % m]))
    a.add_many(nodes)
    bl[0]["t"] = gen.rstr(rng, rng.choice([65535, 65536, 70000]))
    bl[0]["many"] = nodes[:rng.choice([15, 16, 255, 256, 1000])]
    from docria.model import NodeSpan
    bl[-1]["ns"] = NodeSpan(nodes[0], nodes[-1])
    observe(ctx, doc)
    one(ctx, rng, doc, how=4)
    ctx.ev("large_documents")


SCENARIOS = [("roundtrip", roundtrip, 3500, 100000), ("lifetimes", lifetimes, 500, 15000), ("boundaries", boundaries, 120, 4000),
             ("embedded", embedded, 200, 6000), ("twins", twins, 150, 5000),
             ("long", long, 60, 2000), ("large", large, 2, 30)]
REQUIRED = {"encodes": 500, "values_SPAN": 200, "values_NODEREF": 200, "values_NODEREF_MANY": 100, "values_NODEREF_SPAN": 100,
            "values_BINARY": 100, "values_F64": 100, "values_I64": 100, "values_BOOL": 100, "values_STRING": 100, "values_EXT": 20,
            "generations": 100, "embedded": 200, "embedded_changed": 80, "long_documents": 30, "independence_observed": 500, "changed_in_place": 300, "twin_embedded": 40, "twin_ext": 20, "twin_props": 20, "twin_many": 20, "twin_span": 20}
