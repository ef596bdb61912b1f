"""Documents mean the same in Python and in Java."""
import struct

from docria.codec import MsgpackCodec, MsgpackDocument
from docria.model import DataTypes as T

from mon import gen, java

RULE = ("random documents (every field type, hostile unicode, size boundaries, histories) encoded by either implementation and read by the other, built "
        "from an image in Java along several construction routes, passed back and forth for several generations, read in part through MsgpackDocument, "
        "read into application classes, cut short; images are taken through the public interface on both sides; distinct = document shapes x direction")
ASSUMPTIONS = ["msgpack-core and fastutil are not available offline: the Java code runs on stand-ins with the same interface (java/stubs)",
               "offsets count code points in Python and UTF-16 units in Java; texts are valid Unicode", "an empty node array is the same as an unset field",
               "Java has no list or map properties: they may be refused; Python has no extension properties", "NaN is one value"]


def make(rng, **kw):
    opts = gen.Opts(ext=rng.random() < .4, flat=True, **kw)
    doc = gen.document(rng, opts) if rng.random() < .99 or kw else gen.long_document(rng, opts)
    for k in list(doc.props):
        if isinstance(doc.props[k], (list, dict)):
            del doc.props[k]
    return doc


def same(ctx, got, want, what, **kw):
    ctx.equal(java.nan(got), java.nan(want), what, **kw)


def run(ctx, what, *cmd):
    try:
        return java.call(*cmd)
    except java.Refused as e:
        ctx.check(False, what, refused=e.text[:1200])


def observe(ctx, doc, direction):
    n = 0
    for layer in doc.layers.values():
        for f, t in layer.schema.fields.items():
            c = sum(1 for x in layer if f in x)
            if c:
                ctx.ev("values_%s" % t.typename.name, c)
                n += c
    ctx.ev("nodes", sum(len(x) for x in doc.layers.values()))
    ctx.ev("astral_texts", sum(1 for t in doc.texts.values() if any(ord(c) > 0xffff for c in str(t))))
    ctx.seen(direction, gen.shape(doc))
    ctx.sample({"direction": direction, "shape": repr(gen.shape(doc))[:300]})


def decode(ctx, rng):
    doc = make(rng, huge=.02)
    want = java.image(doc)
    data = MsgpackCodec.encode(doc)
    same(ctx, run(ctx, "Java does not read a document from Python", "decode", data), want, "Java reads another document than Python wrote")
    ctx.ev("python_to_java")
    observe(ctx, doc, "decode")


def recode(ctx, rng):
    doc = make(rng, huge=.02)
    want = java.image(doc)
    data = MsgpackCodec.encode(doc)
    for k in range(rng.choice([1, 1, 2, 3])):
        before, x, after, y = run(ctx, "Java does not read and write a document from Python", "recode", data)
        same(ctx, before, want, "Java reads another document", generation=k)
        same(ctx, after, want, "encoding changed the document in Java", generation=k)
        ctx.check(x == y, "Java encoded the same document differently the second time", generation=k)
        back = MsgpackCodec.decode(x)
        same(ctx, java.image(back), want, "Python reads another document than Java wrote", generation=k)
        ctx.ev("round_trips")
        data = MsgpackCodec.encode(back) if rng.random() < .6 else x
    observe(ctx, doc, "recode")


def build(ctx, rng):
    doc = make(rng)
    want = java.image(doc)
    own = {}
    if rng.random() < .2:
        own["own"] = ["ext", rng.choice(["blob", "doc2", "x", ""]), gen.rbytes(rng)]
    if rng.random() < .1:
        own["sub"] = ["ext", "doc", java.image(make(rng, max_layers=2, max_nodes=4))]
    full = dict(want, props=dict(want["props"], **own))
    before, x, after, y = run(ctx, "Java does not build a document", "build", full, rng.randrange(8))
    same(ctx, before, full, "the document built in Java is another one")
    same(ctx, after, full, "encoding changed the document built in Java")
    ctx.check(x == y, "Java encoded the same document differently the second time")
    same(ctx, run(ctx, "Java does not read its own document", "decode", x), full, "Java reads another document than it wrote")
    for how, back in (("decode", MsgpackCodec.decode(x)), ("handle", MsgpackDocument(x).document())):
        # extension properties exist in Java only
        for k in own:
            ctx.check(k in back.props, "a property is missing", property=k)
            del back.props[k]
        same(ctx, java.image(back), want, "Python reads another document than was built in Java", how=how)
    ctx.ev("java_to_python")
    ctx.ev("own_extension_properties", len(own))
    observe(ctx, doc, "build")


def long(ctx, rng):
    """Long layers, long runs of pieces of text, long values."""
    doc = gen.long_document(rng, gen.Opts(ext=rng.random() < .4, flat=True), sizes=[300, 700, 1030, 2100])
    text, end = doc.maintext, len(doc.maintext)
    if rng.random() < .6:
        # a piece of text per character
        layer = doc.add_layer("pieces", s=T.span())
        for k in range(end):
            layer.add(s=text[k:k + 1])
    if rng.random() < .3:
        layer = doc.add_layer("values", b=T.binary, s=T.string(None))
        for n in rng.sample([255, 256, 65535, 65536, 70000], 2):
            layer.add(b=rng.randbytes(n), s=gen.rstr(rng, 9)[:3] + "x" * n)
    want = java.image(doc)
    data = MsgpackCodec.encode(doc)
    if rng.random() < .5:
        before, x, after, y = run(ctx, "Java does not read and write a long document from Python", "recode", data)
        same(ctx, before, want, "Java reads another long document")
    else:
        before, x, after, y = run(ctx, "Java does not build a long document", "build", want, rng.randrange(8))
        same(ctx, before, want, "the long document built in Java is another one")
    same(ctx, after, want, "encoding changed the long document")
    ctx.check(x == y, "Java encoded the same document differently the second time")
    same(ctx, java.image(MsgpackCodec.decode(x)), want, "Python reads another long document than Java wrote")
    same(ctx, run(ctx, "Java does not read its own document", "decode", x), want, "Java reads another long document than it wrote")
    ctx.ev("long_documents")
    observe(ctx, doc, "long")


def far(ctx, rng):
    """References to nodes beyond 2^15 and 2^16."""
    doc = gen.Document()
    layer = doc.add_layer("far", r=T.noderef("far"), m=T.noderef_many("far"), s=T.nodespan("far"), n=T.int32(None))
    nodes = [layer.add() for _ in range(rng.choice([32769 + 200, 65537 + 200]))]
    for x in [nodes[0], nodes[-1]] + rng.sample(nodes, 20):
        a, b = sorted((rng.randrange(len(nodes)), len(nodes) - 1 - rng.randrange(200)))
        x["r"], x["m"], x["s"], x["n"] = nodes[b], [nodes[a], nodes[b], nodes[0]], gen.NodeSpan(nodes[a], nodes[b]), b
    want = java.image(doc)
    before, x, after, y = run(ctx, "Java does not read and write a document of many nodes", "recode", MsgpackCodec.encode(doc))
    ctx.check(before == want, "Java reads another document of many nodes")
    ctx.check(after == want and x == y, "encoding changed the document of many nodes")
    ctx.check(java.image(MsgpackCodec.decode(x)) == want, "Python reads another document of many nodes than Java wrote")
    ctx.ev("far_references")
    ctx.seen("far", len(nodes))


def change(ctx, rng):
    """Documents inside of a decoded document are changed, then everything is encoded."""
    doc = make(rng, max_layers=3, max_nodes=8)
    want = java.image(doc)
    data = MsgpackCodec.encode(doc)
    if rng.random() < .6:
        # properties that are documents exist in Java only
        want["props"]["inner"] = ["ext", "doc", java.image(make(rng, max_layers=1, max_nodes=3))]
        data = run(ctx, "Java does not build a document", "build", want, rng.randrange(8))[1]
    for k in range(rng.choice([1, 2, 3])):
        places = [(["prop", p], v[2]) for p, v in want["props"].items() if v and v[0] == "ext" and v[1] == "doc"]
        places += [(["field", name, i, f], v[2]) for name, l in want["layers"].items() for i, n in enumerate(l["nodes"]) for f, v in n.items() if v and v[0] == "ext" and v[1] == "doc"]
        rng.shuffle(places)
        edits = []
        for e, img in places[:rng.choice([0, 1, 2, 9])] + ([(["self"], want)] if rng.random() < .5 else []):
            n = rng.choice([None, rng.randint(-99, 99)])
            edits.append(e + [n])
            img["props"].pop("changed", None)
            if n is not None:
                img["props"]["changed"] = ["int", n]
            ctx.ev("changed_inner_documents", e != ["self"])
        x, after, y = run(ctx, "Java does not change a document", "change", data, rng.random() < .5, edits)
        same(ctx, after, want, "the document changed in Java is another one", edits=edits, generation=k)
        if not places:
            # an inner document that was looked at is encoded anew, possibly in other bytes
            ctx.check(x == y, "Java encoded the same document differently the second time", generation=k)
        same(ctx, run(ctx, "Java does not read its own document", "decode", y), want, "Java encoded the same document differently the second time", edits=edits, generation=k)
        same(ctx, run(ctx, "Java does not read its own document", "decode", x), want, "a change is not in what Java encoded", edits=edits, generation=k)
        back = MsgpackCodec.decode(x)
        back.props.pop("inner", None)
        same(ctx, java.image(back), dict(want, props={p: v for p, v in want["props"].items() if p != "inner"}), "a change is not in what Java encoded for Python", edits=edits, generation=k)
        data = x
    ctx.ev("changes")
    observe(ctx, doc, "change")


HANDLE = ["props", "schema", "document", "data", "compartments", "static props", "static schema", "assemble"]


def handle(ctx, rng):
    doc = make(rng, max_layers=rng.choice([0, 1, 2, 5]), max_nodes=10)
    want = java.image(doc)
    schema = {k: v["schema"] for k, v in want["layers"].items()}
    data = MsgpackCodec.encode(doc)
    if rng.random() < .3:
        data = run(ctx, "Java does not read and write a document", "recode", data)[1]
    parts = None
    ops = [rng.choice(HANDLE) for _ in range(rng.randint(1, 6))]
    out = run(ctx, "Java does not open a document", "handle", data, ops)
    for op, (ok, *r) in zip(ops, out):
        ctx.check(ok, "part of a document could not be read in Java", operation=op, operations=ops, refused=str(r[-1])[:900])
        got = r[0]
        if op in ("props", "static props"):
            same(ctx, got, want["props"], "the properties read from the handle are others", operation=op)
        elif op == "schema":
            same(ctx, got, schema, "the schema read from the handle is another one")
        elif op == "static schema":
            s, types, columns = got
            same(ctx, s, schema, "the schema of the schema compartment is another one")
            ctx.check(sorted(types) == sorted(schema) and len(types) == len(schema), "the layers listed are not those of the schema", got=types)
            ctx.equal({k: sorted(v) for k, v in columns.items()}, {k: sorted(v) for k, v in schema.items()}, "the columns listed are not the fields")
        elif op == "document":
            same(ctx, got, want, "the document of the handle is another one", operations=ops)
        elif op in ("data", "assemble"):
            ctx.check(got == data, "the handle holds other bytes than the document has", operation=op, operations=ops)
        else:
            parts = got
            ctx.check(b"DM_1" + b"".join(parts) == data, "the compartments are not the document", sizes=[len(p) for p in parts], total=len(data))
        ctx.ev("handle_" + op.replace(" ", "_"))
    observe(ctx, doc, "handle")
    ctx.seen("handle", tuple(ops), len(doc.layers))


def records(ctx, rng):
    """Layers read into a class of the application, some of whose fields are members of the class."""
    doc = make(rng, max_layers=2)
    t = doc.add_text("r text", gen.rstr(rng, 12))
    names = rng.sample(["rec", "rec2", "other"], rng.randint(1, 3))
    for name in names:
        kinds = [T.int32(None), T.string(None), T.span("r text"), T.binary, T.bool(None), T.float64(None)]
        layer = doc.add_layer(name, a=rng.choice(kinds), b=rng.choice(kinds), c=rng.choice(kinds), n=T.noderef(rng.choice(names)))
    for name in names:
        layer = doc.layers[name]
        for _ in range(rng.choice([0, 1, 3, 8])):
            layer.add()
    gen.fill(rng, doc, gen.Opts(flat=True))
    used = rng.sample(names, rng.randint(1, len(names)))
    want = java.image(doc)
    data = MsgpackCodec.encode(doc)
    same(ctx, run(ctx, "Java does not read a document into application classes", "decode", data, used), want, "application classes hold another document")
    before, x, after, y = run(ctx, "Java does not write application classes", "recode", data, used)
    same(ctx, after, want, "encoding changed the application classes")
    same(ctx, java.image(MsgpackCodec.decode(x)), want, "application classes were written as another document")
    ctx.ev("record_layers", len(used))
    observe(ctx, doc, "records")


def damaged(ctx, rng):
    """A document that is cut short, or begins differently, is refused in Java as well."""
    doc = make(rng, max_layers=3, max_nodes=6)
    data = MsgpackCodec.encode(doc)
    cuts = range(len(data)) if len(data) < 120 else sorted(rng.sample(range(len(data)), 60))
    for k in cuts:
        try:
            img = java.call("decode", data[:k])
        except java.Refused:
            ctx.ev("truncations_refused")
            continue
        ctx.check(False, "Java decoded a document that is cut short", size=len(data), kept=k, decoded=img)
    # a handle gives what the whole document has, or refuses: also when asked again
    ops = ["props", "schema", "compartments", "static schema", "property bytes", "schema bytes", "text bytes", "layer bytes", "document"]
    whole = dict(zip(ops, run(ctx, "Java does not open a document", "handle", data, ops)))
    for k in list(cuts)[-8:] + rng.sample(list(cuts), min(6, len(cuts))):
        if k < 4:
            continue
        asked = [rng.choice(ops[:8]) if rng.random() < .7 else rng.choice(ops) for _ in range(rng.randint(2, 4))]
        out = run(ctx, "Java does not open the beginning of a document", "handle", data[:k], asked)
        for op, (ok, *r) in zip(asked, out):
            ctx.check(not ok or (op not in ("document", "compartments", "layer bytes") and r[0] == whole[op][1]), "a handle of a document that is cut short gives something else",
                      operation=op, operations=asked, kept=k, size=len(data), got=repr(r)[:300] if ok else None)
            ctx.ev("cut_handles")
    k = rng.randrange(4)
    for bad in (data[:k] + bytes([data[k] ^ (1 << rng.randrange(8))]) + data[k + 1:], b"", b"Dmf1" + data[4:], data[4:]):
        for cmd in (("decode", bad), ("handle", bad, ["document"])):
            try:
                r = java.call(*cmd)
            except java.Refused:
                ctx.ev("foreign_refused")
                continue
            ctx.check(cmd[0] == "handle" and not r[0][0], "Java accepted data that is no document", command=cmd[0], head=bad[:8].hex(), answer=r)
    ctx.seen("damaged", len(data))


def unsupported(ctx, rng):
    """What Java cannot hold is refused, or read as what it is."""
    doc = make(rng, max_layers=1, max_nodes=3)
    for k in list(doc.props):
        if rng.random() < .5:
            del doc.props[k]
    doc.props["odd"] = v = rng.choice([[], [1, 2], {}, {"a": 1}, [[None]], 2 ** 64 - 1, 2 ** 63, 2 ** 63 + rng.getrandbits(60), {"a": [b"x"]}])
    data = MsgpackCodec.encode(doc)
    try:
        img = java.call("decode", data)
    except java.Refused:
        ctx.ev("unsupported_refused")
    else:
        same(ctx, img, java.image(doc), "Java read an unsupported property as something else", value=repr(v))
        ctx.ev("unsupported_read")
    ctx.seen("unsupported", repr(v)[:10])


def halves(ctx, rng):
    """Spans that begin or end within a surrogate pair cannot be written; nothing else may come of them."""
    text = "".join(rng.choice(["a", "\xe5", "\U0001f600", "\U0001d11e"]) for _ in range(rng.randint(1, 12))) + rng.choice(["", "\U0001f600"])
    b16 = text.encode("utf-16-be")
    cuts, inside = [0], []
    for c in text:
        if ord(c) > 0xffff:
            inside.append(cuts[-1] + 1)
        cuts.append(cuts[-1] + java.u16(c))
    nodes, split = [], False
    for _ in range(rng.randint(1, 4)):
        a, b = sorted((rng.choice(cuts + inside), rng.choice(cuts + inside)))
        if a == cuts[-1]:
            a = 0
        split |= a in inside or b in inside
        nodes.append({"s": ["span", "main", a, b, b16[2 * a:2 * b].decode("utf-16-be", "replace")]})
    img = {"props": {}, "texts": {"main": text}, "layers": {"l": {"schema": {"s": ["span", {"context": ["str", "main"]}]}, "len": len(nodes), "nodes": nodes}}}
    try:
        x = java.call("build", img, 0)[1]
    except java.Refused:
        ctx.check(split, "Java refused to encode spans over whole characters", nodes=nodes, text=text)
        ctx.ev("split_characters_refused")
    else:
        back = MsgpackCodec.decode(x)
        ctx.equal(str(back.texts["main"]), text, "the text changed when a document with spans within characters was encoded", nodes=nodes)
        ctx.check(not split, "Java encoded a span that does not begin and end between characters", nodes=nodes, text=text)
        same(ctx, java.image(back), img, "Python reads another document than was built in Java")
        ctx.ev("whole_characters")
    ctx.seen("halves", split, len(inside), len(nodes))


SCALARS = {"i32": "int", "i64": "long", "f64": "float", "str": "str", "bin": "bytes", "i1": "bool"}


def misfit(ctx, rng):
    """A value that its field cannot hold is refused when the document is encoded, or it comes back as what it was."""
    doc = make(rng, max_layers=3, max_nodes=6, history=False)
    a = doc.add_layer("kinds", i32=T.int32(None), i64=T.int64(None), f64=T.float64(None), str=T.string(None), bin=T.binary, i1=T.boolean(None), noderef=T.noderef("kinds"), noderef_array=T.noderef_many("kinds"),
                      nodespan=T.nodespan("kinds"), ext=T.ext("foo"))
    doc.add_layer("others", i32=T.int32(None))
    n = 3 if rng.random() < .94 else 600
    ctx.ev("late_misfits", n > 3)
    for k in range(n):
        a.add(i32=k)
        doc.layers["others"].add(i32=k)
    data = MsgpackCodec.encode(doc)
    before = java.image(doc)
    nodes = before["layers"]["kinds"]["nodes"]
    ty = rng.choice(sorted(a.schema.fields))
    kind = rng.choice(["int", "long", "float", "str", "bytes", "bool", "ref", "refs", "nodespan", "ext", "none"])
    layer = rng.choice(["kinds", "kinds", "others"])
    small, big = rng.randint(-2 ** 31, 2 ** 31 - 1), rng.choice([2 ** 31, -2 ** 31 - 1, 2 ** 40, 2 ** 63 - 1])
    x, y = sorted((rng.randrange(n), rng.randrange(n)))
    mixed = rng.random() < .3
    v = {"int": ["int", small], "long": ["long", rng.choice([small, big])], "float": plain_float(rng.choice([2.5, -1.0, 3.0, 1e300])), "str": ["str", rng.choice(["", "1", "text"])], "bytes": ["bytes", rng.choice([b"", b"1", b"\xff\x00"])],
         "bool": ["bool", rng.random() < .5], "ref": ["ref", layer, x], "refs": ["refs", [["ref", layer, x]] + ([["ref", "others" if mixed else layer, y]] if rng.random() < .6 else [])],
         "nodespan": ["nodespan", ["ref", layer, x], ["ref", "others" if mixed else layer, y]], "ext": ["ext", rng.choice(["foo", "foo", "bar"]), b"data"], "none": ["none"]}[kind]
    fits = {"i32": kind == "int", "i64": kind == "long", "f64": kind == "float", "str": kind == "str", "bin": kind == "bytes", "i1": kind == "bool",
            "noderef": kind == "ref" and layer == "kinds", "noderef_array": kind == "refs" and all(r[1] == "kinds" for r in v[1]), "nodespan": kind == "nodespan" and v[1][1] == v[2][1] == "kinds",
            "ext": kind == "ext" and v[1] == "foo"}[ty] or kind == "none"
    k = rng.randrange(n)
    done, again = run(ctx, "a field could not be changed", "misfit", data, "kinds", k, ty, v)
    kw = dict(field_type=ty, value=v)
    same(ctx, java.image(MsgpackCodec.decode(again)), before, "the document changed although the value was taken back", **kw)
    ctx.check(done[0] or not fits, "a value of its field's type was refused", refused=str(done[1:])[:800], **kw)
    if not done[0]:
        ctx.ev("misfits_refused")
    else:
        try:
            got = java.image(MsgpackCodec.decode(done[1]))
        except Exception as e:
            ctx.check(False, "a document was written that Python cannot read", error="%s: %s" % (type(e).__name__, str(e)[:300]), **kw)
        back = run(ctx, "a document was written that Java cannot read", "decode", done[1])
        for img, who in ((got, "Python"), (back, "Java")):
            w = img["layers"]["kinds"]["nodes"][k].pop(ty, None)
            ctx.check(agrees(w, v), "a value that its field cannot hold came back as something else", reader=who, got=str(w)[:200], **kw)
            rest = {f: z for f, z in nodes[k].items() if f != ty}
            same(ctx, img, dict(before, layers=dict(before["layers"], kinds=dict(before["layers"]["kinds"], nodes=nodes[:k] + [rest] + nodes[k + 1:]))), "other parts of the document changed", **kw)
        ctx.ev("fits" if fits else "misfits_kept")
    ctx.seen("misfit", ty, kind, layer, fits)


def plain_float(f):
    return java.plain(["float", struct.pack(">d", f).hex()])


def agrees(w, v):
    """Is w, read back, the value v?"""
    if v[0] == "none":
        return w is None
    if w is None:
        return False
    if v[0] in ("int", "long", "float"):
        num = [float_of(z[1]) if z[0] == "float" else z[1] for z in (w, v)]
        return w[0] in ("int", "float") and num[0] == num[1]
    if v[0] == "nodespan":
        return w[:3] == v
    return w == v or v[0] == "bytes" and w == ["ext", "foo", v[1]]


def float_of(bits):
    return struct.unpack(">d", struct.pack(">q", bits))[0]


def beside(ctx, rng, commands=None):
    """Threads that each work on documents of their own do not disturb each other."""
    if commands is None:
        commands = []
        for _ in range(rng.choice([2, 4, 8])):
            data = MsgpackCodec.encode(make(rng, max_layers=3, max_nodes=rng.choice([5, 60])))
            commands.append([rng.choice(["decode", "recode", "recode"]), data])
    alone = [run(ctx, "Java refuses what is fine", *c) for c in commands]
    rounds = rng.choice([2, 5, 10])
    got = run(ctx, "Java did not answer", "beside", commands, rounds)
    for c, want, mine in zip(commands, alone, got):
        ctx.equal(len(mine), rounds, "rounds of a thread")
        for ok, *r in mine:
            ctx.check(ok, "Java fails when other threads work beside it on documents of their own", command=c[0], refused=str(r)[:900])
            ctx.check(java.nan(r[0]) == java.nan(want), "Java gives something else when other threads work beside it on documents of their own", command=c[0], got=str(r[0])[:600], want=str(want)[:600])
        ctx.ev("beside_others", rounds)
    ctx.seen("beside", len(commands), rounds)


SCENARIOS = [("beside", beside, 40, 1500), ("decode", decode, 700, 30000), ("recode", recode, 400, 15000), ("build", build, 400, 15000), ("change", change, 150, 6000), ("handle", handle, 400, 12000),
             ("records", records, 150, 6000), ("damaged", damaged, 40, 1500), ("unsupported", unsupported, 60, 2000), ("halves", halves, 80, 3000), ("misfit", misfit, 400, 12000), ("long", long, 30, 900), ("far", far, 1, 6)]
REQUIRED = {"beside_others": 300, "python_to_java": 350, "round_trips": 340, "java_to_python": 200, "values_SPAN": 3000, "values_NODEREF": 2000, "values_NODEREF_MANY": 1000,
            "values_NODEREF_SPAN": 1000, "astral_texts": 300, "handle_document": 75, "handle_assemble": 75, "record_layers": 75, "changed_inner_documents": 60, "changes": 75, "split_characters_refused": 15, "whole_characters": 8, "misfits_refused": 150, "fits": 30, "truncations_refused": 1000, "cut_handles": 800, "long_documents": 15, "late_misfits": 6, "far_references": 1}
