"""Nothing that violates the declared schema is ever serialized."""
import io
import json

from docria.codec import MsgpackCodec, JsonCodec, XmlCodec, MsgpackDocument
from docria.collection import MsgpackDocumentWriter, TarMsgpackWriter, get_codec
from docria.model import Node, DataTypeEnum, Document, DataTypes as T, NodeSpan, NodeList

from mon import gen, corrupt
from mon.snap import snap
from mon.props.c02 import ENCODERS, enc_msgpack, enc_json, enc_xml, enc_writer, strip_binary_props

RULE = ("a valid random document (fresh, decoded from the binary format, decoded from JSON, or unpickled) gets exactly one violation "
        "planted (12 kinds); every encoder has to refuse it, and accept it again once the violation is undone; "
        "distinct = violation kind x origin x field type x document shape")
ASSUMPTIONS = ["references and spans are checked against the layer name and text name (objects of another document with the same "
               "names are the caller's responsibility)", "a boolean is accepted where an integer is declared",
               "bytes are accepted for extension data, also where they should be an embedded document"]


def origin(rng, doc):
    r = rng.random()
    if r < .4:
        return "fresh", doc
    if r < .65:
        return "binary", MsgpackCodec.decode(MsgpackCodec.encode(doc))
    if r < .8:
        return "json", JsonCodec.decode(JsonCodec.encode(doc))
    import pickle
    return "pickle", pickle.loads(pickle.dumps(doc))


def gate(ctx, rng):
    if rng.random() < .08:
        # the violation is anywhere in long layers
        doc = gen.long_document(rng, gen.Opts(history=False, kinds=rng.choice([gen.ALL, ["ref"], ["refs"], ["nodespan"], ["span"], ["i32", "str"]])), sizes=[300, 700, 1025])
        ctx.ev("long_documents")
    else:
        doc = gen.document(rng, gen.Opts(simple_names=True, max_nodes=17, xml=True, ext=rng.random() < .4))
    strip_binary_props(doc)
    src, doc = origin(rng, doc)
    for e in (enc_msgpack, enc_json, enc_xml):
        e(doc)  # control: the valid document is accepted
    ctx.ev("accepted_valid")
    kinds = corrupt.kinds()
    kind = rng.choice(kinds)
    r = corrupt.plant(rng, doc, kind)
    if r is None:
        r = corrupt.plant(rng, doc)
        if r is None:
            ctx.ev("nothing_to_corrupt")
            return
    kind, undo = r
    enc = [enc_msgpack, enc_json, enc_xml] + rng.sample(ENCODERS, 2)
    for e in enc:
        ctx.rejects(lambda: e(doc), "a document that violates its schema was serialized", kind=kind, origin=src, encoder=e.__name__)
        ctx.ev("refused_" + kind.replace(" ", "_"))
    undo()
    for e in (enc_msgpack, enc_json, enc_xml):
        e(doc)
    ctx.ev("accepted_again")
    ctx.ev("origin_" + src)
    ctx.seen(kind, src, gen.shape(doc))
    ctx.sample({"kind": kind, "origin": src})


def typed(ctx, rng):
    """One field, one value: accepted exactly when the value is of the declared type - on every path that validates."""
    doc = Document()
    text = doc.add_text("main", gen.rstr(rng, 12))
    other = doc.add_text("other", gen.rstr(rng, 9))
    tgt = doc.add_layer("t", x=T.int32(None))
    tgt.add_many([Node() for _ in range(4)])
    alien = doc.add_layer("u", x=T.int32(None))
    alien.add_many([Node() for _ in range(2)])
    layers = ["t"]
    kind = rng.choice(gen.ALL + ["ext"])
    dt = gen.rtype(rng, kind, {"main": text}, layers)
    dt = dt() if callable(dt) else dt
    layer = doc.add_layer("l", f=dt)
    tn = list(tgt)
    good = rng.random() < .5
    if good:
        v = gen.rvalue(rng, dt, doc)
        if kind == "refs" and rng.random() < .3:
            v = rng.choice([tgt[0:2], tgt[tgt["x"] == None], NodeSpan(tn[0], tn[2])])  # noqa: E711
    else:
        pool = [x(dt) if callable(x) else x for x in corrupt.WRONG[dt.typename]]
        if kind == "span":
            pool += [other[0:2], other[(0, 0)]]
        if kind in ("ref",):
            pool += [alien.first(), Node(x=1)]
        if kind == "refs":
            pool += [[alien.first()], [tn[0], alien.first()], [Node()], [tn[0], None]]
        if kind == "nodespan":
            pool += [NodeSpan(alien.first(), alien.last())]
            for side in ("left", "right"):
                for end in (alien.first(), Node(x=1), Node()):
                    v = NodeSpan(tn[0], tn[2])
                    setattr(v, side, end)
                    pool.append(v)
            v = NodeSpan(tn[1], tn[2])
            v.left = tn[3]
            pool.append(v)
        v = rng.choice(pool)
    if rng.random() < .5:
        data = MsgpackCodec.encode(doc)
        # same schema after decoding
        doc2 = MsgpackCodec.decode(data) if rng.random() < .5 else JsonCodec.decode(JsonCodec.encode(doc))
        dt2 = doc2["l"].schema.fields["f"]
        ctx.equal(bool(dt2.is_valid(v)), bool(dt.is_valid(v)), "the declared type accepts other values after decoding", value=repr(v)[:200],
                  kind=kind)
        ctx.ev("types_after_decoding")
    ctx.equal(bool(dt.is_valid(v)), good, "type check gives the wrong answer", kind=kind, value=repr(v)[:200])

    def try_(fn):
        try:
            fn()
            return True
        except Exception:
            return False

    route = rng.randrange(5)
    ctx.ev("route_%d" % route)
    if route == 0:
        ok = try_(lambda: layer.add(f=v))
        ctx.equal(ok, good, "add(**fields) accepts exactly the valid values", kind=kind, value=repr(v)[:200])
        ctx.equal(len(layer), 1 if good else 0, "number of nodes after add", kind=kind)
    elif route == 1:
        before, after = (rng.randint(0, 1200), rng.randint(0, 300)) if rng.random() < .04 else (1, 1)
        nodes = [Node() for _ in range(before)] + [Node(f=v)] + [Node() for _ in range(after)]
        ctx.ev("long_lists_added", before > 200)
        arg = rng.choice([lambda: nodes, lambda: iter(nodes), lambda: (x for x in nodes), lambda: tuple(nodes)])()
        ok = try_(lambda: layer.add_many(arg))
        ctx.equal(ok, good, "add_many accepts exactly the valid values", kind=kind, value=repr(v)[:200], arg=type(arg).__name__)
    elif route == 2:
        n = layer.add()
        n["f"] = v
        ctx.equal(bool(n.is_valid()), good, "node.is_valid()", kind=kind, value=repr(v)[:200])
        ctx.equal(try_(lambda: n.is_valid(noexcept=False)), good, "node.is_valid(noexcept=False)", kind=kind, value=repr(v)[:200])
    elif route == 3:
        n = layer.add()
        n["f"] = v
        ctx.equal(try_(lambda: layer.validate(n)), good, "layer.validate(node)", kind=kind, value=repr(v)[:200])
        made = [layer.add(), layer.add()]
        if rng.random() < .04:
            layer.add_many([Node() for _ in range(rng.choice([130, 600]))])
            late = layer.add()
            late["f"] = v
            ctx.equal(try_(layer.to_list().validate), good, "validate() of many nodes", kind=kind, value=repr(v)[:200])
            del n["f"]
            ctx.equal(try_(layer.to_list().validate), good, "validate() of many nodes", kind=kind, value=repr(v)[:200])
            ctx.equal(try_(NodeSpan(n, late).validate), good, "validate() of many nodes", kind=kind, value=repr(v)[:200])
            layer.remove(late)
            ctx.check(try_(layer.to_list().validate), "validate() of many nodes")
            n["f"] = v
            ctx.ev("long_views_validated")
        for view in (layer.to_list(), layer[0:3], NodeSpan(n, made[1]), NodeList([made[0], n])):
            ctx.equal(try_(view.validate), good, "validate() of a collection of nodes", kind=kind, value=repr(v)[:200], view=type(view).__name__)
            n["f"] = v
            del n["f"]
            ctx.check(try_(view.validate), "validate() remembers a value that is gone", kind=kind, value=repr(v)[:200], view=type(view).__name__)
            n["f"] = v
        ctx.ev("views_validated")
    else:
        layer.add_many([Node(f=v)], full_validation=False)
        kw = rng.choice([{}, {"extra_fields_ok": True}, {"extra_fields_ok": False, "type_validation": True}])
        for enc in (MsgpackCodec.encode, lambda d, **k: XmlCodec.encode_utf8string(d, **k)):
            ctx.equal(try_(lambda: enc(doc, **kw)), good, "encoding accepts exactly the valid values", kind=kind, value=repr(v)[:200],
                      options=kw)
    ctx.ev("typed_good" if good else "typed_bad")
    ctx.ev("typed_ext", kind == "ext")
    ctx.seen(kind, good, repr(v)[:60], route)


def extras(ctx, rng):
    """Undeclared fields are refused by default; when allowed they are left out and everything else is kept."""
    doc = gen.document(rng, gen.Opts(simple_names=True, max_nodes=10))
    want = snap(doc)
    if rng.random() < .1:
        doc = gen.long_document(rng)
        want = snap(doc)
    nodes = [(l, n) for l in doc.layers.values() for n in l]
    if not nodes:
        ctx.ev("nothing_to_corrupt")
        return
    for l, n in rng.sample(nodes, min(len(nodes), rng.choice([1, 2, 5]))):
        n[gen.rname(rng, set(l.schema.fields))] = gen.rprop(rng)
    for kw in ({}, {"type_validation": False}, {"extra_fields_ok": False}):
        ctx.rejects(lambda: MsgpackCodec.encode(doc, **kw), "a node with an undeclared field was serialized", options=kw)
        ctx.ev("refused_undeclared")
    dec = MsgpackCodec.decode(MsgpackCodec.encode(doc, extra_fields_ok=True))
    ctx.equal(snap(dec), want, "with extra fields allowed, the declared content is not preserved exactly")
    ctx.ev("extras_dropped")
    ctx.seen("extras", gen.shape(doc))


def writer(ctx, rng):
    """A refused document leaves no trace in a collection."""
    out = io.BytesIO()
    out.close = lambda: None
    keep = []
    w = MsgpackDocumentWriter(out, num_docs_per_block=rng.choice([1, 2, 3, 10]), codec=get_codec(rng.choice(["none", "zip"])))
    for _ in range(rng.randint(1, 6)):
        d = gen.document(rng, gen.Opts(max_nodes=6, max_layers=3))
        if rng.random() < .5:
            bad = gen.document(rng, gen.Opts(max_nodes=6, max_layers=3))
            if corrupt.plant(rng, bad) is not None:
                ctx.rejects(lambda: w.write(bad), "the collection writer accepted a document that violates its schema")
                ctx.ev("refused_by_writer")
        w.write(d)
        keep.append(snap(d))
    w.close()
    from docria.collection import MsgpackDocumentReader
    got = [snap(h.document()) for h in MsgpackDocumentReader(io.BytesIO(out.getvalue()))]
    ctx.equal(got, keep, "a refused document changed what was written")
    ctx.seen("writer", len(keep), len(out.getvalue()))


def late(ctx, rng):
    """One violation at any place of thousands of nodes, any number of layers."""
    doc = Document()
    text = doc.add_text("main", gen.rstr(rng, 40))
    types = {"i": (T.int32, 7, "x"), "s": (T.string, "s", 7), "sp": (lambda d=None: T.span("main"), text[0:2], (0, 2)), "f": (T.float64, .5, "x")}
    names = rng.sample(sorted(types), rng.randint(1, 3))
    layers = []
    for k in range(rng.choice([1, 2, 12])):
        l = doc.add_layer("l%d" % k, r=T.noderef("l0"), **{n: types[n][0](None) for n in names})
        l.add_many([Node(**{n: types[n][1] for n in names}) for _ in range(rng.choice([1, 40, 2000, 5000, 9000]) if k < 2 else rng.choice([0, 1, 40]))])
        layers.append(l)
    if not any(layers):
        return
    # the middle, the ends and around powers of two
    l = rng.choice([l for l in layers if l])
    nodes = list(l)
    at = rng.choice([0, len(nodes) - 1, rng.randrange(len(nodes)), min(len(nodes) - 1, rng.choice([255, 256, 999, 1000, 1023, 1024, 4095, 4096, 8191, 8192]))])
    name = rng.choice(names + ["r", "undeclared"])
    n = nodes[at]
    if name == "undeclared":
        n["zz"] = 1
    elif name == "r":
        n["r"] = rng.choice([Node(i=1), Node(), 3])
    else:
        n[name] = types[name][2]
    encoders = [("binary", MsgpackCodec.encode)] + rng.sample([("json", JsonCodec.encode), ("xml", enc_xml)], 1 if len(nodes) < 3000 else 0)
    for enc, fn in encoders:
        ctx.rejects(lambda: fn(doc), "a document that violates its schema was serialized", field=name, at=at, of=len(nodes), encoder=enc)
        ctx.ev("late_refused", at > 1000)
    ctx.equal(bool(n.is_valid()) if name != "undeclared" else False, False, "is_valid() of the node")
    n.pop("zz" if name == "undeclared" else name)
    if name in names:
        n[name] = types[name][1]
    for enc, fn in encoders[:1]:
        fn(doc)
        ctx.ev("late_accepted")
    ctx.seen("late", at.bit_length(), len(nodes).bit_length(), name, len(layers))


SCENARIOS = [("gate", gate, 1500, 60000), ("typed", typed, 4000, 150000), ("extras", extras, 400, 10000), ("writer", writer, 200, 5000), ("late", late, 200, 4000)]
REQUIRED = dict({"refused_" + k.replace(" ", "_"): 20 for k in corrupt.kinds()}, accepted_again=300, origin_binary=50, origin_json=50,
                origin_pickle=50, types_after_decoding=300, typed_good=500, views_validated=300, typed_ext=100, typed_bad=500, extras_dropped=100, refused_by_writer=30, late_refused=30, late_accepted=150, long_documents=50, long_lists_added=12, long_views_validated=12)
