"""Partial, lazy and repeated access to an encoded document agrees with decoding all of it."""
import copy
from io import BytesIO
import os

from docria.codec import MsgpackCodec, MsgpackDocument

from mon import coll, gen
from mon.snap import snap, canon_plain, canon_type
from mon.props.c01 import structure

RULE = ("random sequences of partial accesses (properties, some properties, schema, texts, some texts, document, some layers) on one handle "
        "over bytes, memory streams and files, each compared with the full decode; distinct = access sequence x document shape")
ASSUMPTIONS = ["a handle over a file reads a file that holds exactly one document", "decoding some layers may also decode the layers they "
               "refer to"]


def vandalise(v):
    if isinstance(v, dict):
        for x in v.values():
            vandalise(x)
        v["garbage"] = 1
    elif isinstance(v, list):
        for x in v:
            vandalise(x)
        v.append("garbage")


def vandalise_schema(rng, types, schema):
    """What a caller may do to the lists and mappings it was given."""
    for t in list(schema):
        if rng.random() < .5 and isinstance(schema[t], list):
            rng.choice([schema[t].clear, schema[t].reverse, lambda: schema[t].append(("garbage", None))])()
    if rng.random() < .5:
        schema.clear()
    if isinstance(types, list):
        rng.choice([types.clear, types.reverse, lambda: types.append("garbage"), lambda: None])()


def vandalise_document(rng, doc):
    """The handle holds the document as it was when the handle was made."""
    if rng.random() < .5:
        doc.props.clear()
    else:
        vandalise(doc.props)
    for layer in list(doc.layers.values()):
        layer.retain(rng.sample(list(layer), len(layer) // 2))
    for name in list(doc.layers):
        if rng.random() < .5:
            doc.layers.pop(name, None)


def access(ctx, rng):
    doc = gen.document(rng, gen.Opts(max_nodes=20, huge=.02, wide=.06)) if rng.random() < .98 else gen.long_document(rng)
    want = snap(doc)
    plain = copy.deepcopy(dict(doc.props))
    data = MsgpackCodec.encode(doc)
    src = rng.randrange(5)
    path = None
    fh = None
    if src == 0:
        h = MsgpackDocument(data)
    elif src == 1:
        h = MsgpackDocument(BytesIO(data))
    elif src == 2:
        h = MsgpackDocument(doc)
        vandalise_document(rng, doc)
    elif src == 4:
        h = MsgpackDocument(coll.short(data, rng))
    else:
        path = os.path.join(ctx.tmp, "one.dm")
        with open(path, "wb") as f:
            f.write(data)
        fh = open(path, "rb")
        h = MsgpackDocument(fh)
    ctx.ev("source_%d" % src)
    props, texts = want["props"][1], want["texts"]
    seq = []
    for _ in range(rng.randint(2, 7)):
        op = rng.choice(["props", "some props", "schema", "texts", "some texts", "document", "some layers", "binary"])
        seq.append(op)
        ctx.ev("access_" + op.replace(" ", "_"))
        if op == "props":
            p = h.properties()
            ctx.equal(canon_plain(p), want["props"], "properties() differ from the full decode", sequence=seq)
            vandalise(p)
        elif op == "some props":
            keys = list(plain)
            ask = rng.sample(keys, rng.randint(1, len(keys))) if keys else []
            ask += [k for k in ["no such property"] if rng.random() < .4 or not ask]
            p = h.properties(*ask)
            ctx.equal(canon_plain(p), canon_plain({k: v for k, v in plain.items() if k in ask}), "properties(*some) differ", sequence=seq,
                      asked=ask)
        elif op == "schema":
            types, schema = h.schema()
            ctx.equal(sorted(types), sorted(want["layers"]), "schema(): layers differ", sequence=seq)
            ctx.equal({t: {f: canon_type(d) for f, d in schema[t]} for t in types},
                      {t: l["schema"] for t, l in want["layers"].items()}, "schema(): fields differ", sequence=seq)
            vandalise_schema(rng, types, schema)
        elif op == "texts":
            t = h.texts()
            ctx.equal({k: "".join(v) for k, v in t.items()}, texts, "texts() differ", sequence=seq)
            t.clear()
        elif op == "some texts":
            keys = list(texts)
            ask = rng.sample(keys, rng.randint(1, len(keys))) if keys else []
            ask += [k for k in ["no such text"] if rng.random() < .4 or not ask]
            t = h.texts(*ask)
            ctx.equal({k: "".join(v) for k, v in t.items()}, {k: v for k, v in texts.items() if k in ask}, "texts(*some) differ",
                      sequence=seq, asked=ask)
        elif op == "document":
            d = h.document()
            ctx.equal(snap(d), want, "document() differs from the full decode", sequence=seq)
            structure(ctx, d, "document()")
            for layer in d.layers.values():
                layer.retain([])
            d.props.clear()
        elif op == "some layers":
            names = list(want["layers"])
            if not names:
                continue
            ask = rng.sample(names, rng.randint(1, len(names)))
            d = h.document(*ask)
            got = snap(d)
            for name in ask:
                ctx.check(name in d, "document(*some): a requested layer is missing", sequence=seq, asked=ask)
            for name, img in got["layers"].items():
                ctx.equal(img, want["layers"][name], "document(*some): layer differs from the full decode", sequence=seq, asked=ask, layer=name)
            ctx.equal(got["texts"], texts, "document(*some): texts differ", sequence=seq)
            ctx.equal(got["props"], want["props"], "document(*some): properties differ", sequence=seq)
            structure(ctx, d, "document(*some)")
        else:
            ctx.check(h.binary() == data, "binary() is not the encoded document", sequence=seq)
    if fh is not None:
        fh.close()
        os.unlink(path)
    ctx.seen(tuple(seq), src, gen.shape(doc))
    ctx.sample({"sequence": seq, "source": src})


SCENARIOS = [("access", access, 2500, 100000)]
REQUIRED = {"access_" + k: 300 for k in ["props", "some_props", "schema", "texts", "some_texts", "document", "some_layers", "binary"]}
REQUIRED.update({"source_%d" % i: 200 for i in range(5)})
