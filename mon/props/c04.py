"""JSON round trip, and agreement of the JSON and binary formats."""
import base64
import json

from docria.codec import MsgpackCodec, JsonCodec

from mon import gen, wire
from mon.snap import snap, canon_plain
from mon.props.c01 import structure, observe, vandalise
from mon.props.c02 import strip_binary_props

RULE = ("random documents (all field types incl. binary, extension and embedded documents, hostile unicode) through the JSON codec, "
        "compared with the source, with the binary codec and with an independent reading of the JSON; distinct = document shapes")
ASSUMPTIONS = ["properties hold JSON-representable values with string keys", "binary fields travel as base64 (the library's own convention)"]


def long_(rng):
    return gen.long_document(rng, gen.Opts(ext=True, kinds=rng.choice([gen.ALL, ["bin"], ["ext"], ["span", "refs", "nodespan"]])))


def make(rng):
    doc = gen.document(rng, gen.Opts(ext=rng.random() < .2)) if rng.random() < .95 else long_(rng)
    strip_binary_props(doc)
    return doc


def json_image(obj):
    """Independent reading of the JSON layout."""
    d = obj["DM10"]
    schema, layers = {}, {}
    for t, fields in d["schema"].items():
        fl = []
        for name, td in fields.items():
            ty, args = (td, {}) if isinstance(td, str) else (td["type"], td["args"])
            fl.append((name, ty, args))
        schema[t] = fl
        cols = dict(d["types"][t])
        for name, ty, args in fl:
            if ty in ("bin", "ext"):
                cols[name] = [None if v is None else base64.b64decode(v) for v in cols[name]]
        layers[t] = (d["num_nodes"][t], cols)
    return wire.image({"props": d["props"], "types": list(schema), "schema": schema, "texts": d["texts"], "layers": layers})


def no_ext(img):
    for layer in img["layers"].values():
        exts = [f for f, t in layer["schema"].items() if t[0] == "EXT"]
        for n in layer["nodes"]:
            for f in exts:
                n.pop(f, None)
    return img


def roundtrip(ctx, rng):
    doc = make(rng)
    observe(ctx, doc)
    want = snap(doc)
    s = JsonCodec.encode(doc)
    ctx.check(isinstance(s, str), "JSON encoding is not a string")
    obj = json.loads(s)
    ctx.check(s.encode("utf-8").decode("utf-8") == s, "JSON text is not encodable")
    dec = JsonCodec.decode(s)
    ctx.equal(snap(dec), want, "document decoded from JSON differs")
    structure(ctx, dec, "document decoded from JSON")
    ctx.equal(snap(JsonCodec.decode_object(obj)), want, "document decoded from the JSON object differs")
    ctx.equal(snap(JsonCodec.decode_object(json.loads(json.dumps(JsonCodec.encode_object(doc))))), want, "encode_object/decode_object differ")
    ctx.equal(no_ext(json_image(obj)), no_ext(snap(doc)), "an independent reading of the JSON gives another document")
    # Documents decoded from one object are independent of each other, of it, and of the document it was made of
    obj = JsonCodec.encode_object(doc) if rng.random() < .5 else obj
    one, other = JsonCodec.decode_object(obj), JsonCodec.decode_object(obj)
    vandalise(rng, one)
    ctx.equal(snap(other), want, "changing a document changed another one decoded from the same object")
    ctx.equal(snap(JsonCodec.decode_object(obj)), want, "changing a decoded document changed the object it was decoded from")
    ctx.equal(snap(doc), want, "changing a decoded document changed the document that was encoded")
    ctx.ev("json_roundtrips")
    ctx.sample({"json": s[:200]})


def agreement(ctx, rng):
    doc = make(rng)
    observe(ctx, doc)
    via_json = JsonCodec.decode(JsonCodec.encode(doc))
    via_bin = MsgpackCodec.decode(MsgpackCodec.encode(doc))
    ctx.equal(snap(via_json), snap(via_bin), "JSON and binary disagree about the same document")
    # crossing formats in any order keeps the document
    d = doc
    for _ in range(rng.randint(1, 4)):
        d = JsonCodec.decode(JsonCodec.encode(d)) if rng.random() < .5 else MsgpackCodec.decode(MsgpackCodec.encode(d))
    ctx.equal(snap(d), snap(doc), "a chain of format conversions changed the document")
    ctx.check(MsgpackCodec.encode(via_json) == MsgpackCodec.encode(via_bin), "documents from JSON and binary encode differently")
    ctx.ev("format_agreements")


def foreign(ctx, rng):
    """Objects that are not JSON documents are refused."""
    good = json.loads(JsonCodec.encode(make(rng)))
    bad = rng.choice([[], 1, "x", {}, {"DM11": good["DM10"]}, {"dm10": good["DM10"]}, [good], None])
    ctx.rejects(lambda: JsonCodec.decode(json.dumps(bad)), "JSON without the document header was decoded", head=json.dumps(bad)[:40])
    ctx.ev("foreign_refused")


SCENARIOS = [("roundtrip", roundtrip, 1500, 50000), ("agreement", agreement, 1000, 30000), ("foreign", foreign, 100, 1000)]
REQUIRED = {"json_roundtrips": 750, "format_agreements": 500, "foreign_refused": 50, "values_SPAN": 200, "values_NODEREF_SPAN": 100,
            "values_BINARY": 100, "values_EXT": 20}
