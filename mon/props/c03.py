"""The bytes follow the published layout: an independent reader understands what docria writes, and docria understands what an
independent writer produces."""
import contextlib
import re
from io import BytesIO, StringIO

from docria.codec import MsgpackCodec, MsgpackDocument, Codec

from mon import gen, wire
from mon.snap import snap
from mon.props.c01 import structure

RULE = ("random documents; the bytes are parsed by an independent MessagePack/DM_1 reader whose image must equal the document's, and an "
        "independent writer re-emits the content with other segment cuts, header widths, layer and field order; distinct = document shapes")
ASSUMPTIONS = ["the layout is the one of the Java and Python implementations at the pinned commit (magic DM_1, five length-prefixed "
               "segments, column-wise layers, delta coded node spans)"]


def flatten_ext(img):
    """Embedded documents are compared as bytes-independent images, so replace them by their encoded type only."""
    return img


def written(ctx, rng):
    doc = gen.document(rng, gen.Opts(huge=.05)) if rng.random() < .97 else gen.long_document(rng)
    want = snap(doc)
    data = MsgpackCodec.encode(doc)
    try:
        w = wire.parse(data)
        img = wire.image(w)
    except (wire.WireError, KeyError, IndexError, TypeError, UnicodeDecodeError) as e:
        ctx.check(False, "an independent reader cannot read the encoded document: %s: %s" % (type(e).__name__, e))
    ctx.equal(img, want, "an independent reader sees another document than the one encoded")
    ctx.ev("independent_reads")
    ctx.equal(sorted(w["types"]), sorted(doc.layers), "inventory of layers")
    for t, fields in w["schema"].items():
        for name, ty, args in fields:
            ctx.ev("column_" + ty)
    ctx.seen("written", gen.shape(doc))
    ctx.sample({"bytes": len(data), "head": data[:60].hex()})


def read(ctx, rng):
    doc = gen.document(rng, gen.Opts(huge=.03)) if rng.random() < .97 else gen.long_document(rng)
    want = snap(doc)
    w = wire.parse(MsgpackCodec.encode(doc))
    w2 = wire.resegment(w, rng)
    data = wire.build(w2, rng)
    assert wire.image(wire.parse(data)) == want, "harness: independent writer is wrong"
    r = rng.randrange(3)
    dec = MsgpackCodec.decode(data) if r == 0 else MsgpackCodec.decode(BytesIO(data)) if r == 1 else MsgpackDocument(data).document()
    ctx.equal(snap(dec), want, "a document from an independent writer is decoded differently", route=r)
    structure(ctx, dec, "document from an independent writer")
    h = MsgpackDocument(data)
    ctx.equal({k: "".join(v) for k, v in h.texts().items()}, want["texts"], "texts of a document from an independent writer")
    ctx.ev("independent_writes")
    # and it is a full citizen: encoding it again keeps its content
    ctx.equal(wire.image(wire.parse(MsgpackCodec.encode(dec))), want, "re-encoding a document from an independent writer changed it")
    ctx.seen("read", gen.shape(doc), len(data))


def garbage(ctx, rng):
    """Data without the magic header is refused, not interpreted."""
    data = MsgpackCodec.encode(gen.document(rng, gen.Opts(max_layers=2, max_nodes=4)))
    bad = rng.choice([b"DM_2" + data[4:], b"dm_1" + data[4:], data[1:], b"Dmf1" + data[4:], b"", b"DM", b"\x00" * 20, data[4:], b"DM_" + data[4:]])
    ctx.rejects(lambda: MsgpackCodec.decode(bad), "data without the magic header was decoded", head=bad[:8].hex())
    ctx.rejects(lambda: MsgpackDocument(bad).document(), "data without the magic header was decoded", head=bad[:8].hex())
    ctx.ev("garbage_refused")
    # truncated documents are refused as well
    cut = rng.randrange(len(data))
    ctx.rejects(lambda: MsgpackCodec.decode(data[:cut]), "a truncated document was decoded", cut=cut, of=len(data))
    ctx.ev("truncations_refused")
    ctx.seen("garbage", bad[:8], cut, len(data))


def dumped(ctx, rng):
    """The debugging dump reads the same layout: it never fails and shows every part."""
    doc = gen.document(rng, gen.Opts(max_nodes=10))
    want = snap(doc)
    data = MsgpackCodec.encode(doc)
    out = StringIO()
    with contextlib.redirect_stdout(out):
        MsgpackCodec.debug(data if rng.random() < .5 else BytesIO(data))
    out = out.getvalue()
    ctx.ev("dumps")
    for name, layer in doc.layers.items():
        ctx.check("\n * %s\n" % name in out and "\n[%s]\n * Segment length: " % name in out, "the dump lacks a layer", layer=name)
        for f in layer.schema.fields:
            ctx.check("\n  - %s = " % f in out and "\n  - %s\n" % f in out, "the dump lacks a field", layer=name, field=f)
        part = out[out.index("\n[%s]\n * Segment length: " % name):]
        ctx.equal(int(re.search(r"Num nodes: (\d+)\n", part).group(1)), len(layer), "the dump has another number of nodes", layer=name)
    for name, text in want["texts"].items():
        at = out.index("\nTexts: ")
        end = out.index("\nTypes data:", at)
        ctx.check("\n%s = [" % name in out[at:end], "the dump lacks a text", text=name)
    ctx.check("DM_1" in out[:200], "the dump does not begin with the magic header")
    ctx.check(repr(doc.props) in out, "the dump lacks the document's properties")
    ctx.seen("dump", gen.shape(doc))


SCENARIOS = [("dumped", dumped, 150, 4000), ("written", written, 1500, 50000), ("read", read, 1500, 50000), ("garbage", garbage, 500, 20000)]
REQUIRED = {"dumps": 70, "independent_reads": 750, "independent_writes": 750, "garbage_refused": 250, "truncations_refused": 250,
            "column_span": 100, "column_noderef": 100, "column_noderef_array": 100, "column_nodespan": 100, "column_bin": 50}
