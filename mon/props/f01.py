"""A collection gives back exactly the documents written to it, in order, for every codec, block size and way of writing."""
import io
import os
import struct

from docria.codec import MsgpackCodec, MsgpackDocument
from docria.collection import (MsgpackDocumentWriter, MsgpackDocumentReader, MsgpackDocumentIO, DocumentIO, get_codec, register_codec,
                               unregister_codec)
from docria.model import Document

from mon import coll, gen
from mon.snap import snap

RULE = ("random sequences of documents (as documents, handles over bytes, streams, other collections) and flushes into memory and real files with "
        "every codec and block sizes 1 to 1000, read back in every way; distinct = codec x block size x number of documents x flush pattern x "
        "way of writing and reading")
ASSUMPTIONS = ["block sizes of one and more", "one writer per file"]


WAYS = ["iter", "with", "documents", "blocks", "io", "memory", "block_documents", "copy", "short"]


def roundtrip(ctx, rng):
    codec = coll.codec_name(rng)
    n = coll.per_block(rng)
    docs = coll.documents(rng, coll.count(rng))
    target = rng.choice(["memory", "path", "file", "unbuffered", "documentio", "raw"])
    path = os.path.join(ctx.tmp, "c%d.docria" % rng.getrandbits(48))
    kw = dict(num_docs_per_block=n, codec=get_codec(codec))
    default = rng.random() < .1
    if default:
        kw = {}
        codec, n = "zip", 128
    mem = None
    if target == "memory":
        mem = coll.KeepBytes()
        w = MsgpackDocumentWriter(mem, **kw)
    elif target == "raw":
        mem = coll.short_sink(rng)
        w = MsgpackDocumentWriter(mem, **kw)
    elif target == "path":
        w = MsgpackDocumentWriter(path, **kw)
    elif target == "file":
        w = MsgpackDocumentWriter(open(path, "wb"), **kw)
    elif target == "unbuffered":
        w = MsgpackDocumentWriter(open(path, "wb", buffering=0), **kw)
    else:
        w = DocumentIO.write(path, **kw)
    datas = []
    snaps = []
    pattern = []
    sameobj = None
    managed = rng.random() < .4

    def body():
        nonlocal sameobj
        for d in docs:
            if sameobj is not None and rng.random() < .1:
                # the same, since changed, object once more: what counts is its content when it is written
                sameobj.props["again"] = len(datas)
                d = sameobj
            datas.append(coll.write_one(rng, w, d))
            snaps.append(snap(d) if rng.random() < .3 else None)
            sameobj = d
            if rng.random() < .15:
                w.flush()
                pattern.append(len(datas))
                if rng.random() < .3:
                    w.flush()
    if managed:
        with w:
            body()
    else:
        body()
        w.close()
    if mem is not None:
        raw = mem.kept
        with open(path, "wb") as f:
            f.write(raw)
    else:
        with open(path, "rb") as f:
            raw = f.read()
    ways = WAYS
    for way in rng.sample(ways, 3):
        got = read(ctx, rng, way, path, raw)
        ctx.equal(len(got), len(datas), "number of documents differs", way=way, codec=codec, n=n, target=target)
        for k, (g, d) in enumerate(zip(got, datas)):
            if isinstance(g, Document):
                g = MsgpackCodec.encode(g)
            else:
                g = g.binary()
            ctx.check(g == d, "a document differs, or is not at its place", way=way, position=k, codec=codec, n=n, target=target)
        for k, s in enumerate(snaps):
            if s is not None:
                g = got[k] if isinstance(got[k], Document) else got[k].document()
                ctx.equal(snap(g), s, "a document differs from the one written", way=way, position=k)
        ctx.ev("read_" + way)
        ctx.ev("documents_compared", len(got))
        ctx.seen(codec, n, len(docs), tuple(pattern), target, way)
    ctx.ev("codec_" + codec)
    ctx.ev("target_" + target)
    ctx.sample({"codec": codec, "docs_per_block": n, "documents": len(docs), "flushes_after": pattern, "target": target, "bytes": len(raw)})
    os.unlink(path)


def read(ctx, rng, way, path, raw):
    if way == "iter":
        r = MsgpackDocumentReader(path)
        got = list(r)
        ctx.check(next(r, None) is None, "the reader gave more documents after its end")
        r.close()
    elif way == "with":
        with MsgpackDocumentReader(open(path, "rb", buffering=rng.choice([-1, 0, 16]) if rng.random() < .5 else -1)) as r:
            got = [d for d in r]
    elif way == "documents":
        with DocumentIO.read(path) as r:
            got = list(r)
        ctx.check(all(isinstance(d, Document) for d in got), "not documents")
    elif way == "blocks":
        r = MsgpackDocumentReader(io.BytesIO(raw))
        got = [d for b in r.blocks() for d in b]
    elif way == "short":
        got = list(MsgpackDocumentReader(coll.short(raw, rng)))
    elif way == "io":
        with MsgpackDocumentIO.read(path) as r:
            got = list(r)
    elif way == "block_documents":
        r = MsgpackDocumentReader(io.BytesIO(raw))
        got = []
        for b in r.blocks():
            for _ in range(rng.choice([0, 0, 1, 2, 1000])):
                # what was read of the block before does not matter
                if next(b, None) is None:
                    break
            got.extend(d for _, d in b.documents())
            ctx.check(next(b, None) is None, "a block gave more documents after its end")
    elif way == "copy":
        out = coll.KeepBytes()
        with MsgpackDocumentWriter(out, num_docs_per_block=coll.per_block(rng), codec=get_codec(coll.codec_name(rng))) as w:
            for d in MsgpackDocumentReader(io.BytesIO(raw)):
                if rng.random() < .3:
                    d.properties()
                w.write(d)
        got = list(MsgpackDocumentReader(io.BytesIO(out.kept)))
    else:
        got = list(MsgpackDocumentIO.readfile(io.BytesIO(raw)))
    return got


def large(ctx, rng):
    """Documents and blocks far larger than any internal buffer, among small ones."""
    sizes = [(1 << 20) - 1, 1 << 20, (1 << 20) + 1, 3 << 20, (1 << 24) + 5]
    if ctx.thorough:
        sizes += [1 << 25, 101 << 20]
    docs = coll.documents(rng, rng.randint(0, 5), big=0)
    for _ in range(rng.choice([1, 1, 2, 6])):
        size = rng.choice(sizes)
        d = Document(n=rng.getrandbits(30))
        unit = rng.randbytes(257) if rng.random() < .7 else b"\x00"
        if rng.random() < .5:
            d.props["pad"] = (unit * (size // len(unit) + 1))[:size]
        else:
            d.maintext = (unit.hex() * (size // (2 * len(unit)) + 1))[:size]
        docs.insert(rng.randint(0, len(docs)), d)
    codec = rng.choice(["none", "zip", "zstd", "lz4", "zipsq"])
    f = coll.KeepBytes()
    with MsgpackDocumentWriter(f, num_docs_per_block=rng.choice([1, 2, 128]), codec=get_codec(codec)) as w:
        datas = [coll.write_one(rng, w, d) for d in docs]
    raw = f.kept
    way = rng.choice(["iter", "blocks", "block_documents", "get"])
    if way == "iter":
        got = [d.binary() for d in MsgpackDocumentReader(io.BytesIO(raw))]
    elif way == "blocks":
        got = [d.binary() for b in MsgpackDocumentReader(io.BytesIO(raw)).blocks() for d in b]
    elif way == "block_documents":
        got = [d.binary() for b in MsgpackDocumentReader(io.BytesIO(raw)).blocks() for _, d in b.documents()]
    else:
        refs = [d.ref for d in MsgpackDocumentReader(io.BytesIO(raw))]
        r = MsgpackDocumentReader(io.BytesIO(raw))
        back = {ref: r.get(ref).binary() for ref in rng.sample(refs, len(refs))}
        got = [back[ref] for ref in refs]
    ctx.check(len(got) == len(datas) and all(a == b for a, b in zip(got, datas)), "large documents are not read back", codec=codec, way=way,
              sizes=[len(d) for d in datas], got=[len(d) for d in got])
    k = max(range(len(docs)), key=lambda k: len(datas[k]))
    h = MsgpackDocument(got[k])
    ctx.check(h.properties() == docs[k].props and {n: "".join(t) for n, t in h.texts().items()} == {n: str(t) for n, t in docs[k].texts.items()},
              "a large document reads differently")
    ctx.ev("large_documents", sum(len(d) >= 1 << 20 for d in datas))
    ctx.seen("large", codec, way, tuple(len(d) for d in datas))


def many(ctx, rng):
    """Hundreds and thousands of documents and blocks, and blocks of hundreds of documents."""
    docs = coll.many(rng)
    raw, datas, blocks, codec, n = coll.build(rng, docs, codec=rng.choice(["none", "zip", "zstd"]), n=coll.many_per_block(rng), flushes=rng.choice([0, 0, .01]))
    path = os.path.join(ctx.tmp, "m%d.docria" % rng.getrandbits(48))
    with open(path, "wb") as f:
        f.write(raw)
    for way in rng.sample(WAYS, 3):
        if way == "short" and len(raw) > 1 << 18:
            continue
        got = read(ctx, rng, way, path, raw)
        got = [MsgpackCodec.encode(g) if isinstance(g, Document) else g.binary() for g in got]
        ctx.check(len(got) == len(datas), "number of documents differs among many", way=way, got=len(got), want=len(datas), n=n, blocks=len(blocks))
        ctx.check(got == datas, "a document differs, or is not at its place, among many", way=way, n=n, blocks=len(blocks),
                  first=next((k for k, (a, b) in enumerate(zip(got, datas)) if a != b), None))
        ctx.ev("many_documents", len(got))
    ctx.equal([len(b.documents()) for b in MsgpackDocumentReader(path).blocks()] if rng.random() < .5 else
              [sum(1 for _ in b) for b in MsgpackDocumentReader(path).blocks()], blocks, "the documents are in other blocks than asked for")
    ctx.ev("many_blocks", len(blocks))
    ctx.ev("full_blocks", sum(b > 128 for b in blocks))
    ctx.seen("many", len(docs), n, codec, len(raw).bit_length())
    os.unlink(path)


def composed(ctx, rng):
    """A file made by another writer: blocks of any length (also without documents), lengths and numbers in any width."""
    def binary(b):
        code, form = rng.choice([(0xc6, ">BI"), (0xc5, ">BH"), (0xc4, ">BB")][:1 + (len(b) < 1 << 16) + (len(b) < 1 << 8)])
        return struct.pack(form, code, len(b)) + b
    docs = [MsgpackCodec.encode(d) for d in coll.documents(rng, coll.count(rng))]
    codec = coll.codec_name(rng)
    name, n = get_codec(codec).name, rng.choice([1, 100, 128, 70000])
    raw = io.BytesIO()
    raw.write(b"Dmf1")
    raw.write(rng.choice([bytes([0xa0 | len(name)]), struct.pack(">BB", 0xd9, len(name)), struct.pack(">BH", 0xda, len(name))]) + name.encode())
    raw.write(rng.choice([struct.pack(">BI", 0xce, n), struct.pack(">Bi", 0xd2, n), struct.pack(">BQ", 0xcf, n)]) + b"\xc2")
    left, sizes = list(docs), []
    while left or rng.random() < .3:
        k = rng.choice([0, 0, 1, 2, 5, 100])
        part, left = left[:k], left[k:]
        raw.write(binary(get_codec(codec).compress(b"".join(map(binary, part)))))
        sizes.append(len(part))
    raw = raw.getvalue()
    path = os.path.join(ctx.tmp, "x%d.docria" % rng.getrandbits(48))
    with open(path, "wb") as f:
        f.write(raw)
    for way in WAYS:
        got = [MsgpackCodec.encode(g) if isinstance(g, Document) else g.binary() for g in read(ctx, rng, way, path, raw)]
        ctx.check(got == docs, "a file of another writer gives other documents", way=way, codec=codec, blocks=sizes, got=len(got), want=len(docs))
    ctx.equal([sum(1 for _ in b) for b in MsgpackDocumentReader(path).blocks()], sizes, "a file of another writer gives other blocks", codec=codec)
    with MsgpackDocumentReader(path) as r:
        refs = [d.ref for d in r]
    with MsgpackDocumentReader(path) as r:
        for k in rng.sample(range(len(refs)), min(4, len(refs))):
            ctx.check(r.get(refs[k]).binary() == docs[k], "a reference into a file of another writer leads elsewhere", codec=codec, blocks=sizes)
    ctx.ev("composed_files")
    ctx.ev("empty_blocks", sizes.count(0))
    ctx.seen("composed", codec, tuple(sizes[:20]))
    os.unlink(path)


def refusals(ctx, rng):
    """What must not be accepted or overwritten."""
    path = os.path.join(ctx.tmp, "r%d.docria" % rng.getrandbits(48))
    raw, datas, *_ = coll.build(rng, coll.documents(rng, rng.randint(0, 4)))
    with open(path, "wb") as f:
        f.write(raw)
    ctx.rejects(lambda: MsgpackDocumentWriter(path), "an existing collection was opened for writing")
    ctx.check(open(path, "rb").read() == raw, "a refused open changed the existing file")
    bad = bytearray(raw)
    bad[rng.randrange(4)] ^= 1 << rng.randrange(8)
    ctx.rejects(lambda: MsgpackDocumentReader(io.BytesIO(bytes(bad))), "a file with another header was accepted")
    ctx.rejects(lambda: MsgpackDocumentReader(io.BytesIO(rng.randbytes(rng.randint(0, 3)))), "a file without header was accepted")
    ctx.rejects(lambda: get_codec("no such codec"), "an unknown codec")
    name = "mine%d" % rng.getrandbits(32)
    register_codec(name, lambda b: bytes(255 - x for x in b), lambda b: bytes(255 - x for x in b))
    try:
        ctx.rejects(lambda: register_codec(name, None, None), "a codec was registered twice")
        raw2, datas2, *_ = coll.build(rng, coll.documents(rng, 3), codec=name)
        ctx.equal([d.binary() for d in MsgpackDocumentReader(io.BytesIO(raw2))], datas2, "a registered codec")
    finally:
        unregister_codec(name)
    ctx.rejects(lambda: MsgpackDocumentReader(io.BytesIO(raw2)), "a collection with an unknown codec was opened")
    f = coll.KeepBytes()
    w = MsgpackDocumentWriter(f)
    ctx.rejects(lambda: w.write(rng.choice([b"DM_1", None, {}, "x"])), "something that is not a document was written")
    w.close()
    ctx.equal(list(MsgpackDocumentReader(io.BytesIO(f.kept))), [], "a refused object reached the file")
    ctx.ev("refusals")
    ctx.seen("refusals", len(datas))
    os.unlink(path)


SCENARIOS = [("roundtrip", roundtrip, 900, 30000), ("large", large, 24, 400), ("many", many, 24, 400), ("composed", composed, 80, 2000), ("refusals", refusals, 60, 1000)]
REQUIRED = dict({"codec_" + c: 8 for c in coll.CODECS}, documents_compared=10000, refusals=30, large_documents=20, many_documents=10000, many_blocks=300, full_blocks=6, composed_files=80, empty_blocks=40)
REQUIRED.update({"read_" + w: 100 for w in WAYS})
REQUIRED.update({"target_" + w: 80 for w in ["memory", "path", "file", "unbuffered", "documentio", "raw"]})
