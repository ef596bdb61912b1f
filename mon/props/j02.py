"""Collections and boundary streams written by one implementation are read alike by the other."""
import bisect
import io
import struct
import zlib

from docria.codec import MsgpackCodec
from docria.collection import MsgpackDocumentReader, MsgpackDocumentWriter, get_codec
from mon.coll import BoundaryReader, BoundaryWriter
from docria.model import Document

from mon import coll, gen, java
from mon.props.f05 import Physical, rsize
from mon.props import j01
from mon.props.j01 import make, run

RULE = ("random collections (codec, documents per block, flushes, sizes, plain files and boundary streams) written by either implementation and read by the "
        "other through random histories of next, raw, block, open blocks read in turns, skip, skip n, skip block and count on streams that deliver bytes in "
        "pieces, against the list of blocks; streams cut short, damaged and failing; boundary streams of random writes, splits, reads and skips against an "
        "independent layout model; distinct = operation x place in the collection x layout")
ASSUMPTIONS = ["msgpack-core is not available offline: the Java code runs on a stand-in with the same interface", "Java knows the codecs none, zip and zipsq",
               "codec functions of one's own undo what the codec of the file does"]
CODECS = ["none", "zip", "zipsq"]


def documents(rng, n, big=.03):
    out = []
    for k in range(n):
        if rng.random() < .4:
            d = Document(id=k)
            if rng.random() < .3:
                d.maintext = gen.rstr(rng, 5)
        else:
            d = make(rng, max_layers=2, max_nodes=5, history=False)
            d.props["id"] = k
        if rng.random() < big:
            d.props["pad"] = rng.randbytes(rng.choice([100, 5000, 70000]))
        out.append(d)
    return out


def python_file(rng, docs, boundary=None, codec=None, n=None):
    f = coll.KeepBytes()
    n = n or coll.per_block(rng)
    codec = codec or rng.choice(CODECS)
    w = MsgpackDocumentWriter(BoundaryWriter(f, boundary=boundary) if boundary else f, num_docs_per_block=n, codec=get_codec(codec))
    datas, blocks, cur = [], [], []
    for d in docs:
        cur.append(coll.write_one(rng, w, d))
        datas.append(cur[-1])
        if len(cur) < n and rng.random() < (.1 if len(docs) < 100 else 1 / len(docs)):
            w.flush()
            blocks.append(cur)
            cur = []
        elif len(cur) == n:
            blocks.append(cur)
            cur = []
    w.close()
    if cur:
        blocks.append(cur)
    return f.kept, blocks, codec, n


def java_file(ctx, rng, docs, boundary=None):
    """Written by Java; the writer's own outcomes are checked on the way."""
    many = len(docs) > 100
    n = 0 if rng.random() < .2 else coll.many_per_block(rng) if many else coll.per_block(rng)
    codec = rng.choice(CODECS) if rng.random() < .8 else None
    per = n or 128
    ops, datas, blocks, cur = [], [], [], []
    for d in docs:
        data = MsgpackCodec.encode(d)
        ops.append(["raw" if rng.random() < .5 else "doc", data])
        cur.append(data)
        datas.append(data)
        if len(cur) == per:
            blocks.append(cur)
            cur = []
        if rng.random() < (1 / len(docs) if many else .1):
            ops.append(["flush"])
            if cur:
                blocks.append(cur)
                cur = []
    ops.append(["close"])
    if cur:
        blocks.append(cur)
    raw, outcomes = run(ctx, "Java does not write a collection", "write", boundary or 0, n, codec, ops)
    done = 0
    # a document written as such is encoded by Java: its bytes may be others than those of Python
    for op, (ok, *r) in zip(ops, outcomes):
        ctx.check(ok, "Java failed to write", operation=op[0], refused=str(r)[:900])
        if op[0] in ("raw", "doc"):
            done += 1
        elif op[0] == "flush":
            ctx.check(raw.startswith(r[0]), "what was flushed is not what is in the end in the file")
            src = io.BytesIO(r[0])
            have = [d.document() for d in MsgpackDocumentReader(BoundaryReader(src) if boundary else src)]
            ctx.equal([d.props.get("id", d.props.get("n")) for d in have], list(range(done)), "documents are missing in the file after a flush")
            ctx.ev("flushes")
        else:
            ctx.check(r[0] == 1, "closing the writer did not close the file once", closed=r[0])
    return raw, blocks, codec or "zip", per, [op for op in ops if op[0] in ("raw", "doc")]


class Model:
    """What a reader has to give."""

    def __init__(self, blocks):
        self.blocks = blocks
        self.next_block = 0
        self.open = None          # (block, position) that next() and skip() read from
        self.streams = []

    def enter(self):
        if self.open is None:
            if self.next_block == len(self.blocks):
                return False
            self.open = [self.next_block, 0]
            self.next_block += 1
        return True

    def one(self):
        if not self.enter():
            return None
        b, p = self.open
        doc = self.blocks[b][p]
        self.open = [b, p + 1] if p + 1 < len(self.blocks[b]) else None
        return doc

    def left(self):
        n = sum(len(b) for b in self.blocks[self.next_block:])
        return n + (len(self.blocks[self.open[0]]) - self.open[1] if self.open else 0)

    def step(self, op):
        kind = op[0]
        if kind in ("next", "raw"):
            return self.one()
        if kind == "skip":
            return self.one() is not None
        if kind == "skip n":
            k = 0
            while k < op[1] and self.one() is not None:
                k += 1
            return k
        if kind in ("all", "count"):
            out = []
            while True:
                d = self.one()
                if d is None:
                    return len(out) if kind == "count" else out
                out.append(d)
        if kind == "all blocks":
            out = self.blocks[self.next_block:]
            self.next_block = len(self.blocks)
            return out
        if kind == "block":
            if self.next_block == len(self.blocks):
                return None
            self.next_block += 1
            return self.blocks[self.next_block - 1]
        if kind == "open":
            b = self.step(["block"])
            if b is None:
                return False
            self.streams.append(list(b))
            return True
        if kind == "from":
            s = self.streams[op[1]]
            return s.pop(0) if s else None
        if kind == "skip block":
            if self.next_block == len(self.blocks):
                return False
            self.next_block += 1
            return True
        assert kind == "close"
        return True


def history(rng, blocks):
    m = Model(blocks)
    ops, wants = [], []
    weights = [rng.choice([1, 1, 4]) for _ in range(9)]
    for _ in range(rng.choice([1, 4, 10, 25])):
        op = rng.choices([["next"], ["raw"], ["skip"], ["skip n", rng.choice([0, 1, 2, 3, 5, 8, 16, 100, rng.randint(0, max(1, m.left()))])], ["block"], ["open"],
                          ["from", None], ["skip block"], ["skip n", len(blocks[m.open[0]]) - m.open[1]] if m.open else ["next"]], weights)[0]
        if op[0] == "from":
            if not m.streams:
                continue
            op = ["from", rng.randrange(len(m.streams))]
        ops.append(op)
        wants.append(m.step(op))
    for op in rng.choice([[["all"], ["all blocks"]], [["all blocks"], ["all"]], [["count"]], [["next"], ["all"]], [["all"], ["next"], ["block"], ["skip"], ["skip block"], ["count"], ["skip n", 5]]]):
        ops.append(op)
        wants.append(m.step(op))
    for k, s in enumerate(m.streams):
        while s or rng.random() < .3:
            ops.append(["from", k])
            wants.append(m.step(ops[-1]))
    ops.append(["close"])
    wants.append(True)
    return ops, wants


def as_java(kind, op, want, images):
    """Documents come as images or as bytes."""
    if kind == "handle" or op[0] == "raw" or want is None or isinstance(want, (bool, int)):
        return want
    if isinstance(want, bytes):
        return images[want]
    return [as_java(kind, op, x, images) for x in want]


def image_of(data):
    return java.nan(java.image(MsgpackCodec.decode(data)))


def java_reads(ctx, rng, raw, blocks, boundary, codec, who):
    kind = rng.choice(["doc", "handle"])
    ops, wants = history(rng, blocks)
    images = {d: image_of(d) for b in blocks for d in b} if kind == "doc" else {}
    fn = codec if rng.random() < .2 else None
    piece = rng.choice([0, 0, 1, 3, 100, 4096])
    if kind == "handle" and rng.random() < .5:
        ops = [x for op in ops for x in (op, ["position"])]
        wants = [x for w in wants for x in (w, "position")]
    out = run(ctx, "Java does not read a collection", "read", kind, raw, boundary, rng.getrandbits(40), piece, -1, fn, ops)
    ctx.check(out[0][0], "Java does not open a collection of " + who, refused=str(out[0])[:900])
    last = 0
    for k, (op, want, (ok, *r)) in enumerate(zip(ops, wants, out[1:])):
        ctx.check(ok, "Java failed to read a collection of " + who, operation=op, before=ops[:k], refused=str(r)[:900], blocks=[len(b) for b in blocks])
        if op[0] == "position":
            ctx.check(r[0] >= last, "the position of the reader went back", before=last, after=r[0])
            last = r[0]
            continue
        got = r[0]
        want = as_java(kind, op, want, images)
        if kind == "doc" and op[0] != "raw":
            got = java.nan(got)
        ctx.check(got == want, "Java read other documents than " + who + " wrote, or in another order", operation=op, before=ops[:k], blocks=[len(b) for b in blocks],
                  got=str(got)[:900], want=str(want)[:900])
        ctx.ev("read_" + op[0].replace(" ", "_"))
        ctx.seen(op[0], kind, boundary, codec, len(blocks), None if not isinstance(want, int) else want)
    if kind == "handle" and "position" in [op[0] for op in ops]:
        ctx.ev("positions")
    ctx.sample({"written_by": who, "blocks": [len(b) for b in blocks], "codec": codec, "boundary": boundary, "operations": [o for o in ops if o[0] != "position"][:12]})


def read(ctx, rng, many=False):
    docs = coll.many(rng) if many else documents(rng, coll.count(rng))
    boundary = rng.choice([None, None, 12, 12, 13, 18])
    raw, blocks, codec, n = python_file(rng, docs, boundary, n=coll.many_per_block(rng) if many else None)
    if many:
        ctx.ev("many_documents", len(docs))
        ctx.ev("many_bytes", len(raw))
        ctx.ev("many_in_a_block", sum(len(b) > 128 for b in blocks))
    for _ in range(rng.choice([1, 2, 3])):
        java_reads(ctx, rng, raw, blocks, boundary is not None, codec, "Python")
    ctx.ev("python_to_java")
    ctx.ev("empty_collections", not docs)
    ctx.ev("boundary_collections", boundary is not None)


def write(ctx, rng, many=False):
    docs = coll.many(rng) if many else documents(rng, coll.count(rng))
    boundary = rng.choice([None, None, 12, 12, 13, 18])
    raw, blocks, codec, n, ops = java_file(ctx, rng, docs, boundary)

    def reader():
        return MsgpackDocumentReader(BoundaryReader(io.BytesIO(raw)) if boundary else io.BytesIO(raw))
    r = reader()
    seq = [(d.ref, d.binary()) for d in r]
    ctx.equal(len(seq), len(docs), "Python reads another number of documents than Java wrote")
    if many:
        ctx.ev("many_documents_of_java", len(docs))
        ctx.ev("many_of_java_in_a_block", sum(len(b) > 128 for b in blocks))
    for (how, data), (ref, got), doc in zip(ops, seq, docs):
        if how == "raw":
            ctx.check(got == data, "Python reads other bytes than Java wrote")
        ctx.equal(image_of(got), java.nan(java.image(doc)), "Python reads another document than Java wrote", written_as=how)
    r = reader()
    sizes = []
    while True:
        b = r.readblock()
        if b is None:
            break
        sizes.append(sum(1 for _ in b))
    ctx.equal(sizes, [len(b) for b in blocks], "Java wrote other blocks than asked for", per_block=n)
    q = reader()
    for k in rng.sample(range(len(seq)), min(len(seq), 6)):
        ctx.check(q.get(seq[k][0]).binary() == seq[k][1], "random access in a file of Java gives another document")
    if not boundary:
        ctx.check(raw[:4] == b"Dmf1", "header")
    else:
        markers(ctx, raw, boundary, sorted({ref[0] for ref, _ in seq}))
    # and Java reads its own file
    have, k = [], 0
    for b in blocks:
        have.append([x for _, x in seq[k:k + len(b)]])
        k += len(b)
    java_reads(ctx, rng, raw, have, boundary is not None, codec, "Java")
    ctx.ev("java_to_python")
    ctx.ev("empty_collections", not docs)
    ctx.seen("write", n, codec, boundary, len(docs))


def markers(ctx, raw, b, starts):
    """Markers of a file of Java lead to the last start of a block before them."""
    size = 1 << b

    def logical(p):
        return p - 1 if p < size else p - 1 - 4 * (p // size) if p % size >= 4 else p // size * size - 1 - 4 * (p // size - 1)
    for pos in range(size, len(raw) - 3, size):
        delta = struct.unpack(">i", raw[pos:pos + 4])[0]
        ctx.check(delta <= 0, "a marker points forward", at=pos, delta=delta)
        here = bisect.bisect_right(starts, logical(pos + 4))
        ctx.check(logical(pos + delta) == starts[here - 1] if here else delta == 1 - pos, "a marker of Java does not lead to the last start of a block before it",
                  at=pos, delta=delta, leads_to=logical(pos + delta), starts=starts[:20])
        ctx.ev("collection_markers")


def beside(ctx, rng):
    """Threads with files of their own."""
    commands = []
    for _ in range(rng.choice([2, 4, 8])):
        docs = documents(rng, rng.choice([1, 3, 8]), big=.2)
        boundary = rng.choice([None, None, 12])
        if rng.random() < .5:
            commands.append(["write", boundary or 0, coll.per_block(rng), rng.choice(CODECS + ["zip"]), [[rng.choice(["raw", "doc"]), MsgpackCodec.encode(d)] for d in docs] + [["close"]]])
        else:
            raw, blocks, codec, n = python_file(rng, docs, boundary)
            commands.append(["read", rng.choice(["doc", "handle"]), raw, boundary is not None, rng.getrandbits(40), rng.choice([0, 100]), -1, None, history(rng, blocks)[0]])
    j01.beside(ctx, rng, commands)


def damaged(ctx, rng):
    """What is cut short or fails is reported, after the documents before it."""
    docs = documents(rng, rng.choice([1, 2, 3, 6, 12]), big=0)
    boundary = rng.choice([None, None, 12])
    raw, blocks, codec, n = python_file(rng, docs, boundary)
    flat = [d for b in blocks for d in b]
    ends = block_ends(raw, boundary)
    for _ in range(rng.choice([4, 10])):
        cut = rng.choice([rng.choice(ends), min(len(raw), rng.choice(ends) + rng.choice([0, 1, 2, 4])), 0, 1, 4, 5, len(raw) - 1, len(raw) - 2, rng.randrange(len(raw)), rng.randrange(len(raw))])
        fails = rng.random() < .4
        op = rng.choice(["all", "all blocks", "next", "skip n", "count", "mixed", "skip blocks"])
        ops = {"all": [["all"]], "all blocks": [["all blocks"]], "next": [["raw"]] * (len(flat) + 1), "count": [["count"]], "skip n": [["skip n", len(flat) + 1]], "skip blocks": [["skip block"]] * (len(blocks) + 1),
               "mixed": [rng.choice([["raw"], ["skip"]]) for _ in range(len(flat) + 1)]}[op]
        # where blocks end in the file
        src = raw if fails else raw[:cut]
        out = run(ctx, "Java did not answer", "read", "handle", src, boundary is not None, rng.getrandbits(40), rng.choice([0, 1, 100]), cut if fails else -1, None, ops)
        whole = sum(1 for e in ends[1:] if e <= cut)
        clean = cut in ends or boundary and any(e <= cut <= e + 4 and e % (1 << boundary) == 0 for e in ends)
        if not out[0][0]:
            ctx.check(fails or cut <= ends[0] + 4, "a collection with a complete head was not opened", cut=cut, head=ends[0], refused=str(out[0])[:600])
            ctx.ev("heads_refused")
            continue
        ctx.check(cut >= ends[0], "a collection without a complete head was opened", cut=cut, head=ends[0], fails=fails)
        good = [d for b in blocks[:whole] for d in b]
        outs = out[1:]
        refused = [k for k, o in enumerate(outs) if not o[0]]
        if op in ("next", "mixed"):
            end = refused[0] if refused else len(outs)
            vals = [o[1] for o in outs[:end]]
            ctx.check(fails or end >= min(len(good), len(outs)), "documents before the damage were not given", given=end, want=len(good), codec=codec)
            for (o, v), want in zip(zip(ops, vals), good + [None] * len(ops)):
                if o[0] == "raw":
                    ctx.check(v == want, "a document differs in a damaged collection", codec=codec)
                else:
                    ctx.check(v == (want is not None), "skipping in a damaged collection")
            if refused:
                ctx.check(end <= len(good), "documents beyond the damage were given")
        if clean and not fails:
            ctx.check(not refused or boundary, "a collection that ends after a block was refused", cut=cut, refused=str(outs)[:600])
            if not refused and op == "all":
                ctx.check(outs[0][1] == good, "other documents than are in the file")
            if not refused and op == "all blocks":
                ctx.check(outs[0][1] == blocks[:whole], "other blocks than are in the file")
            if not refused and op == "skip blocks":
                ctx.equal([o[1] for o in outs], [True] * whole + [False] * (len(outs) - whole), "another number of blocks was skipped")
            if not refused and op in ("count", "skip n"):
                ctx.check(outs[0][1] == len(good), "another number of documents")
            ctx.ev("clean_cuts")
        elif cut < len(raw) or fails:
            if op not in ("next", "mixed") or len(ops) > len(good):
                if not (fails and cut >= len(raw)) and not clean:
                    ctx.check(refused, "the end of a collection that is cut short or fails was taken for its regular end", cut=cut, ends=ends, fails=fails, operation=op, size=len(raw),
                              answer=str(outs)[:600])
                    ctx.ev("damage_reported")
        ctx.seen("damage", op, fails, boundary, whole, clean)
    # other headers
    k = rng.randrange(4)
    bad = rng.choice([raw[:k] + bytes([raw[k] ^ (1 << rng.randrange(8))]) + raw[k + 1:], b"DM_1" + raw[4:], raw[4:], b""])
    if not boundary:
        out = run(ctx, "Java did not answer", "read", rng.choice(["doc", "handle"]), bad, False, 0, 0, -1, None, [])
        ctx.check(not out[0][0], "Java opened something that is no collection", head=bad[:10])
    other, _, _, _ = python_file(rng, docs, codec="bzip2" if rng.random() < .5 else "zstd")
    out = run(ctx, "Java did not answer", "read", rng.choice(["doc", "handle"]), other, False, 0, 0, -1, None, [])
    ctx.check(not out[0][0], "Java opened a collection with a codec that it does not know")
    ctx.ev("foreign_refused")


def block_ends(raw, boundary):
    """Physical positions where the head and every block end (found through the Python reader)."""
    src = io.BytesIO(raw)
    view = BoundaryReader(src) if boundary else src
    r = MsgpackDocumentReader(view)
    starts = []
    while True:
        b = r.readblock()
        if b is None:
            break
        starts.append(b.position)
    if not boundary:
        return starts + [len(raw)] if starts else [len(raw)]
    size = 1 << boundary
    # logical position of an end -> physical position after its last byte

    def physical(lg):
        p, seg = lg + 1, 0
        while True:
            k = 0 if p <= size else (p - size - 1) // (size - 4) + 1
            return p + 4 * k
    return [physical(s) for s in starts] + [len(raw)] if starts else [len(raw)]


def streams(ctx, rng, long=False):
    """Boundary streams of Java: the layout, and what is read from them, also by Python, and of Python by Java."""
    b = 12 if long else rng.choice([12, 12, 12, 13, 14, 18])
    m = Physical(b)
    ops = []
    limit = 4 if b < 18 else 1.6
    if long:
        limit = rng.choice([260, 520, 1100])
        ctx.ev("many_segments", limit)
    while len(m.logical) < limit * m.size and (long or rng.random() < .93):
        n = rsize(rng, m)
        if rng.random() < .3:
            n = min(n, 40)
        data = rng.randbytes(n)
        how = rng.choice(["bytes", "bytes", "slice", "each", "byte"])
        if how == "byte":
            data = data[:1]
            if data:
                ops.append(["byte", data[0] | rng.choice([0, 0x100, -256, 0x7f00])])
        elif how == "slice":
            pre, post = rng.randbytes(rng.choice([0, 1, 7])), rng.randbytes(rng.choice([0, 1, 7]))
            ops.append(["slice", pre + data + post, len(pre), len(data)])
        else:
            ops.append([how, data])
        m.write(data)
        if rng.random() < .4:
            ops.append(["split"])
            m.split()
        if rng.random() < .1:
            ops.append(["flush"])
    if rng.random() < .5:
        ops.append(["close"])
    raw = run(ctx, "Java does not write a boundary stream", "bwrite", b, ops)
    want = bytes(m.data)
    ctx.check(raw == want, "a boundary stream of Java has another layout", boundary=b, sizes=(len(raw), len(want)),
              at=next((k for k, (x, y) in enumerate(zip(raw, want)) if x != y), min(len(raw), len(want))), operations=[o[0] for o in ops][:60])
    ctx.ev("markers", len(m.markers))
    data = bytes(m.logical)
    ctx.check(BoundaryReader(io.BytesIO(raw)).read() == data, "Python reads another boundary stream than Java wrote")
    ctx.equal(run(ctx, "the boundary was not read", "boundary", raw), b, "readBoundary gives another boundary")
    for _ in range(2):
        breads(ctx, rng, raw, data, b)
    ctx.seen("stream", b, len(data) // m.size, len(raw) % m.size in (0, 1, 4, 5))
    ctx.ev("streams")


def breads(ctx, rng, raw, data, b):
    size = 1 << b
    ops, expect, pos = [], [], 0
    for _ in range(rng.choice([3, 10, 30])):
        left = next((e for e in (s * size - 1 - 4 * (s - 1) for s in range(1 + pos // size, 8 + pos // size)) if e > pos), len(data)) - pos
        k = rng.random()
        if len(data) > 9 * size and k < .3:
            ops.append(["bytes", 0, rng.randint(0, len(data) // 8), 0])
            ops[-1][3] = ops[-1][2]
            expect.append(("bytes", ops[-1][2]))
        elif k < .3:
            ops.append(["byte"])
            expect.append(("byte", pos))
            pos = min(len(data), pos + 1)
        elif k < .8:
            n = max(0, rng.choice([0, 1, 2, 5, left - 1, left, left + 1, left + 4, left + size - 4, size, rng.randint(0, size)]))
            off = rng.choice([0, 0, 1, 9])
            ops.append(["bytes", off, n, off + n + rng.choice([0, 0, 3])])
            expect.append(("bytes", n))
        elif k < .9:
            ops.append(["skip", len(data) if len(data) > 9 * size and rng.random() < .5 else rng.choice([0, 1, 5, left - 1, left, left + 1, size, rng.randint(0, size), -1])])
            expect.append(("skip", ops[-1][1]))
        else:
            ops.append(["available"])
            expect.append(("available", None))
        pos = min(len(data), pos + (ops[-1][2] if ops[-1][0] == "bytes" else 0))
    ops.append(rng.choice([["rest", rng.choice([1, 100, 4096, 5000, 3 * size])], ["rest bytes"]]))
    expect.append(("rest", None))
    ops += [["byte"], ["bytes", 0, 5, 5], ["close"]]
    piece = rng.choice([0, 0, 1, 100, 5000])
    if piece == 1 and len(raw) > 40000:
        piece = 100
    if len(raw) > 400000:
        piece = rng.choice([0, 50000])
    out = run(ctx, "Java does not read a boundary stream", "bread", raw, rng.getrandbits(40), piece, -1, ops)
    ctx.check(out[0][0], "Java does not open a boundary stream", refused=str(out[0])[:600])
    pos = 0
    for k, (op, (ok, *r)) in enumerate(zip(ops, out[1:])):
        ctx.check(ok, "reading a boundary stream failed in Java", operation=op, position=pos, refused=str(r)[:600])
        got = r[0]
        if op[0] == "byte":
            want = data[pos] if pos < len(data) else -1
            ctx.check(got == want, "Java reads another byte from a boundary stream", position=pos, got=got, want=want, boundary=b)
            pos += pos < len(data)
        elif op[0] == "bytes":
            n = op[2]
            if pos >= len(data) and n:
                ctx.check(got is None, "Java read beyond the end of a boundary stream", position=pos, got=len(got or b""))
            else:
                ctx.check(got is not None and (len(got) > 0 or n == 0) and got == data[pos:pos + len(got)], "Java reads other bytes from a boundary stream", position=pos, asked=n,
                          got=None if got is None else len(got), boundary=b)
                pos += len(got)
        elif op[0] == "skip":
            ctx.check(0 <= got <= max(0, op[1]) and pos + got <= len(data), "skipping in a boundary stream of Java skipped another number of bytes", position=pos, asked=op[1], got=got)
            pos += got
        elif op[0] == "available":
            ctx.check(got >= 0, "a negative number of available bytes", got=got)
        elif op[0] in ("rest", "rest bytes"):
            ctx.check(got == data[pos:], "the rest of a boundary stream differs in Java", position=pos, got=len(got), want=len(data) - pos, boundary=b)
            pos = len(data)
        else:
            ctx.check(got is True, "closing the reader did not close the file")
        ctx.ev("stream_" + op[0].replace(" ", "_"))
        ctx.seen("bread", op[0], b, min((pos + 1) % (size - 4), 9), op[2] % size if op[0] == "bytes" and op[2] % size < 9 else 9)


def lengths(ctx, rng):
    """computeLength against counting."""
    for _ in range(200):
        b = rng.choice([12, 12, 13, 20])
        size = 1 << b

        def at():
            while True:
                p = max(1, rng.choice([rng.randint(0, 4) * size + rng.choice([-2, -1, 0, 4, 5, 6]), rng.randint(1, 4 * size)]))
                if p < size or p % size == 0 or p % size >= 4:
                    return p
        x, y = sorted((at(), at()))
        big = rng.choice([0, 0, 1 << 33]) if b == 20 else 0

        def payload(p):     # payload bytes before p
            k = 0 if p <= size else (p - 1) // size
            inside = 4 * k
            return p - 1 - inside if p % size == 0 or p % size >= 4 or p < size else None
        want = payload(y) - payload(x)
        if y - x < 20000:
            slow = sum(1 for p in range(x, y) if p < size or p % size >= 4)
            ctx.check(slow == want, "the oracle is inconsistent", x=x, y=y, slow=slow, want=want)
        ctx.equal(run(ctx, "length", "length", b, x + big, y + big), want, "computeLength counts another number of bytes", boundary=b, start=x + big, stop=y + big)
        ctx.ev("lengths")
    ctx.seen("lengths", rng.random())
    exponents(ctx, rng)


def attempt(*cmd):
    """What Java answers, or None where it refuses."""
    try:
        out = java.call(*cmd)
    except java.Refused:
        return None
    return out


def exponents(ctx, rng):
    """Every exponent of the format can be written and read, by both, and no other."""
    data = rng.randbytes(rng.choice([0, 1, 100]))
    for b in [*range(12, 31), *rng.sample([0, 1, 10, 11, 31, 32, 64, 127, 128, 255], 4)]:
        raw = attempt("bwrite", b, [["bytes", data]])
        src = bytes([b]) + data
        ends = attempt("boundary", src)
        read = attempt("bread", src, rng.getrandbits(40), 0, -1, [["rest", 10]])
        read = read[1] if read is not None and read[0][0] else None
        kw = dict(boundary=b, size=len(data))
        if 12 <= b <= 30:
            ctx.check(raw == src, "a boundary stream of Java has another layout", **kw)
            ctx.check(ends == b, "readBoundary does not give the boundary", got=ends, **kw)
            ctx.check(read is not None and read == [True, data], "Java does not read a boundary stream of this size", got=str(read)[:300], **kw)
            ctx.check(BoundaryReader(io.BytesIO(src)).read() == data, "Python does not read a boundary stream of this size", **kw)
            ctx.ev("exponents")
        else:
            ctx.check(raw is None and ends is None and read is None, "an exponent outside of the format was accepted", wrote=raw is not None, **kw)
            ctx.ev("exponents_refused")


def bytes_(ctx, rng):
    """Compression and the growing buffer carry any bytes."""
    for _ in range(20):
        data = gen.rbytes(rng) if rng.random() < .5 else rng.choice([rng.randbytes(rng.choice([0, 1, 1023, 1024, 1025, 70000])), bytes(rng.choice([0, 1, 1024, 300000])), b"ab" * 5000])
        z = run(ctx, "compress", "deflate", data)
        ctx.check(zlib.decompress(z) == data, "Python does not decompress what Java compressed", size=len(data))
        ctx.check(run(ctx, "Java does not decompress what Python compressed", "inflate", zlib.compress(data, rng.choice([0, 1, 6, 9]))) == data, "Java decompresses to other bytes", size=len(data))
        for bad in (z[:-1], z[:rng.randrange(len(z))], bytes([z[0] ^ 1]) + z[1:], b""):
            try:
                r = java.call("inflate", bad)
            except java.Refused:
                ctx.ev("bad_compression_refused")
            else:
                ctx.check(False, "Java decompressed damaged data", size=len(z), kept=len(bad), got=len(r))
        ops, want = [], b""
        n = rng.choice([0, 1, 7, 64, 1024])
        for _ in range(rng.choice([1, 5, 20])):
            d = rng.randbytes(rng.choice([0, 1, 2, max(1, n) - 1, max(1, n), n + 1, 3 * n, 1024, 1025]))
            k = rng.choice(["byte", "bytes", "slice"])
            if k == "byte":
                d = d[:1] or b"x"
                ops.append(["byte", d[0] - rng.choice([0, 256])])
            elif k == "bytes":
                ops.append(["bytes", d])
            else:
                ops.append(["slice", b"<<" + d + b">", 2, len(d)])
            want += d
            ops.append(["check"])
        out = run(ctx, "the buffer fails", "buffer", n, ops)
        ctx.check(out[-1] == [len(want), want], "the output buffer holds other bytes than were written", size=n, operations=[o[0] for o in ops], got=out[-1][0], want=len(want))
        ctx.ev("buffers")
    ctx.seen("bytes", rng.random())


def many(ctx, rng):
    """Hundreds and thousands of documents, in a block, and of segments."""
    read(ctx, rng, True)
    write(ctx, rng, True)
    streams(ctx, rng, True)


def far(ctx, rng):
    """Streams and records of several GiB."""
    b = rng.choice([27, 28, 29, 30])
    steps = [(rng.randint(1, 1 << 26), True) for _ in range(rng.randint(0, 3))] + [((1 << 31) + (50 << 20) + rng.randint(0, 1 << 28), True), (5 << 28, rng.random() < .5), (1 << 28, True)]
    pos, heads, head, want = 1, [], 1, []
    size = 1 << b
    for n, split in steps:
        while n:
            if pos % size == 0:
                want.append(max(-(1 << 31), head - pos))
                pos += 4
            k = min(n, size - pos % size)
            pos += k
            n -= k
        if split:
            head = pos
    out = run(ctx, "Java does not write a large boundary stream", "far write", b, [list(s) for s in steps])
    ctx.equal(out[:2], [pos, bytes([b])], "a large boundary stream of Java has another length or head", boundary=b)
    ctx.equal([struct.unpack(">i", m)[0] for m in out[2]], want, "a marker of Java does not hold the distance to the last record start, or the largest possible one", boundary=b, steps=steps)
    ctx.ev("far_markers", sum(1 for v in want if v == -(1 << 31)))
    # the reader
    b = rng.choice([12, 20, 29, 30])
    size = 1 << b
    length = rng.choice([(1 << 31) + 5, (1 << 32) + 9, 5 << 30]) + rng.randint(0, 1 << 20)
    total = length - 1 - 4 * ((length - 1) // size) if (length - 1) % size >= 4 or length <= size else None
    steps = []
    if b > 12:
        for at in sorted(rng.sample([size - 10, (1 << 31) - 1000, (1 << 31), (1 << 32) - 2000000, (1 << 31) - 5 + rng.randint(0, 10), 3 << 29], 4)):
            steps.append([at, rng.choice([1, 4, 20, 5000, 3000000])])
        steps = [[max(0, s[0] - (sum(map(sum, steps[:k])) if k == 0 else 0)), s[1]] for k, s in enumerate(steps)]
        pos = 0
        for s in steps:
            s[0], pos = max(0, s[0] - pos), max(s[0], pos) + s[1]
    else:
        steps = [[rng.randint(1 << 30, 1 << 31), 100], [1 << 25, 5000], [1 << 24, 5000]]
    steps.append([0, 1000])
    steps.append([1 << 34, 10])
    pos = 0
    if total is None:
        total = size * ((length - 1) // size) - 1 - 4 * ((length - 1) // size - 1)
    out = run(ctx, "Java does not read a large boundary stream", "far read", b, length, steps)
    for (skip, n), (at, good, got) in zip(steps, out):
        want = min(n, max(0, total - pos - skip))
        pos = min(total, pos + skip + n)
        ctx.check(at == pos and good and got == want, "Java reads other bytes from a large boundary stream", boundary=b, length=length, steps=steps, position=(at, pos), right=good, bytes=(got, want))
        ctx.ev("far_reads")
    ctx.seen("far", b, steps[0][0])


def large(ctx, rng):
    """Compression and the growing buffer carry megabytes."""
    data = rng.choice([lambda n: rng.randbytes(n), lambda n: bytes(n), lambda n: (rng.randbytes(5000) * (n // 5000 + 1))[:n]])(rng.choice([1 << 20, (4 << 20) + 5, 9 << 20]))
    z = run(ctx, "compress", "deflate", data)
    ctx.check(zlib.decompress(z) == data, "Python does not decompress what Java compressed", size=len(data))
    ctx.check(run(ctx, "Java does not decompress what Python compressed", "inflate", zlib.compress(data, rng.choice([0, 1, 6]))) == data, "Java decompresses to other bytes", size=len(data))
    n = rng.choice([0, 1000, 1 << 16])
    ops, left = [], data
    while left:
        k = min(len(left), rng.choice([1 << 20, 3 << 20, 70000 + len(left) // 4]))
        ops.append(["slice", b"<<" + left[:k] + b">", 2, k] if rng.random() < .5 else ["bytes", left[:k]])
        left = left[k:]
    ops.append(["byte", 7])
    out = run(ctx, "the buffer fails", "buffer", n, ops)
    ctx.check(out[-1] == [len(data) + 1, data + b"\x07"], "the output buffer holds other bytes than were written", size=n, operations=[(o[0], len(o[1])) for o in ops[:-1]], got=out[-1][0], want=len(data) + 1)
    ctx.ev("large_buffers")
    ctx.seen("large", len(data), n)


SCENARIOS = [("beside", beside, 40, 1500), ("far", far, 6, 60), ("large", large, 6, 100), ("many", many, 10, 300), ("read", read, 350, 12000), ("write", write, 250, 8000), ("damaged", damaged, 150, 5000), ("streams", streams, 200, 6000), ("lengths", lengths, 4, 100), ("bytes", bytes_, 10, 300)]
REQUIRED = {"beside_others": 300, "far_markers": 1, "far_reads": 20, "large_buffers": 4, "many_documents": 2000, "many_documents_of_java": 2000, "many_in_a_block": 1, "many_of_java_in_a_block": 1, "many_segments": 3000, "exponents": 30, "exponents_refused": 8, "python_to_java": 170, "java_to_python": 120, "empty_collections": 20, "boundary_collections": 110, "flushes": 100, "positions": 60, "collection_markers": 70,
            "damage_reported": 180, "heads_refused": 20, "clean_cuts": 20, "markers": 200, "streams": 100, "stream_bytes": 1000, "stream_skip": 200, "stream_byte": 1000, "lengths": 400,
            "buffers": 100, "bad_compression_refused": 400, "read_skip_n": 200, "read_open": 100, "read_from": 100, "read_skip_block": 100, "read_count": 30}
