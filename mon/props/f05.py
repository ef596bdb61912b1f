"""The boundary-marked stream carries any bytes unchanged, is positioned logically, and its markers lead to record starts."""
import io
import os
import struct

from docria.collection import MsgpackDocumentWriter, MsgpackDocumentReader, get_codec
from mon.coll import BoundaryReader, BoundaryWriter

from mon import coll

RULE = ("random write/split sequences with sizes around the boundaries (2^12 to 2^15, and small streams with larger boundaries), parsed by an "
        "independent reader and by the library under random read/seek/tell sequences; whole collections on top of it; distinct = boundary x "
        "(write size, read size, position) relative to the boundary")
ASSUMPTIONS = ["boundaries of 2^12 to 2^30 bytes", "positions are logical: they do not count the first byte and the markers"]


class Physical:
    """Independent model of the physical layout."""

    def __init__(self, b):
        self.b = b
        self.size = 1 << b
        self.data = bytearray([b])
        self.split_at = 1
        self.markers = {}
        self.logical = bytearray()

    def write(self, data):
        view = memoryview(bytes(data))
        self.logical += data
        while len(view):
            room = self.size - len(self.data) % self.size
            if room == self.size:
                self.markers[len(self.data)] = self.split_at - len(self.data)
                self.data += struct.pack(">i", self.split_at - len(self.data))
                room -= 4
            self.data += view[:room]
            view = view[room:]

    def split(self):
        self.split_at = len(self.data)


def rsize(rng, m):
    """A size around what is left to the next boundary."""
    left = m.size - len(m.data) % m.size
    return max(0, rng.choice([0, 1, 3, 4, 5, left - 1, left, left + 1, left + m.size - 5, left + m.size - 4, left + m.size - 3, m.size, m.size - 4, rng.randint(0, 2 * m.size), rng.randint(0, 200)]))


def written(ctx, rng, limit=5):
    b = rng.choice([12, 12, 12, 13, 14, 15])
    m = Physical(b)
    f = coll.KeepBytes()
    if rng.random() < .15:
        f = coll.short_sink(rng)
        ctx.ev("short_writes")
    w = BoundaryWriter(f, boundary=b)
    total = 0
    while total < limit * m.size and rng.random() < .93:
        n = rsize(rng, m)
        data = rng.randbytes(n) if rng.random() < .8 else b"\x00" * n
        at = len(m.data) % m.size
        arg = data if rng.random() < .7 else bytearray(data) if rng.random() < .5 else memoryview(data)
        w.write(arg)
        m.write(data)
        total += n
        ctx.seen("write", b, min(at, m.size - at, 9), n % m.size if n % m.size < 9 else 9, n // m.size)
        if rng.random() < .4:
            w.split()
            m.split()
        if rng.random() < .1:
            w.flush()
            ctx.check(f.getvalue() == bytes(m.data), "flushed bytes of the stream differ")
    w.close()
    return m, f.kept


def layout(ctx, rng):
    m, raw = written(ctx, rng)
    ctx.check(raw == bytes(m.data), "physical stream differs from the specified layout", boundary=m.b, first_difference=first(raw, bytes(m.data)), sizes=(len(raw), len(m.data)))
    ctx.check(raw[0] == m.b, "first byte of the stream is not the boundary")
    pos = m.size
    while pos + 4 <= len(raw):
        delta = struct.unpack(">i", raw[pos:pos + 4])[0]
        ctx.equal(delta, m.markers[pos], "marker does not lead to the last record start", at=pos)
        pos += m.size
        ctx.ev("markers")
    r = BoundaryReader(io.BytesIO(raw))
    ctx.check(r.read() == bytes(m.logical), "reading everything gives other bytes")
    ctx.sample({"boundary": m.b, "bytes": len(m.logical), "markers": dict(list(m.markers.items())[:4])})


def first(a, b):
    return next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))


def access(ctx, rng):
    m, raw = written(ctx, rng)
    data = bytes(m.logical)
    kind = rng.random()
    path = None
    if kind < .4:
        src = io.BytesIO(raw)
    elif kind < .6:
        src = coll.short(raw, rng)
        ctx.ev("short_reads")
    else:
        path = os.path.join(ctx.tmp, "b%d" % rng.getrandbits(48))
        with open(path, "wb") as f:
            f.write(raw)
        src = open(path, "rb", buffering=rng.choice([-1, 0]))
    r = BoundaryReader(src)
    pos = 0
    ctx.equal(r.tell(), 0, "position of a fresh reader")
    edges = [0, len(data)] + [k for s in range(1, 8) for k in [s * m.size - 1 - 4 * (s - 1) + d for d in (-1, 0, 1)] if 0 <= k <= len(data)]
    for _ in range(rng.choice([5, 20, 40])):
        if rng.random() < .4:
            pos = rng.choice(edges) if rng.random() < .6 else rng.randint(0, len(data))
            ctx.equal(r.seek(pos), pos, "seek returned another position")
            ctx.ev("seeks")
        n = rng.choice([0, 1, 2, 3, 4, 5, 100, m.size - 1, m.size - 4, m.size, m.size + 1, 2 * m.size, -1, None, rng.randint(0, m.size)])
        if n is not None and n >= 0 and rng.random() < .3:
            nxt = next((e for e in sorted(edges) if e > pos), None)
            if nxt is not None:
                n = nxt - pos
        got = r.read(n) if n is not None or rng.random() < .5 else r.read()
        want = data[pos:] if n is None or n < 0 else data[pos:pos + n]
        ctx.check(bytes(got) == want, "the stream gives other bytes", position=pos, asked=n, got=len(got), want=len(want), boundary=m.b, at=first(got, want))
        ctx.seen("read", m.b, min((pos + 1) % (m.size - 4), 9), n, len(want) == n)
        pos += len(want)
        ctx.equal(r.tell(), pos, "position after reading")
        ctx.ev("reads")
        ctx.ev("reads_across_boundaries", 1 if any(pos - len(want) < e < pos for e in edges) else 0)
    r.close()
    if path:
        os.unlink(path)


def collections(ctx, rng):
    """Whole collections through the boundary stream: same documents, same random access, markers at block starts."""
    docs = coll.documents(rng, rng.choice([1, 5, 12, 25]), big=.3)
    b = rng.choice([12, 12, 13])
    f = coll.KeepBytes()
    n = rng.choice([1, 2, 5])
    w = MsgpackDocumentWriter(BoundaryWriter(f, boundary=b), num_docs_per_block=n, codec=get_codec(rng.choice(["none", "zip", "zstd"])))
    datas = [coll.write_one(rng, w, d) for d in docs]
    w.close()
    raw = f.kept
    r = MsgpackDocumentReader(BoundaryReader(io.BytesIO(raw)))
    seq = [(d.ref, d.binary()) for d in r]
    ctx.check([x for _, x in seq] == datas, "documents differ after the boundary stream")
    r = MsgpackDocumentReader(BoundaryReader(io.BytesIO(raw)))
    for k in rng.sample(range(len(seq)), len(seq)):
        ctx.check(r.get(seq[k][0]).binary() == datas[k], "random access through the boundary stream gives another document", wanted=k)
        ctx.ev("gets")
    # block starts in the logical stream -> physical positions
    size = 1 << b
    starts = {ref[0] for ref, _ in seq}

    def logical(p):
        return p - 1 - 4 * (p // size)
    pos = size
    while pos + 4 <= len(raw):
        delta = struct.unpack(">i", raw[pos:pos + 4])[0]
        ctx.check(delta <= 0, "a marker points forward", at=pos, delta=delta)
        p = pos + delta
        lg = logical(p) if p % size >= 4 or p < size else (p // size * size - 1 - 4 * (p // size - 1))
        here = max([s for s in starts if s <= logical(pos + 4)], default=None)
        ctx.check(lg in starts, "a marker does not lead to a block start", at=pos, delta=delta, leads_to=lg, starts=sorted(starts)[:20])
        ctx.check(lg == here, "a marker does not lead to the last block start before it", at=pos, leads_to=lg, last=here)
        ctx.ev("collection_markers")
        pos += size
    ctx.ev("collections")
    ctx.seen("collection", b, n, len(docs), len(raw) // size)


def segments(ctx, rng):
    """Hundreds of boundaries in one stream, records over many of them."""
    m = Physical(12)
    f = coll.KeepBytes()
    w = BoundaryWriter(f, boundary=12)
    goal = rng.choice([257, 300, 520, 1030]) << 12
    splits = []
    while len(m.data) < goal:
        data = rng.randbytes(rng.choice([1, 100, 4092, 4096, 20000, 70000, 300000, rng.randint(0, 1 << 20)]))
        w.write(data)
        m.write(data)
        if rng.random() < .6:
            w.split()
            m.split()
    w.close()
    raw = f.kept
    ctx.check(raw == bytes(m.data), "physical stream of many segments differs from the specified layout", first_difference=first(raw, bytes(m.data)),
              sizes=(len(raw), len(m.data)))
    data = bytes(m.logical)
    r = BoundaryReader(io.BytesIO(raw))
    ctx.check(r.read() == data, "reading everything of many segments gives other bytes")
    r = BoundaryReader(io.BytesIO(raw))
    pos = 0
    for _ in range(20):
        if rng.random() < .5:
            pos = rng.randint(0, len(data))
            ctx.equal(r.seek(pos), pos, "seek returned another position")
        n = rng.choice([1, 4092, 5000, 70000, 1 << 20, rng.randint(0, len(data))])
        got = r.read(n)
        ctx.check(bytes(got) == data[pos:pos + n], "the stream of many segments gives other bytes", position=pos, asked=n, got=len(got), at=first(got, data[pos:pos + n]))
        pos += len(data[pos:pos + n])
        ctx.equal(r.tell(), pos, "position after reading")
    docs = coll.many(rng, 300)
    f = coll.KeepBytes()
    w = MsgpackDocumentWriter(BoundaryWriter(f, boundary=12), num_docs_per_block=coll.many_per_block(rng), codec=get_codec("none"))
    datas = [coll.write_one(rng, w, d) for d in docs]
    w.close()
    r = MsgpackDocumentReader(BoundaryReader(io.BytesIO(f.kept)))
    seq = [(d.ref, d.binary()) for d in r]
    ctx.check([x for _, x in seq] == datas, "many documents differ after the boundary stream")
    r = MsgpackDocumentReader(BoundaryReader(io.BytesIO(f.kept)))
    for k in rng.sample(range(len(seq)), 5):
        ctx.check(r.get(seq[k][0]).binary() == datas[k], "random access through a long boundary stream gives another document", wanted=k)
    ctx.ev("many_segments", len(raw) >> 12)
    ctx.seen("segments", len(raw) >> 12, len(f.kept) >> 12)


def refusals(ctx, rng):
    for b in [-1, 0, 1, 11, 31, 32, 64, 255, 256, 1000]:
        ctx.rejects(lambda: BoundaryWriter(io.BytesIO(), boundary=b), "an unusable boundary was accepted for writing", boundary=b)
        if 0 <= b < 256:
            ctx.rejects(lambda: BoundaryReader(io.BytesIO(bytes([b]) + b"Dmf1")), "an unusable boundary was accepted for reading", boundary=b)
    for b in range(12, 31):
        f = coll.KeepBytes()
        w = BoundaryWriter(f, boundary=b)
        data = rng.randbytes(rng.choice([0, 1, 100, 4095, 4096]) if b > 12 else 100)
        w.write(data)
        w.close()
        ctx.check(f.kept[:1] == bytes([b]), "first byte is not the boundary")
        ctx.check(BoundaryReader(io.BytesIO(f.kept)).read() == data, "a short stream differs", boundary=b)
        ctx.seen("boundary", b)
    ctx.ev("refusals")


class Markers:
    """A sink that forgets the payload and keeps what is written at the boundaries."""

    def __init__(self, size):
        self.size, self.pos, self.at = size, 0, {}

    def write(self, data):
        if self.pos and self.pos % self.size == 0:
            self.at[self.pos] = bytes(data[:4])
        self.pos += len(data)
        return len(data)

    def flush(self):
        pass

    def close(self):
        pass


def far(ctx, rng):
    """Records of several GiB: markers hold the distance, or the largest one they can hold."""
    b = rng.choice([28, 29, 30])
    f = Markers(1 << b)
    w = BoundaryWriter(f, boundary=b)
    piece = bytes(1 << 26)
    splits = [1]
    for _ in range(rng.randint(0, 3)):
        w.write(piece[:rng.randint(1, 1 << 26)])
        w.split()
        splits.append(f.pos)
    for _ in range(50):
        w.write(piece)
    w.write(piece[:rng.randint(0, 1 << 20)])
    w.split()
    splits.append(f.pos)
    for _ in range(20):
        w.write(piece)
    want = {pos: max(-(1 << 31), max(s for s in splits if s <= pos) - pos) for pos in range(1 << b, f.pos, 1 << b)}
    got = {pos: struct.unpack(">i", d)[0] if len(d) == 4 else d for pos, d in f.at.items()}
    ctx.equal({p: got.get(p) for p in want}, want, "a marker does not hold the distance to the last record start, or the largest possible one", boundary=b)
    ctx.ev("far_markers", sum(1 for v in want.values() if v == -(1 << 31)))
    ctx.seen("far", b, tuple(want.values()))


SCENARIOS = [("far", far, 2, 8), ("segments", segments, 8, 200), ("layout", layout, 250, 8000), ("access", access, 400, 15000), ("collections", collections, 150, 5000), ("refusals", refusals, 3, 20)]
REQUIRED = {"short_reads": 40, "short_writes": 50, "far_markers": 2, "markers": 300, "seeks": 1000, "reads": 3000, "reads_across_boundaries": 500, "gets": 500, "collection_markers": 300, "collections": 70, "refusals": 1, "many_segments": 2000}
