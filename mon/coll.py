"""Shared by the collection monitors: documents to store, ways to write and read them."""
import gzip
import io
import os

from docria.codec import MsgpackCodec, MsgpackDocument
from docria.collection import (MsgpackDocumentWriter, MsgpackDocumentReader, MsgpackDocumentIO, DocumentIO, get_codec)
from docria.model import Document

from mon import gen

CODECS = ["none", "zip", "bzip2", "zipsq", "lzma", "lz4", "zstd", "zstd:high", "zstd:ultra"]
SLOW = {"lzma", "zstd:ultra", "lz4"}


def codec_name(rng, fast=False):
    c = rng.choice(CODECS)
    if c in SLOW and (fast or rng.random() < .6):
        c = rng.choice(["none", "zip", "zip", "zstd", "bzip2"])
    return c


class KeepBytes(io.BytesIO):
    """A memory file whose content survives close()."""
    kept = None

    def close(self):
        if not self.closed:
            self.kept = self.getvalue()
        super().close()


class Short(io.RawIOBase):
    """A raw stream (a pipe, an object in a cloud store) that gives fewer bytes than it was asked for, in pieces of 1 to most bytes."""

    def __init__(self, raw, rng, most):
        super().__init__()
        self.raw, self.rng, self.most = io.BytesIO(raw), rng, most

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, *args):
        return self.raw.seek(*args)

    def tell(self):
        return self.raw.tell()

    def readinto(self, b):
        data = self.raw.read(min(len(b), self.rng.randint(1, self.most)))
        b[:len(data)] = data
        return len(data)


class ShortSink(io.RawIOBase):
    """A raw stream that stores less than it is given, at least a byte."""

    def __init__(self, rng, most):
        super().__init__()
        self.kept, self.rng, self.most = b"", rng, most
        self.pieces = []

    def writable(self):
        return True

    def write(self, data):
        piece = bytes(memoryview(data)[:self.rng.randint(1, self.most)])
        self.pieces.append(piece)
        return len(piece)

    def getvalue(self):
        return b"".join(self.pieces)

    def close(self):
        self.kept = self.getvalue()
        super().close()


def short_sink(rng):
    return ShortSink(rng, rng.choice([7, 100, 5000]))


def short(raw, rng):
    return Short(raw, rng, rng.choice([1, 2, 3, 4, 7, 100, 5000]))


def documents(rng, n, big=.03):
    out = []
    for k in range(n):
        if rng.random() < .3:
            d = Document(id=k)
            if rng.random() < .3:
                d.maintext = gen.rstr(rng, 5)
        else:
            d = gen.document(rng, gen.Opts(max_layers=2, max_nodes=5, history=False))
            d.props["id"] = k
        if rng.random() < big:
            d.props["pad"] = rng.randbytes(rng.choice([100, 5000, 70000]))
        out.append(d)
    return out


def many(rng, most=3000):
    """Hundreds or thousands of documents, small ones or several MiB together."""
    n = rng.choice([k for k in (129, 200, 257, 300, 520, 1025, 3000) if k <= most])
    total = rng.choice([0, 0, n * 40, 300 << 10, 2 << 20, 5 << 20, 9 << 20])
    out = []
    for k in range(n):
        d = Document(n=k)
        if total:
            d.props["pad"] = rng.randbytes(rng.randint(0, 2 * total // n))
        out.append(d)
    return out


def many_per_block(rng):
    return rng.choice([1, 2, 7, 64, 128, 129, 256, 300, 1000, 5000])


def count(rng):
    return rng.choice([0, 1, 2, 3, 5, 8, 9, 16, 17, 30])


def per_block(rng):
    return rng.choice([1, 2, 3, 4, 8, 16, 128, 1000])


def write_one(rng, writer, doc):
    """Write doc in one of the accepted forms; returns the bytes that have to come back."""
    form = rng.randrange(4)
    data = MsgpackCodec.encode(doc)
    if form == 0:
        writer.write(doc)
    elif form == 1:
        writer.write(MsgpackDocument(data))
    elif form == 2:
        writer.write(MsgpackDocument(io.BytesIO(data)))
    else:
        writer.write(MsgpackDocument(doc))
    return data


def build(rng, docs, codec=None, n=None, flushes=.15):
    """A collection in memory: (bytes, document bytes, list of block sizes)."""
    codec = codec or codec_name(rng)
    n = n or per_block(rng)
    f = KeepBytes()
    w = MsgpackDocumentWriter(f, num_docs_per_block=n, codec=get_codec(codec))
    datas, blocks, cur = [], [], 0
    for d in docs:
        datas.append(write_one(rng, w, d))
        cur += 1
        if cur == n or rng.random() < flushes:
            if cur != n:
                w.flush()
            blocks.append(cur)
            cur = 0
    w.close()
    if cur:
        blocks.append(cur)
    return f.kept, datas, blocks, codec, n


def _boundary_class(kind):
    """The boundary streams, by what they are and not by an exact private name."""
    import docria.collection as c
    exact = getattr(c, "_Boundary" + kind, None)
    if exact is not None:
        return exact
    found = [v for k, v in sorted(vars(c).items()) if isinstance(v, type) and "boundary" in k.lower() and kind.lower()[:4] in k.lower()]
    return found[0]


BoundaryReader = _boundary_class("Reader")
BoundaryWriter = _boundary_class("Writer")
