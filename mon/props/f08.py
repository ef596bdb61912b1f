"""Readers, writers, archives, index builds and searches close what they opened, and nothing accepted before the end is lost."""
import bz2
import gzip
import io
import lzma
import os
import warnings

from docria.codec import MsgpackCodec, MsgpackDocument
from docria.collection import (DocumentFileIndex, DocumentIO, MsgpackDocumentIO, MsgpackDocumentReader, MsgpackDocumentWriter, TarMsgpackReader,
                               TarMsgpackWriter, build_msgpack_fileindex, get_codec)
from mon.coll import BoundaryReader, BoundaryWriter
from docria.model import Document

from mon import coll, core

RULE = ("random sessions of writers, readers, archives and searches ended by close, by leaving a with block, by an exception in it, or by giving up half "
        "way, by path and over given files (plain, gzip, bz2, xz, memory); refused opens of missing, empty, foreign and cut files; distinct = "
        "(what was opened, how it ended, number of documents, what was done after)")
ASSUMPTIONS = ["the descriptors of the process (/proc/self/fd) and the interpreter's own warnings about unclosed files are the witnesses of what is open",
               "a reader may still give documents it has already read after it is closed"]


def descriptors():
    for fd in os.listdir("/proc/self/fd"):
        try:
            yield fd, os.readlink("/proc/self/fd/" + fd)
        except OSError:
            continue


def opened(ctx):
    out = []
    for fd, p in descriptors():
        if p.startswith(ctx.tmp + "/"):
            out.append((fd, os.path.relpath(p, ctx.tmp)))
    return sorted(p for fd, p in out if (fd, p) not in BASE)


BASE = set()                # left open by an earlier case that was refuted


class Watch:
    """No descriptor is left, and none had to be closed by the garbage collector, when the block ends."""

    def __init__(self, ctx, doing, **detail):
        self.ctx, self.doing, self.detail = ctx, doing, detail

    def __enter__(self):
        BASE.clear()
        BASE.update((fd, os.path.relpath(p, self.ctx.tmp)) for fd, p in descriptors())
        self.w = warnings.catch_warnings(record=True)
        self.log = self.w.__enter__()
        warnings.simplefilter("always")
        return self

    def __exit__(self, t, v, tb):
        self.w.__exit__(t, v, tb)
        if t is None:
            self.ctx.equal(opened(self.ctx), [], "%s: files are left open" % self.doing, **self.detail)
            leaks = [str(x.message) for x in self.log if issubclass(x.category, ResourceWarning) and self.ctx.tmp in str(x.message)]
            self.ctx.equal(leaks, [], "%s: files were never closed" % self.doing, **self.detail)


class Stop(Exception):
    pass


class Interrupt(BaseException):
    pass


ENDS = [Stop, Stop, StopIteration, EOFError, OSError, KeyError, ValueError, GeneratorExit, Interrupt, AssertionError, RuntimeError]


def path_for(ctx, rng, ext=".docria"):
    return os.path.join(ctx.tmp, "r%x%s" % (rng.getrandbits(60), ext))


def writers(ctx, rng):
    kind = rng.choice(["path", "file", "gzip", "bz2", "xz", "memory", "boundary", "DocumentIO", "tar"])
    end = rng.choice(["close", "with", "exception", "close twice", "with after close"])
    n = rng.choice([0, 1, 2, 5, 9])
    docs = coll.documents(rng, n, big=0)
    per = rng.choice([1, 2, 4, 128])
    p = path_for(ctx, rng)
    codec = get_codec(coll.codec_name(rng, fast=True))
    mem = coll.KeepBytes()
    datas = []
    after = []
    with Watch(ctx, "writing", kind=kind, end=end, documents=n):
        try:
            if kind == "path":
                f, w = None, MsgpackDocumentWriter(p, num_docs_per_block=per, codec=codec)
            elif kind == "DocumentIO":
                f, w = None, DocumentIO.write(p, num_docs_per_block=per, codec=codec)
            elif kind == "tar":
                f, w = None, TarMsgpackWriter(p, mode="w|gz")
            else:
                f = {"file": lambda: open(p, "wb"), "gzip": lambda: gzip.open(p, "wb"), "bz2": lambda: bz2.open(p, "wb"), "xz": lambda: lzma.open(p, "wb"),
                     "memory": lambda: mem, "boundary": lambda: open(p, "wb")}[kind]()
                if kind == "boundary":
                    w = MsgpackDocumentWriter(BoundaryWriter(f, boundary=12), num_docs_per_block=per, codec=codec)
                else:
                    w = MsgpackDocumentWriter(f, num_docs_per_block=per, codec=codec)
            cut = rng.randint(0, n) if end == "exception" else n
            if end in ("with", "exception"):
                boom = rng.choice(ENDS)("in the with block")
                try:
                    with w as inner:
                        ctx.check(inner is w, "entering a with block gives another writer")
                        for d in docs[:cut]:
                            datas.append(coll.write_one(rng, w, d))
                        if end == "exception":
                            raise boom
                    ctx.check(end == "with", "an exception in a with block was swallowed", kind=kind)
                except core.Violation:
                    raise
                except BaseException as e:
                    if not isinstance(e, type(boom)):
                        raise
                    ctx.check(e is boom, "another exception came out of a with block")
                    ctx.ev("exceptions_in_with")
            else:
                for d in docs:
                    datas.append(coll.write_one(rng, w, d))
                w.close()
                if end == "close twice":
                    w.close()
                    ctx.ev("closed_twice")
                elif end == "with after close":
                    with w:
                        pass
            ctx.check(f is None or f.closed, "the given file is not closed", kind=kind, end=end)
            ctx.equal(opened(ctx), [], "files are open after the writer was closed", kind=kind, end=end)
            late = coll.documents(rng, 1, big=0)[0]
            ctx.rejects(lambda: w.write(late), "a closed writer accepted a document", kind=kind, end=end)
            if rng.random() < .5:
                try:
                    w.close()
                except Exception:
                    pass
            after.append(w)
        finally:
            del w
    # everything accepted is there
    if kind == "tar":
        got = []
        with TarMsgpackReader(p) as r:
            got = [d.binary() for d in r]
    else:
        raw = mem.kept if kind == "memory" else {"gzip": gzip.open, "bz2": bz2.open, "xz": lzma.open}.get(kind, open)(p, "rb")
        if kind == "memory":
            raw = io.BytesIO(raw)
        if kind == "boundary":
            raw = BoundaryReader(raw)
        with MsgpackDocumentReader(raw) as r:
            got = [d.binary() for d in r]
    ctx.check(got == datas, "what was written before the end of a session is not what is read", kind=kind, end=end, written=len(datas), read=len(got))
    ctx.equal(opened(ctx), [], "files are open after reading back", kind=kind)
    ctx.seen("write", kind, end, n, per)
    ctx.ev("written_" + end.replace(" ", "_"))
    ctx.sample({"writer": kind, "end": end, "documents": len(datas)})
    if os.path.exists(p):
        if kind == "path":
            # the default mode never touches an existing file
            before = open(p, "rb").read()
            keep = []
            with Watch(ctx, "refused creation"):
                keep.append(ctx.rejects(lambda: MsgpackDocumentWriter(p, num_docs_per_block=per, codec=codec), "an existing file was opened for writing"))
            ctx.check(open(p, "rb").read() == before, "a refused writer changed the existing file")
            ctx.ev("refused_creations")
        os.unlink(p)


def readers(ctx, rng):
    kind = rng.choice(["path", "io", "file", "gzip", "memory", "DocumentIO", "tar"])
    end = rng.choice(["close", "with", "exception", "close twice"])
    if kind == "DocumentIO":
        end = rng.choice(["with", "exception"])
    n = rng.choice([0, 1, 2, 5, 9])
    docs = coll.documents(rng, n, big=0)
    p = path_for(ctx, rng)
    if kind == "tar":
        with TarMsgpackWriter(p) as w:
            datas = [coll.write_one(rng, w, d) for d in docs]
    else:
        raw, datas, *_ = coll.build(rng, docs)
        with (gzip.open if kind == "gzip" else open)(p, "wb") as f:
            f.write(raw)
    upto = rng.randint(0, n)
    got = []
    keep = []
    with Watch(ctx, "reading", kind=kind, end=end, documents=n, read=upto):
        f = None
        if kind == "path":
            r = MsgpackDocumentReader(p)
        elif kind == "io":
            r = MsgpackDocumentIO.read(p)
        elif kind == "DocumentIO":
            r = DocumentIO.read(p)
        elif kind == "tar":
            r = TarMsgpackReader(p)
        else:
            f = {"file": lambda: open(p, "rb"), "gzip": lambda: gzip.open(p, "rb"), "memory": lambda: io.BytesIO(raw)}[kind]()
            r = rng.choice([MsgpackDocumentReader, MsgpackDocumentIO.readfile])(f)

        def take():
            it = iter(r)
            for _ in range(upto):
                x = next(it)
                keep.append(x)
                got.append(MsgpackCodec.encode(x) if isinstance(x, Document) else x.binary())
            if upto == n and rng.random() < .5:
                ctx.check(next(it, None) is None, "more documents than were written")
        if end in ("with", "exception"):
            boom = rng.choice(ENDS)("in the with block")
            try:
                with r as inner:
                    ctx.check(inner is r, "entering a with block gives another reader")
                    take()
                    if end == "exception":
                        raise boom
                ctx.check(end == "with", "an exception in a with block was swallowed", kind=kind)
            except core.Violation:
                raise
            except BaseException as e:
                if not isinstance(e, type(boom)):
                    raise
                ctx.check(e is boom, "another exception came out of a with block")
                ctx.ev("exceptions_in_with")
        else:
            take()
            r.close()
            if end == "close twice":
                r.close()
                ctx.ev("closed_twice")
        ctx.check(f is None or f.closed, "the given file is not closed", kind=kind, end=end)
        ctx.equal(opened(ctx), [], "files are open after the reader was closed", kind=kind, end=end)
    ctx.check(got == datas[:upto], "a reader gave other documents", kind=kind)
    # documents already given stay usable after the reader is closed
    for x, b in zip(keep, datas):
        ctx.check((MsgpackCodec.encode(x) if isinstance(x, Document) else MsgpackCodec.encode(x.document())) == b, "a document changed when its reader was closed", kind=kind)
        ctx.ev("documents_used_after_close")
    ctx.seen("read", kind, end, n, upto)
    ctx.ev("read_" + end.replace(" ", "_"))
    os.unlink(p)


def refused(ctx, rng):
    """Opens that fail, and index builds that fail half way, leave nothing open."""
    p = path_for(ctx, rng)
    docs = coll.documents(rng, rng.choice([1, 4, 8]), big=0)
    raw, datas, blocks, codec, per = coll.build(rng, docs, codec=rng.choice(["none", "zip", "bzip2"]))
    what = rng.choice(["missing", "empty", "foreign", "magic only", "cut header", "unknown codec", "advanced", "cut", "damaged"])
    bad = raw
    opens = False
    if what == "empty":
        bad = b""
    elif what == "foreign":
        bad = rng.choice([b"PK\x03\x04", b"\x1f\x8b", b"Dmf2" + raw[4:], b"DM_1" + raw[4:], b"D", raw[1:]])
    elif what == "magic only":
        bad = raw[:4]
    elif what == "cut header":
        bad = raw[:5]
    elif what == "unknown codec":
        bad = b"Dmf1\xa4nope\x01\xc2" + raw[12:]
    elif what == "advanced":
        bad = b"Dmf1\xa4none\x01\xc3"
    elif what == "cut":
        bad = raw[:-1]
        opens = True
    elif what == "damaged":
        k = len(raw) // 2
        bad = raw[:-6]
        opens = True
    if what != "missing":
        with open(p, "wb") as f:
            f.write(bad)
    keep = []                                    # the errors, and with them the frames they went through, stay alive
    with Watch(ctx, "refused open", what=what):
        for name, fn in [("MsgpackDocumentReader", lambda: MsgpackDocumentReader(p)), ("MsgpackDocumentIO.read", lambda: MsgpackDocumentIO.read(p)),
                         ("DocumentIO.read", lambda: DocumentIO.read(p)), ("TarMsgpackReader", lambda: TarMsgpackReader(p)),
                         ("DocumentFileIndex.build", lambda: DocumentFileIndex.build(p, "id")), ("build_msgpack_fileindex", lambda: build_msgpack_fileindex(p, "id"))]:
            if opens and name in ("MsgpackDocumentReader", "MsgpackDocumentIO.read", "DocumentIO.read"):
                continue
            if what == "cut" and "ndex" in name:
                # the last block is incomplete: whether the build fails or indexes the rest, it closes the file
                try:
                    fn()
                except Exception as e:
                    keep.append(e)
            else:
                keep.append(ctx.rejects(fn, "%s accepted a file that is no collection" % name, what=what)) if not opens else keep.append(_try(fn))
            ctx.equal(opened(ctx), [], "%s left a file open when it failed" % name, what=what)
            ctx.ev("refused_opens")
    ctx.seen("refused", what, len(docs))
    if os.path.exists(p):
        os.unlink(p)


def _try(fn):
    try:
        fn()
    except Exception as e:
        return e


def searches(ctx, rng):
    p = path_for(ctx, rng)
    docs = coll.documents(rng, rng.choice([0, 1, 5, 12]), big=0)
    for d in docs:
        d.props["k"] = rng.randrange(2)
    raw, datas, *_ = coll.build(rng, docs)
    with open(p, "wb") as f:
        f.write(raw)
    with Watch(ctx, "building an index"):
        ix = build_msgpack_fileindex(p, "k", "id")
        ctx.equal(opened(ctx), [], "building an index left a file open")
    with Watch(ctx, "searching"):
        for _ in range(6):
            lazy = rng.random() < .5
            k = rng.randrange(3)
            g = ix.search({"k": k}, lazy=lazy)
            want = [b for d, b in zip(docs, datas) if d.props["k"] == k]
            upto = rng.choice([len(want), len(want), rng.randint(0, len(want))])
            got = [next(g) for _ in range(upto)]
            if upto == len(want):
                ctx.check(next(g, None) is None, "more hits than matches")
                ctx.ev("finished_searches")
            elif rng.random() < .5:
                g.close()
                ctx.ev("abandoned_searches")
            else:
                del g
                ctx.ev("abandoned_searches")
            ctx.equal(opened(ctx), [], "a finished or abandoned search left a file open", hits=len(want), taken=upto)
            ctx.check([coll_image(x) for x in got] == want[:upto], "a search found other documents")
            ctx.seen("search", len(want), upto, lazy)
    # the file disappears or is damaged between indexing and searching
    if docs:
        if rng.random() < .5:
            os.unlink(p)
        else:
            with open(p, "wb") as f:
                f.write(rng.choice([b"", raw[:4], raw[:11], b"x" * len(raw)]))
        keep = []
        with Watch(ctx, "failing search"):
            keep.append(ctx.rejects(lambda: list(ix.search({"k": docs[0].props["k"]})), "a search in a file that is gone found something"))
            ctx.equal(opened(ctx), [], "a failed search left a file open")
            ctx.ev("failed_searches")
    if os.path.exists(p):
        os.unlink(p)


def coll_image(x):
    return x.binary() if isinstance(x, MsgpackDocument) else MsgpackCodec.encode(x)


SCENARIOS = [("writers", writers, 500, 15000), ("readers", readers, 500, 15000), ("refused", refused, 300, 8000), ("searches", searches, 300, 6000)]
REQUIRED = {"exceptions_in_with": 100, "closed_twice": 80, "written_exception": 40, "written_close": 40, "written_with": 40, "read_exception": 50, "read_close": 40,
            "read_with": 50, "refused_opens": 790, "refused_creations": 20, "finished_searches": 400, "abandoned_searches": 70, "failed_searches": 100,
            "documents_used_after_close": 390}
