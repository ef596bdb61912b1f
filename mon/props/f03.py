"""A collection cut short at any byte, or by a crash, still gives a prefix of what was written, and all that was flushed."""
import io
import os
import signal

from docria.collection import MsgpackDocumentWriter, MsgpackDocumentReader, DocumentIO, get_codec

from mon import coll
from mon.core import NoProgress

RULE = ("random collections cut at random and at all structurally interesting bytes; writer processes killed (SIGKILL, os._exit without "
        "clean-up) between operations after random flushes; distinct = codec x cut position relative to the blocks, resp. crash point x number "
        "of flushed documents")
ASSUMPTIONS = ["a crash is the death of the process: what was handed to the operating system survives", "within a block a cut is detected: "
               "no document of an incomplete block is given"]


def drain(raw, way=0):
    """Documents read before the reader stops or fails."""
    got = []
    try:
        r = MsgpackDocumentReader(io.BytesIO(raw))
        if way == 0:
            for d in r:
                got.append(d.binary())
        elif way == 1:
            for b in r.blocks():
                for d in b:
                    got.append(d.binary())
        else:
            for b in r.blocks():
                got.extend(d.binary() for _, d in b.documents())
        return got, None
    except Exception as e:
        return got, e


def cuts(ctx, rng):
    if rng.random() < .03:
        docs = coll.many(rng, 300)
        raw, datas, blocks, codec, n = coll.build(rng, docs, codec=rng.choice(["zip", "none"]), n=rng.choice([1, 7, 128, 129, 300]), flushes=.01)
        ctx.ev("many_cut")
    else:
        docs = coll.documents(rng, rng.choice([1, 3, 6, 12]), big=0)
        raw, datas, blocks, codec, n = coll.build(rng, docs, codec=coll.codec_name(rng, fast=True), n=rng.choice([1, 2, 3, 5, 100]))
    r = MsgpackDocumentReader(io.BytesIO(raw))
    pos = [b.position for b in r.blocks()] + [len(raw)]
    ctx.equal(len(pos) - 1, len(blocks), "number of blocks")
    done = [0]
    for b in blocks:
        done.append(done[-1] + b)
    places = set(range(0, min(len(raw), 16)))
    for p in pos:
        places.update(range(max(0, p - 3), min(len(raw) + 1, p + 8)))
    places.update(rng.randrange(len(raw)) for _ in range(15))
    if ctx.thorough and len(raw) < 3000:
        places = set(range(len(raw) + 1))
    if len(datas) > 100:
        places = rng.sample(sorted(places), min(20, len(places)))
    for c in sorted(places):
        complete = sum(1 for p in pos[1:] if p <= c)
        want = datas[:done[complete]]
        for way in (0, rng.choice([1, 2])):
            got, err = drain(raw[:c], way)
            ctx.check(got == want, "a cut collection does not give exactly the documents of its complete blocks", cut=c, blocks=pos, way=way,
                      got=len(got), want=len(want), error=repr(err))
        ctx.ev("cuts")
        ctx.ev("cuts_at_block_ends" if c in pos else "cuts_inside")
        near = min(pos, key=lambda p: abs(p - c))
        ctx.seen(codec, max(-4, min(8, c - near)), complete, err is not None)
    ctx.sample({"blocks_at": pos, "bytes": len(raw), "codec": codec})


def crash(ctx, rng):
    """A child process writes and dies; its parent knows what had been flushed."""
    if rng.random() < .06:
        docs = coll.many(rng, 520)
        codec, n = rng.choice(["none", "zip", "zstd"]), rng.choice([5, 100, 128, 129, 256, 300, 500])
        ctx.ev("many_crashes")
    else:
        docs = coll.documents(rng, rng.choice([1, 3, 10, 20]), big=.1)
        codec, n = coll.codec_name(rng, fast=True), rng.choice([1, 2, 3, 5, 8, 100])
    path = os.path.join(ctx.tmp, "k%d.docria" % rng.getrandbits(48))
    plan = []
    for d in docs:
        plan.append("write")
        if rng.random() < (.25 if len(docs) < 100 else .004):
            plan.append("flush")
    die_at = rng.randint(0, len(plan))
    how = rng.choice(["kill", "exit"])
    target = rng.choice(["path", "file", "buffer", "documentio"])
    seed = rng.getrandbits(64)
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            os.close(rd)
            import random
            r2 = random.Random(seed)
            kw = dict(num_docs_per_block=n, codec=get_codec(codec))
            if target == "path":
                w = MsgpackDocumentWriter(path, **kw)
            elif target == "file":
                w = MsgpackDocumentWriter(open(path, "wb"), **kw)
            elif target == "buffer":
                w = MsgpackDocumentWriter(open(path, "wb", buffering=1 << 20), **kw)
            else:
                w = DocumentIO.write(path, **kw)
            it = iter(docs)
            cur = total = 0
            for k, op in enumerate(plan):
                if k == die_at:
                    break
                if op == "write":
                    coll.write_one(r2, w, next(it))
                    cur += 1
                    total += 1
                else:
                    w.flush()
                    cur = n
                if cur == n:
                    os.write(wr, b"%d\n" % total)
                    cur = 0
            if how == "kill":
                os.kill(os.getpid(), signal.SIGKILL)
        except BaseException:
            os.write(wr, b"E\n")
        finally:
            os._exit(0)
    os.close(wr)
    log = b""
    while True:
        b = os.read(rd, 65536)
        if not b:
            break
        log += b
    os.close(rd)
    os.waitpid(pid, 0)
    ctx.check(b"E" not in log, "the writer failed", log=repr(log))
    flushed = int(log.split()[-1]) if log.split() else 0
    from docria.codec import MsgpackCodec
    datas = [MsgpackCodec.encode(d) for d in docs]
    raw = open(path, "rb").read() if os.path.exists(path) else b""
    if flushed:
        got, err = drain(raw, rng.randrange(3))
        ctx.check(got[:flushed] == datas[:flushed], "flushed documents did not survive the crash", flushed=flushed, survived=len(got), error=repr(err),
                  target=target, how=how, codec=codec, n=n)
        ctx.check(got == datas[:len(got)], "after a crash the collection is not a prefix of what was written")
        ctx.ev("crashes_after_flush")
    else:
        got, err = drain(raw, 0)
        ctx.check(got == datas[:len(got)], "after a crash the collection is not a prefix of what was written")
        ctx.ev("crashes_before_flush")
    ctx.ev("survivors", len(got))
    ctx.seen("crash", target, how, min(flushed, 10), min(len(docs), 10), n, codec)
    if os.path.exists(path):
        os.unlink(path)


def visible(ctx, rng):
    """After flush() returns another reader of the file finds the documents."""
    docs = coll.documents(rng, rng.choice([1, 5, 10]), big=.1)
    path = os.path.join(ctx.tmp, "v%d.docria" % rng.getrandbits(48))
    w = MsgpackDocumentWriter(path, num_docs_per_block=rng.choice([2, 3, 100]), codec=get_codec(coll.codec_name(rng, fast=True)))
    datas = []
    for d in docs:
        datas.append(coll.write_one(rng, w, d))
        if rng.random() < .4:
            w.flush()
            with MsgpackDocumentReader(path) as r:
                ctx.check([x.binary() for x in r] == datas, "flushed documents are not visible to a reader", written=len(datas))
            ctx.ev("visible_flushes")
            ctx.seen("visible", len(datas), len(docs))
    w.close()
    os.unlink(path)


SCENARIOS = [("cuts", cuts, 250, 6000), ("crash", crash, 300, 8000), ("visible", visible, 150, 4000)]
REQUIRED = {"cuts": 5000, "cuts_at_block_ends": 300, "cuts_inside": 2000, "crashes_after_flush": 60, "crashes_before_flush": 20, "survivors": 300, "many_crashes": 6,
            "visible_flushes": 100}
LEVEL = "fault_enumeration"
