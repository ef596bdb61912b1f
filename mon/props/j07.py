"""Hadoop jobs carry documents through records and files unchanged."""
import io
import zlib

import msgpack

from docria.codec import MsgpackCodec
from docria.collection import MsgpackDocumentReader

from mon import coll, java
from mon.props.j01 import run
from mon.props.j02 import documents, python_file, CODECS

RULE = ("jobs of 1 to 4 tasks and 1 to 4 threads per task write random documents in every form a record can have (document, encoded, reused record, passed on) with the output format; the files are parsed by an "
        "independent reader, read by Python and by the input format on a file system with blocks of any size, in pieces, cut short and failing; one record lives through random histories of set, take, change, "
        "write, read, Java serialization, against a model; distinct = job layouts and operations x states")
ASSUMPTIONS = ["hadoop-client is not available offline: the Java code runs on a stand-in with the same interface (java/hadoop-stubs) whose file system is in memory and splits splittable files at its blocks",
               "a record's document is the one last set or read, with the changes made to it", "a failing file only has to be reported by a reader or a writer"]
HOW = ["doc", "blob", "set doc", "set blob", "passed", "passed doc"]


def parse(ctx, raw):
    """An independent reader of the file: blocks of encoded documents."""
    ctx.check(raw[:4] == b"Dmf1", "a written file does not begin with its magic header", head=raw[:8].hex())
    u = msgpack.Unpacker(io.BytesIO(raw[4:]), raw=False)
    codec, n, advanced = next(u), next(u), next(u)
    ctx.equal((codec, advanced), ("zip", False), "header of a written file")
    return n, [list(msgpack.Unpacker(io.BytesIO(zlib.decompress(b)), raw=False)) for b in u]


def images(datas):
    return [java.nan(java.image(MsgpackCodec.decode(d))) for d in datas]


def number(img):
    return img["props"]["id"][1]


def compare(ctx, got, want, what, **kw):
    ctx.equal([number(g) for g in got], [number(w) for w in want], what + ": other documents", **kw)
    for g, w in zip(got, want):
        ctx.equal(g, w, what + ": a document changed", id=number(w), **kw)


def read_back(ctx, rng, files, want, what):
    """The input format over all files; want: per path the images."""
    form = rng.choice(["doc", "blob", "handle", "changed"])
    size = rng.choice([1 << 27, 64, 200, 1000, 5000])
    stop = None if rng.random() < .8 else rng.randrange(5)
    splits, left, opened = run(ctx, what, "hadoop", "read", files, size, rng.choice([0, 0, 1, 7, 1000]), -1, form, stop)
    ctx.equal(left, [], "a reader left files open", stopped_early=stop is not None)
    got = {p: [] for p in files}
    for s in splits:
        ctx.check(s["end"][0], "a reader failed", refused=str(s["end"][1:])[:1200])
        recs = s["records"]
        if form == "blob":
            recs = images(recs)
        got[s["path"]] += [java.nan(r) for r in recs]
        p = s["progress"]
        ctx.check(all(0 <= a <= 1 for a in p) and p == sorted(p), "the progress of a reader shrinks or leaves [0, 1]", progress=p)
        if stop is None:
            ctx.check(p[-1] == 1, "a reader that read everything is not done", progress=p[-1])
        if form == "changed":
            for k, r in enumerate(got[s["path"]][-len(recs):] if recs else []):
                ctx.equal(r["props"].pop("changed", None), ["int", k], "a change of a document taken from a record is lost when the record is passed on", id=number(r))
                ctx.ev("changed_and_passed")
    for path, imgs in want.items():
        if stop is None:
            compare(ctx, got[path], imgs, what, path=path, block_size=size, splits=sum(s["path"] == path for s in splits), form=form)
        else:
            ids = [number(g) for g in got[path]]
            ctx.check(len(ids) >= min(stop, len(imgs)) and all(g in imgs for g in got[path]), what + ": other documents", path=path)
    ctx.ev("records_read", sum(map(len, got.values())))
    ctx.ev("files_read", len(files))
    ctx.ev("small_blocks", size < 1 << 20)
    return form, size


def job(ctx, rng, large=False):
    """What the tasks of a job write is in the files, once, in order."""
    tasks, per_task = [], []
    block = rng.choice([None, 1, 100, 300, 5000] if large else [None, 1, 2, 3, 8, 1000])
    number_of = 0
    for _ in range(rng.choice([1, 2] if large else [1, 1, 2, 4])):
        threads = []
        for _ in range(rng.choice([1, 1, 2] if large else [1, 1, 1, 2, 4])):
            docs = coll.many(rng, 520) if large else documents(rng, rng.choice([0, 1, 3, 8, 20]), big=.02)
            recs = []
            for d in docs:
                d.props["id"] = number_of
                number_of += 1
                recs.append([rng.choice(HOW), MsgpackCodec.encode(d)])
            threads.append(recs)
        tasks.append(threads)
    outcomes, files, left = run(ctx, "a job failed", "hadoop", "write", block, tasks, rng.getrandbits(40), rng.choice([0, 10, 100]), -1)
    ctx.equal(sorted(files), ["/out/part-m-%05d.docria" % k for k in range(len(tasks))], "files of a job")
    ctx.equal(left, [], "a writer left files open")
    want = {}
    for k, (threads, (ok, *r)) in enumerate(zip(tasks, outcomes)):
        ctx.check(ok, "a task failed", refused=str(r)[:1200])
        failed, closed, again = r[0]
        ctx.check(not any(failed) and closed[0] and again[0], "a task failed", refused=str([failed, closed, again])[:1500], threads=len(threads))
        path = "/out/part-m-%05d.docria" % k
        n, blocks = parse(ctx, files[path])
        ctx.equal(n, block or 128, "documents per block in the header")
        ctx.check(all(len(b) == n for b in blocks[:-1]) and (not blocks or 0 < len(blocks[-1]) <= n), "a block holds another number of documents than configured", sizes=[len(b) for b in blocks], per_block=n)
        flat = [d for b in blocks for d in b]
        imgs = images(flat)
        byid = {number(i): (i, d) for i, d in zip(imgs, flat)}
        ctx.equal(sorted(number(i) for i in imgs), sorted(number(i) for recs in threads for i in images([d for _, d in recs])), "documents in the file of a task", threads=len(threads))
        order = [number(i) for i in imgs]
        place = {x: p for p, x in enumerate(order)}
        for recs in threads:
            w = images([d for _, d in recs])
            ctx.check(all(place[number(a)] < place[number(b)] for a, b in zip(w, w[1:])), "the documents of a thread are in another order", threads=len(threads))
            for (how, data), i in zip(recs, w):
                img, raw = byid[number(i)]
                ctx.equal(img, i, "a document changed on its way into the file", how=how)
                if how in ("blob", "set blob", "passed"):
                    ctx.check(raw == data, "an encoded document was not written as it is", how=how)
                ctx.ev("written_" + how.replace(" ", "_"))
        have = [d.document() for d in MsgpackDocumentReader(io.BytesIO(files[path]))]
        ctx.equal([d.props["id"] for d in have], order, "Python reads other documents from the file of a task")
        want[path] = imgs
        ctx.ev("threads", len(threads))
    form, size = read_back(ctx, rng, files, want, "what a job wrote is read differently by the next one")
    ctx.ev("jobs")
    ctx.seen(block, [[len(t) for t in x] for x in tasks], form, size)
    ctx.sample({"tasks": [[len(t) for t in x] for x in tasks], "per block": block, "read as": form, "file system block": size})


def large(ctx, rng):
    """Hundreds of records of a task, and of a block; megabytes."""
    job(ctx, rng, True)
    ctx.ev("large_jobs")


def foreign(ctx, rng):
    """Files of other writers; cut short, failing and foreign data."""
    files, want, sizes = {}, {}, {}
    kind = rng.choice(["whole", "cut", "fail", "fail", "foreign"])
    for k in range(rng.choice([1, 2, 3]) if kind == "whole" else 1):
        docs = documents(rng, rng.choice([0, 1, 5, 12]), big=.05)
        raw, blocks, codec, n = python_file(rng, docs, codec=rng.choice(CODECS))
        files["/out/f%d.docria" % k] = raw
        want["/out/f%d.docria" % k] = images([d for b in blocks for d in b])
        sizes = [len(b) for b in blocks]
    if kind == "whole":
        form, size = read_back(ctx, rng, files, want, "the input format reads a file of Python differently")
        ctx.seen(kind, len(files), form, size)
        ctx.ev("foreign_files", len(files))
        return
    path, = files
    raw = files[path]
    fail = -1
    if kind == "cut":
        files[path] = raw[:rng.randrange(len(raw))]
    elif kind == "fail":
        fail = rng.randrange(len(raw))
    else:
        files[path] = rng.choice([b"Dmf2" + raw[4:], raw[1:], rng.randbytes(40), b"Dmf1\xa3foo" + raw[9:]])
    splits, left, opened = run(ctx, "reading a damaged file", "hadoop", "read", files, 1 << 27, rng.choice([0, 5, 100]), fail, "doc", None)
    ctx.equal(left, [], "a reader that failed left its file open", kind=kind)
    s, = splits
    got = [java.nan(r) for r in s["records"]]
    if kind != "foreign":
        compare(ctx, got, want[path][:len(got)], "a damaged file is read differently")
    ends = {0}
    for x in sizes:
        ends.add(max(ends) + x)
    if kind == "cut":
        # what ends between blocks is a collection of its own
        ctx.check(not s["end"][0] or len(got) in ends and len(raw) > 10, "a file cut within a block is read as if it were whole", records=len(got), blocks=sizes, length=len(files[path]), whole=len(raw))
        if s["end"][0]:
            ctx.check(boundary_of(raw, len(files[path])), "a file cut within a block is read as if it were whole", length=len(files[path]), whole=len(raw))
    else:
        ctx.check(not s["end"][0], "a failing or foreign file is read as if it ended", kind=kind, records=len(got), at=fail, length=len(raw))
    ctx.ev("kind_" + kind)
    ctx.seen(kind, len(got), len(raw), fail)


def boundary_of(raw, n):
    """Is there an end of a block (or of the header) at n?"""
    u = msgpack.Unpacker(io.BytesIO(raw[4:]), raw=False, max_buffer_size=0)
    for _ in range(3):
        u.skip()
    ends = {4 + u.tell()}
    try:
        while True:
            u.skip()
            ends.add(4 + u.tell())
    except msgpack.OutOfData:
        return n in ends


def failing(ctx, rng):
    """A file that cannot be written is reported."""
    docs = documents(rng, rng.choice([1, 4, 10]), big=.02)
    block = rng.choice([1, 2, 8, None])
    tasks = [[[[rng.choice(HOW), MsgpackCodec.encode(d)] for d in docs]]]
    _, files, _ = run(ctx, "a job failed", "hadoop", "write", block, tasks, 1, 0, -1)
    raw = files["/out/part-m-00000.docria"]
    fail = rng.randrange(len(raw))
    outcomes, files, left = run(ctx, "a job with a failing file", "hadoop", "write", block, tasks, 1, 0, fail)
    ok, *r = outcomes[0]
    if ok:
        failed, closed, again = r[0]
        ctx.check(any(failed) or not closed[0], "a task whose file could not be written succeeded", fails_at=fail, length=len(raw))
    out = files.get("/out/part-m-00000.docria", b"")
    ctx.check(raw.startswith(out), "a file that failed holds something else than the beginning", length=len(out))
    ctx.ev("failing_files")
    ctx.seen("failing", fail, len(raw), block)


def record(ctx, rng):
    """One record through a history."""
    pool = []
    for k, d in enumerate(documents(rng, rng.choice([1, 2, 4]), big=.02)):
        for x in ("p", "q") if rng.random() < .5 else ("p",):
            d.props["one of two"] = x
            data = MsgpackCodec.encode(d)
            pool.append((data, images([data])[0]))
    cur = held = None             # images; held is None, "current" or "other"
    attached = False
    ops, want = [], []
    for step in range(rng.choice([3, 8, 20, 40])):
        choice = rng.random()
        data, img = rng.choice(pool)
        if choice < .03:
            ops.append(["new"])
            cur, attached = None, False
            want.append(None)
        elif choice < .25:
            how = rng.choice(["new doc", "new blob", "set doc", "set blob", "read", "read"])
            ops.append([how, data])
            cur, attached = img, how.endswith("doc")
            held = held or attached
            want.append(None)
        elif choice < .50:
            what = rng.choice(["document", "blob", "handle"])
            if cur is None and what == "handle":
                continue
            ops.append([what])
            want.append(cur)
        elif choice < .57:
            ops.append(["take"])
            attached = cur is not None
            held = attached
            want.append(cur is None)
        elif choice < .75:
            v = rng.randrange(1000)
            if attached and held and rng.random() < .6:
                ops.append(["change held", v])
                ctx.ev("changed_later")
            else:
                ops.append(["change", v])
            if cur is not None:
                cur = dict(cur, props=dict(cur["props"], changed=["int", v]))
            want.append(cur)
            ctx.ev("changes")
        elif choice < .9:
            replace = rng.random() < .4
            ops.append(["pass", None if rng.random() < .5 else data, rng.random() < .5, replace])
            if cur is None:
                want.append("refused")
            else:
                want.append(cur)
                if replace:
                    attached = False
        else:
            replace = rng.random() < .4
            ops.append(["serialize", replace])
            if cur is None:
                want.append("refused")
            else:
                want.append(cur)
                if replace:
                    attached = False
        ctx.seen(ops[-1][0], cur is None, attached)
    outcomes = run(ctx, "the history of a record failed", "hadoop", "writable", ops)
    for k, (op, (ok, *r), w) in enumerate(zip(ops, outcomes, want)):
        hist = [o[0] for o in ops[max(0, k - 8):k + 1]]
        if w == "refused":
            ctx.check(not ok, "a record without a document was written", history=hist)
            continue
        ctx.check(ok, "an operation on a record failed", operation=op[0], refused=str(r)[:1200], history=hist)
        ctx.equal(java.nan(r[0]), w, "a record holds another document", operation=op[0], history=hist)
        ctx.ev("record_operations")


SCENARIOS = [("large", large, 8, 300), ("job", job, 250, 8000), ("foreign", foreign, 300, 8000), ("failing", failing, 150, 4000), ("record", record, 500, 16000)]
REQUIRED = {"large_jobs": 8, "jobs": 120, "records_read": 1000, "small_blocks": 120, "changed_and_passed": 200, "foreign_files": 40, "kind_cut": 20, "kind_fail": 50, "kind_foreign": 30, "failing_files": 70,
            "record_operations": 2500, "changes": 300, "changed_later": 60, "written_doc": 200, "written_set_blob": 200, "written_passed": 200, "threads": 300}
