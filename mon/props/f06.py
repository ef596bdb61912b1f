"""Tar archives give back exactly the documents written to them, in order, and are ordinary archives."""
import io
import os
import tarfile

from docria.codec import MsgpackCodec, MsgpackDocument
from docria.model import Document
from docria.collection import TarMsgpackReader, TarMsgpackWriter

from mon import coll, corrupt, gen
from mon.snap import snap

RULE = ("random document sequences in all compression modes, with and without root directory and naming pattern, read back by the library and by "
        "the tarfile module (foreign archives with directories and links in between are read, too); distinct = mode x naming x number of documents")
ASSUMPTIONS = ["naming patterns hold one integer field, wide enough to keep names distinct"]

MODES = ["", "gz", "bz2", "xz"]


def corrupted(rng):
    doc = gen.document(rng, gen.Opts(max_layers=2, max_nodes=5, history=False))
    return doc if corrupt.plant(rng, doc) is not None else 1


def roundtrip(ctx, rng):
    comp = rng.choice(MODES)
    sep = rng.choice(["|", ":"])
    path = os.path.join(ctx.tmp, "t%d.tar" % rng.getrandbits(48))
    docs = coll.documents(rng, rng.choice([0, 1, 2, 5, 12]))
    if rng.random() < .04:
        many = rng.choice([99, 100, 101, 130, 257] + ([1001, 10001] if ctx.thorough else []))
        docs = [Document(i=k) for k in range(many)]
    kw = {}
    if rng.random() < .5:
        kw["rootdir"] = rng.choice(["root", "a/b", "ünï"])
    if rng.random() < .5:
        kw["docformat"] = rng.choice(["%d.msgpack", "x%03d", "doc-%08d.dm", ".d%d", "%d", "-%d", "sp ace %d", "\u00e5%d", "~%d", "_%d.msgpack", "#%d#", "%d.tar", "d%x", "%d.json"])
    default = rng.random() < .2
    if not default:
        kw["mode"] = "w" + sep + comp
    else:
        comp = "gz"
    datas = []
    snaps = []
    managed = rng.random() < .5

    def body():
        for d in docs:
            if rng.random() < .1:
                bad = rng.choice([lambda: b"DM_1", lambda: None, lambda: "x", lambda: corrupted(rng)])()
                if bad is not None or rng.random() < .5:
                    ctx.rejects(lambda: w.write(bad), "something that cannot be written was accepted")
                    ctx.ev("refused")
            datas.append(coll.write_one(rng, w, d))
            snaps.append(snap(d))
    w = TarMsgpackWriter(path, **kw)
    if managed:
        with w:
            body()
    else:
        body()
        w.close()
    rkw = {} if default else {"mode": "r" + rng.choice(["|", ":"]) + comp}
    if rng.random() < .5:
        with TarMsgpackReader(path, **rkw) as r:
            got = list(r)
    else:
        r = TarMsgpackReader(path, **rkw)
        got = [d for d in r]
        r.close()
    ctx.check([d.binary() for d in got] == datas, "documents of the archive differ", mode=kw.get("mode"), got=len(got), want=len(datas))
    for k, g in enumerate(got):
        if rng.random() < .4:
            ctx.equal(snap(g.document()), snaps[k], "document differs", position=k)
    with tarfile.open(path, mode="r:*") as t:
        members = t.getmembers()
        files = [m for m in members if m.isfile()]
        fmt = kw.get("docformat", "doc%05d.msgpack")
        root = kw.get("rootdir")
        ctx.equal([m.name for m in files], [(root + "/" if root else "") + fmt % k for k in range(len(docs))], "names in the archive differ")
        ctx.equal([m.name for m in members if m.isdir()], [root] if root else [], "directories in the archive differ")
        ctx.check([t.extractfile(m).read() for m in files] == datas, "files in the archive differ from the documents")
        for m in files[:3]:
            ctx.equal(snap(MsgpackCodec.decode(t.extractfile(m).read())), snaps[files.index(m)], "a file of the archive is not the document")
    ctx.ev("archives_" + (comp or "plain"))
    ctx.ev("documents", len(datas))
    ctx.seen(comp, sep, kw.get("rootdir"), kw.get("docformat"), len(docs), default)
    ctx.sample({"options": kw, "documents": len(docs)})
    os.unlink(path)


def foreign(ctx, rng):
    """An archive made by someone else, with directories and symbolic links between the documents."""
    path = os.path.join(ctx.tmp, "f%d.tar" % rng.getrandbits(48))
    datas = []
    with tarfile.open(path, "w") as t:
        for d in coll.documents(rng, rng.randint(0, 6), big=0):
            for _ in range(rng.choice([0, 0, 1, 2])):
                ti = tarfile.TarInfo("d%d" % rng.getrandbits(20))
                ti.type = rng.choice([tarfile.DIRTYPE, tarfile.SYMTYPE])
                ti.linkname = "elsewhere"
                t.addfile(ti)
            data = MsgpackCodec.encode(d)
            ti = tarfile.TarInfo("n%d" % rng.getrandbits(20))
            ti.size = len(data)
            t.addfile(ti, io.BytesIO(data))
            datas.append(data)
        if rng.random() < .5:
            ti = tarfile.TarInfo("last")
            ti.type = tarfile.DIRTYPE
            t.addfile(ti)
    with TarMsgpackReader(path, mode=rng.choice(["r|", "r:", "r:*"])) as r:
        ctx.check([d.binary() for d in r] == datas, "documents of a foreign archive differ")
    ctx.ev("foreign_archives")
    ctx.seen("foreign", len(datas))
    os.unlink(path)


SCENARIOS = [("roundtrip", roundtrip, 400, 15000), ("foreign", foreign, 100, 4000)]
REQUIRED = {"refused": 50, "archives_plain": 30, "archives_gz": 40, "archives_bz2": 30, "archives_xz": 40, "documents": 800, "foreign_archives": 50}
