"""Refused documents and failing storage never lose, duplicate, reorder or corrupt the other documents of a collection."""
import errno
import io

from docria.codec import MsgpackCodec, MsgpackDocument
from docria.collection import MsgpackDocumentWriter, MsgpackDocumentReader, TarMsgpackWriter, TarMsgpackReader, get_codec

from mon import coll, corrupt, gen
from mon.props.f03 import drain

RULE = ("random writers whose documents are invalid at random places, and whose storage fails (no byte, or part of the bytes written) at the k-th "
        "write or flush, once or from then on; distinct = fault kind x position x block size x number of documents")
ASSUMPTIONS = ["a write that fails part-way leaves the bytes it has written, and the writer is given up then"]


class Faulty(io.BytesIO):
    def __init__(self, at, kind, permanent, op):
        super().__init__()
        self.at, self.kind, self.permanent, self.op = at, kind, permanent, op
        self.count = 0
        self.fired = 0
        self.kept = None

    def hit(self):
        self.count += 1
        if self.count == self.at or (self.permanent and self.count > self.at):
            self.fired += 1
            return True
        return False

    def write(self, data):
        if self.op == "write" and self.hit():
            if self.kind == "partial":
                super().write(bytes(data)[:len(data) // 2])
            raise OSError(errno.ENOSPC, "No space left on device")
        return super().write(data)

    def flush(self):
        if self.op == "flush" and self.hit():
            raise OSError(errno.EIO, "I/O error")
        return super().flush()

    def close(self):
        if not self.closed:
            self.kept = self.getvalue()
        super().close()


def refused(ctx, rng):
    n = rng.choice([1, 2, 3, 8, 8, 150])
    f = coll.KeepBytes()
    w = MsgpackDocumentWriter(f, num_docs_per_block=n, codec=get_codec(coll.codec_name(rng, fast=True)))
    datas = []
    pattern = ""
    for k in range(rng.choice([3, 8, 16]) if rng.random() < .97 else 400):
        if rng.random() < .4:
            bad = invalid(rng)
            ctx.rejects(lambda: w.write(bad), "an invalid document was written")
            pattern += "x"
            ctx.ev("refused_documents")
        else:
            datas.append(coll.write_one(rng, w, coll.documents(rng, 1)[0]))
            pattern += "w"
        if rng.random() < .1:
            w.flush()
            pattern += "f"
    w.close()
    ctx.check([d.binary() for d in MsgpackDocumentReader(io.BytesIO(f.kept))] == datas, "refused documents disturbed the others", pattern=pattern)
    ctx.seen("refused", pattern, n)
    ctx.sample({"pattern": pattern, "docs_per_block": n})


def invalid(rng):
    r = rng.random()
    if r < .5:
        d = gen.document(rng, gen.Opts(max_layers=3, max_nodes=6))
        layer = d.add_layer("bad layer", v=gen.T.int32(None))
        layer.add(v=1)["v"] = rng.choice(["x", 1 << 70, None, 1.5])
        return d
    if r < .8:
        d = gen.document(rng, gen.Opts(max_layers=2, max_nodes=4))
        d.props["bad"] = object()
        return d
    return rng.choice([None, 42, b"bytes", "text", {}])


def faults(ctx, rng):
    n = rng.choice([1, 2, 3, 5])
    docs = coll.documents(rng, rng.choice([2, 6, 12]), big=0)
    op = rng.choice(["write", "write", "flush"])
    kind = rng.choice(["nothing", "partial"]) if op == "write" else "nothing"
    permanent = rng.random() < .4
    at = rng.randint(1, 4 + len(docs) // n + 1) if op == "write" else rng.randint(1, len(docs) // n + 1)
    f = Faulty(at, kind, permanent, op)
    datas, failures = [], 0
    try:
        w = MsgpackDocumentWriter(f, num_docs_per_block=n, codec=get_codec(coll.codec_name(rng, fast=True)))
    except OSError:
        ctx.ev("faults_in_header")
        return
    accepted = []
    whole = None
    for d in docs:
        data = MsgpackCodec.encode(d)
        datas.append(data)
        try:
            w.write(MsgpackDocument(data))
        except OSError:
            failures += 1
            if whole is None:
                whole = (len(datas) - 1) // n * n
            if permanent or kind == "partial":
                break
    if whole is None:
        whole = len(datas) // n * n
    for _ in range(0 if kind == "partial" and failures else 3):
        try:
            w.close()
            break
        except OSError:
            failures += 1
            if kind == "partial":
                break
    ctx.check(failures > 0 or f.fired == 0, "the failure of the storage was not reported", fired=f.fired)
    raw = f.kept if f.kept is not None else f.getvalue()
    got, err = drain(raw, rng.randrange(3))
    ctx.check(got == datas[:len(got)], "after a storage failure the collection is not a prefix of the written documents", fault=(op, kind, at, permanent), got_documents=len(got),
              written=len(datas))
    ctx.check(len(got) >= whole, "documents of complete blocks were lost", fault=(op, kind, at, permanent), got_documents=len(got), in_complete_blocks=whole)
    ctx.ev("documents_of_complete_blocks", whole)
    if f.fired and not permanent and kind == "nothing":
        ctx.check(got == datas, "documents were lost although the storage recovered and the writer was closed", fault=(op, kind, at), got_documents=len(got), written=len(datas))
        ctx.ev("recovered")
    if not f.fired:
        ctx.check(got == datas, "documents differ without any fault")
    else:
        ctx.ev("faults_%s_%s" % (op, "permanent" if permanent else kind))
    ctx.seen("fault", op, kind, permanent, at, n, len(docs))


def tar(ctx, rng):
    """The same for tar archives."""
    import os
    path = os.path.join(ctx.tmp, "t%d.tar" % rng.getrandbits(40))
    w = TarMsgpackWriter(path, mode="w|")
    datas, pattern = [], ""
    for k in range(rng.choice([3, 8])):
        if rng.random() < .4:
            ctx.rejects(lambda: w.write(invalid(rng)), "an invalid document was written to an archive")
            pattern += "x"
            ctx.ev("refused_in_archives")
        else:
            datas.append(coll.write_one(rng, w, coll.documents(rng, 1)[0]))
            pattern += "w"
    w.close()
    r = TarMsgpackReader(path, mode="r|")
    ctx.check([d.binary() for d in r] == datas, "refused documents disturbed the others in an archive", pattern=pattern)
    r.close()
    os.unlink(path)
    ctx.seen("tar", pattern)


SCENARIOS = [("refused", refused, 400, 15000), ("faults", faults, 1500, 60000), ("tar", tar, 100, 3000)]
REQUIRED = {"refused_documents": 500, "faults_write_permanent": 50, "faults_write_nothing": 50, "faults_write_partial": 50, "faults_flush_nothing": 50,
            "faults_flush_permanent": 30, "recovered": 100, "refused_in_archives": 50}
LEVEL = "fault_enumeration"
