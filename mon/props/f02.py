"""Random access into a collection finds the same documents as reading it from the start, in any order and mixture."""
import io
import os

from docria.collection import MsgpackDocumentReader

from mon import coll

RULE = ("random collections; random histories of one reader that mixes get by reference, seek to a block, block reads, block iteration and "
        "document iteration, against the sequence of (reference, document) of a plain sequential read; distinct = operation x (relation of the "
        "position to the one before) x block layout")
ASSUMPTIONS = ["references come from the same file", "the underlying file can seek"]


def access(ctx, rng):
    if rng.random() < .03:
        docs = coll.many(rng, 1025)
        raw, datas, blocks, codec, n = coll.build(rng, docs, codec=rng.choice(["none", "zip", "zstd"]), n=coll.many_per_block(rng), flushes=rng.choice([0, 0, .01]))
        ctx.ev("many_documents", len(docs))
        ctx.ev("far_documents", len(docs) if len(raw) > 1 << 22 else 0)
    else:
        docs = coll.documents(rng, rng.choice([1, 2, 5, 9, 16, 30]))
        raw, datas, blocks, codec, n = coll.build(rng, docs, codec=coll.codec_name(rng, fast=True), n=rng.choice([1, 2, 3, 4, 7, 16]))
    path = None
    if rng.random() < .4:
        path = os.path.join(ctx.tmp, "a%d.docria" % rng.getrandbits(48))
        with open(path, "wb") as f:
            f.write(raw)

    def reader():
        return MsgpackDocumentReader(path if path else io.BytesIO(raw))

    r = reader()
    seq = [(d.ref, d.binary()) for d in r]
    r.close()
    ctx.equal([b for _, b in seq], datas, "sequential read")
    refs = [ref for ref, _ in seq]
    ctx.check(len(set(refs)) == len(refs) and refs == sorted(refs), "references are not unique and increasing", refs=refs)
    # layout: block k holds documents starts[k] .. starts[k] + blocks[k]
    starts, pos = [], 0
    for b in blocks:
        starts.append(pos)
        pos += b
    blockpos = [refs[s][0] for s in starts]
    which = [k for k, b in enumerate(blocks) for _ in range(b)]
    ctx.check(all(refs[k][0] == blockpos[which[k]] for k in range(len(refs))), "documents of one block have different block positions", refs=refs,
              blocks=blocks)
    ctx.check(len(set(blockpos)) == len(blocks), "blocks share a position")
    r = reader()
    nextblock = 0                 # the block readblock() will give
    cur = None                    # document the iteration will give next within the open block, or None
    curblock = None
    trace = []
    for _ in range(rng.choice([5, 15, 40])):
        op = rng.choice(["get", "get", "get", "next", "next", "seek", "readblock", "blocks", "block_random", "fresh_get"])
        if op == "get":
            k = rng.choice([rng.randrange(len(refs)), rng.randrange(len(refs)), 0, len(refs) - 1])
            rel = None if curblock is None else which[k] - curblock
            m = r.get(refs[k])
            ctx.check(m.binary() == datas[k] and m.ref == refs[k], "get by reference gave another document", trace=trace, wanted=k, got=m.ref)
            if curblock != which[k]:
                nextblock = which[k] + 1
            curblock, cur = which[k], k + 1
        elif op == "next":
            m = next(r, None)
            if curblock is not None and cur < starts[curblock] + blocks[curblock]:
                k = cur
            elif nextblock < len(blocks):
                k = starts[nextblock]
                curblock = nextblock
                nextblock += 1
            else:
                k = None
                curblock = None
            if k is None:
                ctx.check(m is None, "the reader went on after the last document", trace=trace)
                curblock = cur = None
                ctx.ev("ends_reached")
            else:
                ctx.check(m is not None and m.binary() == datas[k], "the iteration gave another document", trace=trace, wanted=k,
                          got=None if m is None else m.ref)
                ctx.check(m.ref == refs[k], "the iteration gave a document a wrong reference", trace=trace, wanted=refs[k], got=m.ref)
                cur = k + 1
            rel = None
        elif op == "seek":
            b = rng.randrange(len(blocks))
            r.seek(blockpos[b])
            curblock, cur, nextblock = None, None, b
            rel = None
        elif op in ("readblock", "block_random"):
            blk = r.readblock()
            rel = nextblock
            if nextblock >= len(blocks):
                ctx.check(blk is None, "a block after the last block", trace=trace)
            else:
                b = nextblock
                nextblock += 1
                ctx.check(blk is not None and blk.position == blockpos[b], "block position differs", trace=trace)
                if op == "readblock":
                    got = [(m.ref, m.binary()) for m in blk]
                    ctx.check(got == seq[starts[b]:starts[b] + blocks[b]], "block holds other documents", trace=trace)
                else:
                    for _ in range(4):
                        k = starts[b] + rng.randrange(blocks[b])
                        blk.seek(refs[k][1])
                        ctx.check(blk.tell() == refs[k][1], "position within a block", trace=trace)
                        for j in range(k, min(k + rng.choice([1, 1, 3]), starts[b] + blocks[b])):
                            m = next(blk)
                            ctx.check(m.binary() == datas[j] and m.ref == refs[j], "seeking within a block gave another document", trace=trace,
                                      got=m.ref, want=refs[j])
                    for _ in range(rng.choice([0, 0, 1, 3])):
                        next(blk, None)
                    ds = blk.documents()
                    ctx.check([(p, m.ref, m.binary()) for p, m in ds] == [(ref[1], ref, d) for ref, d in seq[starts[b]:starts[b] + blocks[b]]],
                              "documents() of a block differ", trace=trace)
                    ctx.ev("block_seeks", 4)
        elif op == "blocks":
            lim = rng.choice([1, 2, 100, 100000])
            rel = lim
            got = []
            for blk in r.blocks():
                got.append(blk)
                if len(got) == lim:
                    break
            want = blockpos[nextblock:nextblock + lim]
            ctx.equal([b.position for b in got], want, "blocks() gave other blocks", trace=trace)
            nextblock = min(len(blocks), nextblock + lim) if want else nextblock
        else:
            k = rng.randrange(len(refs))
            with reader() as q:
                ctx.check(q.get(refs[k]).binary() == datas[k], "get on a fresh reader", wanted=k)
            rel = None
        trace.append((op, rel))
        ctx.ev("op_" + op)
        ctx.seen(op, rel, len(blocks), n)
    # every reference once more, shuffled, through one reader
    q = reader()
    for k in rng.sample(range(len(refs)), min(len(refs), 60)):
        ctx.check(q.get(refs[k]).binary() == datas[k], "get by reference in random order", wanted=k)
        ctx.ev("gets")
    q.close()
    r.close()
    ctx.sample({"blocks": blocks, "refs": refs[:6], "trace": trace[:8]})
    if path:
        os.unlink(path)


SCENARIOS = [("access", access, 700, 30000)]
REQUIRED = dict({"op_" + o: 200 for o in ["get", "next", "seek", "readblock", "blocks", "block_random", "fresh_get"]}, gets=3000, ends_reached=50, block_seeks=500, many_documents=2500, far_documents=100)
