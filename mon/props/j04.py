"""Concurrent readers of one Java collection get every block exactly once."""
from mon import coll, java
from mon.props.j01 import run
from mon.props.j02 import documents, image_of, python_file, CODECS

RULE = ("random collections read by 2 to 8 threads that share one reader, take (or skip) block after block and read the documents of their blocks while the others go on; the threads are delayed at random "
        "at every access to the file and between documents; what all threads got together is compared with the blocks of the file; distinct = order in which the threads were served")
ASSUMPTIONS = ["nextBlock() is the operation declared safe for concurrent use; skipBlock() takes the same lock", "thread schedules are sampled by injected delays, not enumerated"]


def frozen(x):
    if isinstance(x, dict):
        return tuple(sorted((k, frozen(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return tuple(frozen(v) for v in x)
    return type(x).__name__, x


def threads(ctx, rng, many=False):
    docs = coll.many(rng, 1025) if many else documents(rng, rng.choice([0, 1, 5, 12, 25, 40]))
    boundary = rng.choice([None, None, 12, 13])
    raw, blocks, codec, n = python_file(rng, docs, boundary, codec=rng.choice(CODECS), n=coll.many_per_block(rng) if many else None)
    kind = rng.choice(["doc", "handle", "handle"])
    count = rng.choice([2, 3, 4, 8])
    skipping = rng.choice([0, 0, 0, 1, 2])
    got, failed, waits, order = run(ctx, "concurrent reading failed", "threads", kind, raw, boundary is not None, count, rng.getrandbits(40), rng.choice([0, 5] if many else [0, 5, 30, 200]), min(skipping, count))
    ctx.check(not any(failed), "a thread failed", failures=str([f for f in failed if f])[:1500], blocks=[len(b) for b in blocks])
    conv = (lambda b: [image_of(d) for d in b]) if kind == "doc" else list
    want = [conv(b) for b in blocks]
    index = {frozen(b): k for k, b in enumerate(want)}
    ctx.check(len(index) == len(want), "blocks are not told apart")
    taken, skipped = [], 0
    for thread, parts in enumerate(got):
        last = -1
        for part in parts:
            if part == "skipped":
                skipped += 1
                continue
            if kind == "doc":
                part = java.nan(part)
            k = index.get(frozen(part))
            ctx.check(k is not None, "a thread got documents that are not those of one block", thread=thread, documents=len(part), blocks=[len(b) for b in blocks], threads=count)
            ctx.check(k > last, "a thread got blocks in another order than that of the file", thread=thread, block=k, after=last)
            last = k
            taken.append(k)
    ctx.check(len(set(taken)) == len(taken), "a block was given more than once", taken=sorted(taken), threads=count)
    ctx.check(len(taken) + skipped == len(blocks), "blocks are lost", taken=sorted(taken), skipped=skipped, blocks=len(blocks), threads=count)
    ctx.ev("blocks", len(taken))
    if many:
        ctx.ev("many_blocks", len(blocks))
        ctx.ev("many_documents", len(docs))
    ctx.ev("skipped", skipped)
    ctx.ev("delays", waits)
    ctx.ev("runs_with_several_active_threads", sum(1 for p in got if p) > 1)
    ctx.ev("switches", sum(1 for a, b in zip(order, order[1:]) if a != b))
    ctx.seen(order)
    ctx.sample({"blocks": len(blocks), "threads": count, "order": order[:60]})


def many(ctx, rng):
    """Hundreds of blocks, or of documents in a block, and several MiB."""
    threads(ctx, rng, True)


SCENARIOS = [("many", many, 12, 400), ("threads", threads, 350, 12000)]
REQUIRED = {"many_documents": 2000, "many_blocks": 300, "blocks": 680, "delays": 200, "runs_with_several_active_threads": 70, "switches": 260, "skipped": 20}
