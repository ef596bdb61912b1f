"""Independent documents, readers and writers do not influence each other, whatever the interleaving."""
import hashlib
import importlib
import os
import sys
import threading
import time

from docria.codec import MsgpackCodec, JsonCodec, XmlCodec, MsgpackDocument
from docria.collection import (DocumentFileIndex, MsgpackDocumentIO, MsgpackDocumentReader, MsgpackDocumentWriter, build_msgpack_fileindex, get_codec)
from docria.model import Document, Node, NodeLayerSchema, DataTypes as T

from mon import coll, core, gen
from mon.props.c02 import strip_binary_props
from mon.snap import snap

RULE = ("cases of the other monitors, each with objects of its own, run side by side: on a scripted schedule that switches between them inside of docria "
        "(at function calls or lines, chosen by the seed, hence replayable) and in free running threads with the shortest switch interval; several readers and "
        "searches on one file; documents made from shared declarations; distinct = hash of the sequence of switches (scripted) or of the order of verdicts (free)")
ASSUMPTIONS = ["one object is used by one thread at a time", "printing options are global by design and not changed while others print"]

PART = {"A01": ["traverse"], "A02": ["random_case"], "A03": ["case"], "A04": ["translate"], "A05": ["case"], "C01": ["roundtrip"], "C02": ["pure", "failing", "handle"],
        "C03": ["written", "read"], "C04": ["roundtrip", "agreement"], "C05": ["gate", "typed", "writer"], "C06": ["access"], "C07": ["export"], "C08": ["documents", "handles"],
        "F01": ["roundtrip"], "F02": ["access"], "F04": ["refused", "faults", "tar"], "F05": ["access", "collections"], "F06": ["roundtrip"], "F07": ["single"],
        "L01": ["history"], "L02": ["history"], "L03": ["evolve"], "L04": ["history"], "Q01": ["query"], "Q02": ["views", "tables"], "Q03": ["selection", "types"],
        "T01": ["chains"], "T02": ["trimming"]}
HEAVY = {"L01", "L02", "Q02"}


def function(prop, scen):
    mod = importlib.import_module("mon.props." + prop.lower())
    for s, f, *_ in mod.SCENARIOS:
        if s == scen:
            return f
    return None


class Sub(core.Ctx):
    """The context of one of the cases; tells the scheduler about every verdict."""

    def __init__(self, prop, parent, k, hook):
        super().__init__(prop, "quick", parent.seed)
        self.tmp = os.path.join(parent.tmp, "s%d-%d" % (os.getpid(), next_id()))
        os.makedirs(self.tmp)
        self.k, self.hook = k, hook

    def check(self, *a, **kw):
        self.hook(self.k)
        return super().check(*a, **kw)

    def equal(self, *a, **kw):
        self.hook(self.k)
        return super().equal(*a, **kw)


_ids = [0]


def next_id():
    _ids[0] += 1
    return _ids[0]


def pick(rng, n, heavy=True):
    out = []
    base = rng.choice(sorted(PART))
    for k in range(n):
        p = base if rng.random() < .3 else rng.choice(sorted(PART))
        if not heavy:
            while p in HEAVY:
                p = rng.choice(sorted(PART))
        s = rng.choice(PART[p])
        out.append((p, s, rng.getrandbits(48)))
    return out


class Scheduler:
    """Runs functions in threads of which only one advances at a time, switched at chosen points (sys.settrace in docria code, and verdicts)."""

    def __init__(self, rng, n, p_call, p_line):
        self.rng, self.p_call, self.p_line = rng, p_call, p_line
        self.gates = [threading.Semaphore(0) for _ in range(n)]
        self.alive = list(range(n))
        self.current = None
        self.trace = hashlib.blake2b(digest_size=8)
        self.switches = 0
        self.inside = 0
        self.done = threading.Event()
        self.prefix = core.REPO_PY + "/docria/"

    def tracer(self, k):
        def local(frame, event, arg):
            if event == "line" and self.rng.random() < self.p_line:
                self.inside += 1
                self.switch(k)
            return local

        def glob(frame, event, arg):
            if event == "call" and frame.f_code.co_filename.startswith(self.prefix):
                if self.rng.random() < self.p_call:
                    self.inside += 1
                    self.switch(k)
                return local if self.p_line else None
            return None
        return glob

    def switch(self, k):
        other = self.rng.choice(self.alive)
        if other == k:
            return
        self.switches += 1
        self.trace.update(bytes([other]))
        self.gates[other].release()
        self.gates[k].acquire()

    def verdict(self, k):
        if self.rng.random() < .1:
            self.switch(k)

    def run(self, jobs):
        errors = [None] * len(jobs)

        def body(k):
            self.gates[k].acquire()
            sys.settrace(self.tracer(k))
            try:
                jobs[k]()
            except core.Violation as v:
                errors[k] = v
            except core.Inconclusive:
                pass
            except Exception as e:
                import traceback
                errors[k] = core.Violation("unexpected %s: %s" % (type(e).__name__, e), detail={"traceback": traceback.format_exc()[-3000:]})
            finally:
                sys.settrace(None)
                self.alive.remove(k)
                if self.alive:
                    self.gates[self.rng.choice(self.alive)].release()
                else:
                    self.done.set()
        ts = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(len(jobs))]
        for t in ts:
            t.start()
        self.gates[0].release()
        self.done.wait()
        for t in ts:
            t.join()
        return errors


def scripted(ctx, rng):
    jobs = pick(rng, rng.choice([2, 2, 3, 4]), heavy=False)
    p_line = rng.choice([0, 0, .002, .02])
    sched = Scheduler(core.rng_for("schedule", rng.getrandbits(64)), len(jobs), rng.choice([.01, .05, .3]), p_line)
    subs = [Sub(p, ctx, k, sched.verdict) for k, (p, s, seed) in enumerate(jobs)]
    fns = [function(p, s) for p, s, seed in jobs]
    if None in fns:
        return
    errors = sched.run([lambda k=k: fns[k](subs[k], core.rng_for(*jobs[k])) for k in range(len(jobs))])
    report(ctx, jobs, subs, errors, "on a scripted schedule")
    ctx.ev("switches", sched.switches)
    ctx.ev("switches_inside_docria", sched.inside)
    ctx.ev("scripted_cases", len(jobs))
    ctx.seen("scripted", sched.trace.hexdigest())
    ctx.sample({"cases": [j[:2] for j in jobs], "switches": sched.switches, "inside": sched.inside})


def codecs(ctx, rng):
    """Documents of their own are encoded, decoded and exported side by side, switched at almost any line of docria."""
    n = rng.choice([2, 3])
    docs = [gen.document(rng, gen.Opts(simple_names=True, max_nodes=5, max_layers=4, xml=True)) for _ in range(n)]
    for d in docs:
        strip_binary_props(d)
    want = [(snap(d), MsgpackCodec.encode(d), JsonCodec.encode(d), XmlCodec.encode_utf8string(d), repr(MsgpackDocument(MsgpackCodec.encode(d)).schema())) for d in docs]
    steps = [[rng.randrange(5) for _ in range(rng.choice([1, 2, 4]))] for _ in range(n)]
    ctx.ev("side_by_side_codecs", sum(map(len, steps)))
    sched = Scheduler(core.rng_for("lines", rng.getrandbits(64)), n, rng.choice([.05, .5]), rng.choice([.05, .2, .5]))

    def job(k):
        image, binary, js, xml, sch = want[k]
        for op in steps[k]:
            if op == 0:
                ctx.equal(snap(MsgpackCodec.decode(binary)), image, "a document decoded next to others differs")
            elif op == 1:
                ctx.check(MsgpackCodec.encode(docs[k]) == binary, "a document encoded next to others differs")
            elif op == 2:
                ctx.check(JsonCodec.encode(docs[k]) == js and XmlCodec.encode_utf8string(docs[k]) == xml, "a document exported next to others differs")
            elif op == 3:
                ctx.equal(snap(JsonCodec.decode(js)), image, "a document decoded from JSON next to others differs")
            else:
                h = MsgpackDocument(binary)
                ctx.check(repr(h.schema()) == sch, "a schema read next to others differs")
                ctx.equal(snap(h.document()), image, "a document read through its handle next to others differs")
    errors = sched.run([lambda k=k: job(k) for k in range(n)])
    ctx.ev("switches", sched.switches)
    ctx.ev("switches_inside_docria", sched.inside)
    ctx.seen("codecs", sched.trace.hexdigest())
    for e in errors:
        if e is not None:
            raise e


def printing(ctx, rng):
    """Documents of their own are printed side by side, under one setting of the options."""
    from mon.props.p01 import limits
    n = rng.choice([2, 3])
    docs = [gen.document(rng, gen.Opts(max_nodes=12, max_layers=3)) for _ in range(n)]
    things = []
    for d in docs:
        objs = [d] + [x for l in d.layers.values() for x in [l, l.to_list()] + list(l)[:2] + [l[f] for f in list(l.schema.fields)[:2]]]
        objs += [t for t in d.texts.values()]
        things.append(rng.sample(objs, min(len(objs), rng.choice([1, 2, 4]))))
    ways = [str, repr, lambda o: o._repr_html_() if hasattr(o, "_repr_html_") else str(o)]
    steps = [[(rng.choice(objs), rng.choice(ways)) for _ in range(rng.choice([1, 2, 4]))] for objs in things]
    sched = Scheduler(core.rng_for("printing", rng.getrandbits(64)), n, rng.choice([.05, .5]), rng.choice([.02, .1]))
    with limits(max_rows=rng.choice([None, 2, 100]), max_column_width=rng.choice([None, 9, 30]), max_display_width=rng.choice([None, 30, 120])):
        want = [[way(o) for o, way in ss] for ss in steps]

        def job(k):
            for (o, way), w in zip(steps[k], want[k]):
                ctx.check(way(o) == w, "an object printed next to others prints differently", kind=type(o).__name__)
        errors = sched.run([lambda k=k: job(k) for k in range(n)])
    ctx.ev("prints_side_by_side", sum(map(len, steps)))
    ctx.ev("switches", sched.switches)
    ctx.seen("printing", sched.trace.hexdigest())
    for e in errors:
        if e is not None:
            raise e


def report(ctx, jobs, subs, errors, how):
    import shutil
    for s in subs:
        ctx.ev("verdicts", s.events["verdicts"])
        shutil.rmtree(s.tmp, ignore_errors=True)
    for j, e in zip(jobs, errors):
        if e is not None:
            # is it the company, or does the case fail alone?
            alone = Sub(j[0], ctx, 0, lambda k: None)
            try:
                function(j[0], j[1])(alone, core.rng_for(*j))
                solo = "holds alone"
            except Exception as x:
                solo = "fails alone, too: %s" % x
            ctx.check(False, "%s/%s %s: %s" % (j[0], j[1], how, e), alone=solo, cases=[list(x) for x in jobs], cause=e.detail)


def free(ctx, rng):
    n = rng.choice([3, 4, 6])
    jobs = [pick(rng, 3) for _ in range(n)]
    order = []
    subs = [[Sub(p, ctx, k, order.append) for p, s, seed in js] for k, js in enumerate(jobs)]
    errors = [[None] * 3 for _ in range(n)]
    start = threading.Barrier(n)

    def body(k):
        start.wait()
        for m, (p, s, seed) in enumerate(jobs[k]):
            try:
                function(p, s)(subs[k][m], core.rng_for(p, s, seed))
            except core.Violation as v:
                errors[k][m] = v
            except core.Inconclusive:
                pass
            except Exception as e:
                import traceback
                errors[k][m] = core.Violation("unexpected %s: %s" % (type(e).__name__, e), detail={"traceback": traceback.format_exc()[-3000:]})
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    alternations = sum(1 for a, b in zip(order, order[1:]) if a != b)
    ctx.ev("alternations_of_free_threads", alternations)
    ctx.ev("free_cases", 3 * n)
    ctx.seen("free", hashlib.blake2b(bytes(order), digest_size=8).hexdigest())
    report(ctx, [j for js in jobs for j in js], [s for ss in subs for s in ss], [e for es in errors for e in es], "in free running threads")


def same_file(ctx, rng):
    """Readers and searches of their own on one file, interleaved step by step in one thread."""
    docs = coll.documents(rng, rng.choice([3, 8, 20]), big=0)
    for d in docs:
        d.props["k"] = rng.randrange(3)
    raw, datas, blocks, codec, per = coll.build(rng, docs)
    path = os.path.join(ctx.tmp, "same%x.docria" % rng.getrandbits(60))
    with open(path, "wb") as f:
        f.write(raw)
    index = build_msgpack_fileindex(path, "k")
    refs = list(map(tuple, index.docrefs))

    def sequential():
        with MsgpackDocumentReader(path) as r:
            for k, d in enumerate(r):
                yield (k, d.binary())

    def by_block():
        with MsgpackDocumentIO.read(path) as r:
            k = 0
            for b in r.blocks():
                for d in b:
                    yield (k, d.binary())
                    k += 1

    def random_access():
        with MsgpackDocumentReader(path) as r:
            for _ in range(12):
                k = rng.randrange(len(docs))
                yield (k, r.get(refs[k]).binary())

    def search():
        v = rng.randrange(3)
        lazy = rng.random() < .5
        ks = [k for k, d in enumerate(docs) if d.props["k"] == v]
        for k, d in zip(ks, index.search({"k": v}, lazy=lazy)):
            yield (k, d.binary() if lazy else MsgpackCodec.encode(d))

    def rewrite():
        with MsgpackDocumentReader(path) as r:
            m = coll.KeepBytes()
            with MsgpackDocumentWriter(m, num_docs_per_block=2, codec=get_codec("none")) as w:
                for k, d in enumerate(r):
                    w.write(d)
                    yield (k, d.binary())
        import io
        ctx.check([d.binary() for d in MsgpackDocumentReader(io.BytesIO(m.kept))] == datas, "a copy of a collection made among other readers differs")

    makers = [rng.choice([sequential, by_block, random_access, search, rewrite]) for _ in range(rng.choice([2, 3, 5]))]
    running = [(m.__name__, m()) for m in makers]
    trace = []
    while running:
        pos = rng.randrange(len(running))
        name, g = running[pos]
        x = next(g, None)
        trace.append(pos)
        if x is None:
            running.pop(pos)
            continue
        ctx.check(x[1] == datas[x[0]], "a reader among others gave another document", reader=name, readers=[m.__name__ for m in makers], document=x[0])
        ctx.ev("interleaved_reads")
    os.unlink(path)
    ctx.seen("file", tuple(trace))


def declarations(ctx, rng):
    """Documents built from shared declarations, types and values each say what was said to them."""
    layers = ["a", "b"]
    fields = {l: {} for l in layers}
    schemas = {}
    made_with = {}
    kinds = [T.string, T.string(None), T.string("d"), T.int32, T.int64(5), T.bool, T.bool(None), T.float64(None), T.binary, T.noderef("a"), T.noderef_many("b"), T.nodespan("a"),
             T.span()]
    for l in layers:
        schemas[l] = NodeLayerSchema(l)
        for f in rng.sample(["p", "q", "r", "s"], rng.randint(0, 4)):
            dt = rng.choice(kinds)
            schemas[l].add(f, dt)
            fields[l][f] = dt() if callable(dt) else dt
    n = rng.choice([2, 3, 4])
    docs, want = [], []
    for k in range(n):
        d = Document()
        d.maintext = "text %d of several" % k
        for l in layers:
            d.add_layer(schemas[l] if rng.random() < .8 else clone(schemas[l]))
        docs.append(d)
        want.append({l: dict(fields[l]) for l in layers})
    log = []
    for _ in range(rng.choice([3, 6, 12])):
        k = rng.randrange(n)
        l = rng.choice(layers)
        op = rng.randrange(5)
        layer = docs[k][l]
        if op == 0 and want[k][l]:
            f = rng.choice(sorted(want[k][l]))
            layer.remove_field(f)
            del want[k][l][f]
            log.append((k, "remove_field", l, f))
        elif op == 1:
            f = "n%d" % rng.randrange(4)
            if f not in want[k][l]:
                dt = rng.choice(kinds)
                layer.add_field(f, dt)
                want[k][l][f] = dt() if callable(dt) else dt
                log.append((k, "add_field", l, f))
        elif op == 2:
            gen.fill(rng, docs[k])
            gen.repair(docs[k])
            log.append((k, "fill"))
        elif op == 3:
            layer.add_many([Node() for _ in range(rng.randint(0, 4))])
            log.append((k, "add_many", l))
        else:
            gen.history(rng, docs[k])
            gen.repair(docs[k])
            log.append((k, "history"))
        for j in range(n):
            for m in layers:
                ctx.check(docs[j][m].schema.fields == want[j][m], "a document changed the fields of another", log=log, document=j, layer=m)
        images = [snap(d) for d in docs]
        datas = []
        for j, d in enumerate(docs):
            datas.append(MsgpackCodec.encode(d))
            ctx.equal([snap(x) for x in docs], images, "encoding one document changed another", log=log)
        for j, b in enumerate(datas):
            back = MsgpackCodec.decode(b)
            ctx.equal(snap(back)["texts"], images[j]["texts"], "a document came back with the text of another", log=log)
            ctx.equal({m: len(back[m]) for m in layers}, {m: images[j]["layers"][m]["len"] for m in layers}, "nodes of a document came back in another", log=log)
        ctx.ev("shared_declaration_steps")
    ctx.seen("declared", tuple(x[1] for x in log), n)


def clone(s):
    c = NodeLayerSchema(s.name)
    for f, t in s.fields.items():
        c.add(f, t)
    return c


SCENARIOS = [("scripted", scripted, 350, 12000), ("codecs", codecs, 250, 12000), ("printing", printing, 250, 8000), ("free", free, 40, 1200), ("same_file", same_file, 150, 5000), ("declarations", declarations, 200, 8000)]
REQUIRED = {"prints_side_by_side": 300, "side_by_side_codecs": 300, "switches": 5000, "switches_inside_docria": 3000, "scripted_cases": 400, "alternations_of_free_threads": 300, "free_cases": 100, "interleaved_reads": 2000,
            "shared_declaration_steps": 500}
