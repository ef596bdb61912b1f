"""Pickle and copy transport whole documents and document handles."""
import copy
import os
import pickle
from io import BytesIO

from docria.codec import MsgpackCodec, MsgpackDocument
from docria.model import Document

from mon import gen
from mon.snap import snap
from mon.props.c01 import structure, observe

RULE = "random documents and handles pickled with every protocol, deep copied, inside containers, repeatedly; distinct = document shapes"
ASSUMPTIONS = ["properties are MessagePack-representable", "the document is valid (an invalid document is refused by pickle, see C05)"]


def change(rng, doc):
    """A small change that keeps the document valid; returns what was changed, or None."""
    kind = rng.choice(["value", "value", "unset", "props", "nested props", "node", "remove", "field", "sort"])
    layers = list(doc.layers.values())
    if kind == "props":
        doc.props["changed%d" % rng.randrange(5)] = gen.rprop(rng)
        return kind
    if kind == "nested props":
        for v in doc.props.values():
            if isinstance(v, dict):
                v["nested"] = gen.rprop(rng)
                return kind
            if isinstance(v, list):
                v.append(gen.rprop(rng))
                return kind
        return None
    cells = [(n, f, t) for l in layers for n in l for f, t in l.schema.fields.items() if t.typename.name in ("I32", "I64", "F64", "BOOL", "STRING", "BINARY")]
    if kind in ("value", "unset"):
        if not cells:
            return None
        n, f, t = rng.choice(cells)
        if kind == "unset":
            n.pop(f, None)
        else:
            n[f] = gen.rvalue(rng, t, doc)
        return kind
    if not layers:
        return None
    l = rng.choice(layers)
    if kind == "node":
        l.add()
    elif kind == "remove":
        if not len(l):
            return None
        l.remove(l.first())
        gen.repair(doc)
    elif kind == "field":
        used = set(l.schema.fields)
        l.add_field(gen.rname(rng, used, simple=True), gen.rtype(rng, rng.choice(["i32", "str", "bool"]), {}, []))
    else:
        order = {id(n): rng.random() for n in l}
        l.sort(lambda n: order[id(n)])
        gen.repair(doc)
    return kind


def repeated(ctx, rng):
    """Pickle, change a little, pickle again: each pickle says what the document said at its time; loading twice gives independent documents."""
    doc = gen.document(rng, gen.Opts(max_nodes=10))
    proto = rng.randint(0, pickle.HIGHEST_PROTOCOL)
    taken = []
    done = []
    for _ in range(rng.randint(2, 6)):
        if rng.random() < .75:
            data = pickle.dumps(doc, protocol=proto)
            taken.append((lambda data=data: pickle.loads(data), snap(doc)))
        else:
            taken.append((lambda d=copy.deepcopy(doc): d, snap(doc)))
        what = change(rng, doc)
        done.append(what)
        ctx.ev("changed_" + str(what).replace(" ", "_"))
    for load, want in taken:
        a = load()
        ctx.equal(snap(a), want, "a pickle does not say what the document said when it was taken", changes=done)
        b = load()
        structure(ctx, b, "unpickled document")
        if a is not b:
            for _ in range(rng.randint(1, 3)):
                change(rng, a)
            for v in a.props.values():
                if isinstance(v, dict):
                    v["only here"] = 1
                elif isinstance(v, list):
                    v.append("only here")
            a.props["only here"] = 1
            for t in list(a.texts):
                if rng.random() < .3:
                    a.add_text(t + "x", "more")
            for l in a.layers.values():
                if rng.random() < .5:
                    l.retain([])
            ctx.equal(snap(b), want, "documents loaded from one pickle are not independent", changes=done)
            ctx.equal(snap(load()), want, "a changed copy changed what a pickle says", changes=done)
            ctx.ev("loaded_twice")
    seen = snap(doc)
    pickle.loads(pickle.dumps(doc)).props["x"] = 1
    ctx.equal(snap(doc), seen, "a copy shares state with the original")
    ctx.seen("repeated", tuple(done), gen.shape(doc))


def documents(ctx, rng):
    doc = gen.document(rng, gen.Opts(max_nodes=20, ext=rng.random() < .2)) if rng.random() < .97 else gen.long_document(rng, gen.Opts(ext=True))
    observe(ctx, doc)
    want = snap(doc)
    r = rng.randrange(4)
    proto = rng.randint(0, pickle.HIGHEST_PROTOCOL)
    if r == 0:
        out = [pickle.loads(pickle.dumps(doc, protocol=proto))]
    elif r == 1:
        out = [copy.deepcopy(doc)]
    elif r == 2:
        a, b, c = pickle.loads(pickle.dumps([doc, {"x": doc}, doc], protocol=proto))
        ctx.check(a is c and b["x"] is a, "pickling lost the sharing of a document")
        out = [a]
    else:
        d = doc
        for _ in range(3):
            d = pickle.loads(pickle.dumps(d, protocol=proto))
        out = [d]
    for d in out:
        ctx.check(isinstance(d, Document), "pickle did not give a Document")
        ctx.equal(snap(d), want, "document differs after pickling", route=r, protocol=proto)
        structure(ctx, d, "unpickled document")
        ctx.check(MsgpackCodec.encode(d) == MsgpackCodec.encode(doc), "document encodes differently after pickling", route=r)
        # independence
        gen.history(rng, d)
        d.props["added"] = 1
        for layer in d.layers.values():
            layer.add()
        ctx.equal(snap(doc), want, "changing the copy changed the original", route=r)
    ctx.ev("document_pickles_%d" % r)
    ctx.ev("protocol_%d" % proto)


def handles(ctx, rng):
    doc = gen.document(rng, gen.Opts(max_nodes=10))
    want = snap(doc)
    data = MsgpackCodec.encode(doc)
    ref = rng.choice([None, (0, 0), (123456789012, 42), "somewhere"])
    fh = None
    if rng.random() < .3:
        path = os.path.join(ctx.tmp, "handle.dm")
        with open(path, "wb") as f:
            f.write(data)
        fh = open(path, "rb", buffering=rng.choice([-1, 0]))
        ctx.ev("file_handles")
    h = MsgpackDocument(rng.choice([lambda: data, lambda: BytesIO(data), lambda: doc])() if fh is None else fh, ref=ref)
    for op in rng.sample(["properties", "texts", "schema", "document"], rng.randint(0, 4)):
        getattr(h, op)()
    gone = False
    if rng.random() < .6:
        pickled = pickle.dumps(h, protocol=rng.randint(0, pickle.HIGHEST_PROTOCOL))
        if fh is not None and rng.random() < .5:
            # the place where it is loaded does not have the file
            fh.close()
            rng.choice([lambda: os.unlink(path), lambda: os.truncate(path, 0), lambda: open(path, "wb").write(b"DM_1 garbage")])()
            gone = True
            ctx.ev("loaded_elsewhere")
        h2 = pickle.loads(pickled)
    else:
        h2 = copy.deepcopy(h) if rng.random() < .5 else copy.copy(h)
    if gone:
        h3 = h2
    elif fh is not None and rng.random() < .5:
        # what was transported does not need the file
        fh.close()
        os.unlink(path)
        h3 = h2
    else:
        h3 = h
    ctx.equal(h2.ref, ref, "a pickled handle lost where the document came from")
    ctx.check(h2.binary() == data, "a pickled handle holds other bytes")
    ctx.equal(snap(h2.document()), want, "a pickled handle decodes to another document")
    ctx.equal(sorted(h2.properties()), sorted(doc.props), "properties of a pickled handle")
    ctx.equal(sorted(h2.schema()[0]), sorted(want["layers"]), "schema of a pickled handle")
    ctx.equal(snap(h3.document()), want, "pickling a handle changed it")
    if fh is not None:
        fh.close()
    ctx.ev("handle_pickles")
    ctx.seen("handle", gen.shape(doc), ref)


SCENARIOS = [("documents", documents, 1200, 40000), ("repeated", repeated, 800, 30000), ("handles", handles, 1000, 30000)]
REQUIRED = dict({"document_pickles_%d" % i: 50 for i in range(4)}, handle_pickles=300, file_handles=100, loaded_elsewhere=30, loaded_twice=1000, changed_value=200, changed_props=50, changed_nested_props=30, changed_unset=50)
