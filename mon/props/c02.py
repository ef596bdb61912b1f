"""Encoding is a pure observation of the document: deterministic, and leaves it as it was - also when it fails."""
import io
import json
import pickle

from docria.codec import MsgpackCodec, MsgpackDocument, JsonCodec, XmlCodec
from docria.collection import MsgpackDocumentWriter, TarMsgpackWriter, get_codec
from docria.model import Node, DataTypeEnum

from mon import core, corrupt, gen
from mon.snap import snap

RULE = ("random documents with gaps and reorderings; every encoder is run on the live document, some of them after an invalid value was "
        "planted so that they fail half-way; distinct = document shape x encoder sequence")
ASSUMPTIONS = ["node positions (compaction) may change during encoding, node order may not"]


def enc_msgpack(doc):
    return MsgpackCodec.encode(doc)


def enc_json(doc):
    return JsonCodec.encode(doc)


def enc_json_object(doc):
    return json.dumps(JsonCodec.encode_object(doc))


def enc_xml(doc):
    return XmlCodec.encode_utf8string(doc)


def enc_xml_verbose(doc):
    return XmlCodec.encode_utf8string(doc, verbose=True, verbose_node_spans=True, document_id="d1")


def enc_pickle(doc):
    return pickle.dumps(doc)


def enc_handle(doc):
    return MsgpackDocument(doc).binary()


def enc_writer(doc):
    out = io.BytesIO()
    out.close = lambda: None
    with MsgpackDocumentWriter(out, num_docs_per_block=2, codec=get_codec("none")) as w:
        w.write(doc)
        w.write(doc)
    return out.getvalue()


ENCODERS = [enc_msgpack, enc_json, enc_json_object, enc_xml, enc_xml_verbose, enc_pickle, enc_handle, enc_writer]


def identity(doc):
    """Which objects the document consists of, in order."""
    return {name: [id(n) for n in layer] for name, layer in doc.layers.items()}, {k: id(t) for k, t in doc.texts.items()}


def values(doc):
    """Identity of every stored value object, to detect values swapped behind the user's back."""
    return {name: [[(f, id(v)) for f, v in n.items()] for n in layer] for name, layer in doc.layers.items()}


def consistent(ctx, doc):
    for name, layer in doc.layers.items():
        nodes = list(layer)
        ctx.equal(len(layer), len(nodes), "len(layer) differs from iteration after encoding", layer=name)
        for a, b in zip(nodes, nodes[1:]):
            ctx.check(a.i < b.i, "node positions do not increase after encoding", layer=name)
        for n in nodes:
            ctx.check(layer[n.i] is n, "layer[node.i] is another node after encoding", layer=name)
            ctx.check(n in layer and not n.is_dangling(), "node lost its layer through encoding", layer=name)


def make(rng):
    if rng.random() < .015:
        return gen.long_document(rng, sizes=[129, 300, 700])
    return gen.document(rng, gen.Opts(binary=True, xml=True, simple_names=True, max_nodes=25, props=True))


def strip_binary_props(doc):
    for k in list(doc.props):
        try:
            json.dumps(doc.props[k])
        except TypeError:
            del doc.props[k]


def pure(ctx, rng):
    doc = make(rng)
    strip_binary_props(doc)
    before, ids, vals = snap(doc), identity(doc), values(doc)
    seq = [rng.choice(ENCODERS) for _ in range(rng.randint(2, 5))]
    first = {}
    for enc in seq:
        out = enc(doc)
        ctx.ev(enc.__name__)
        ctx.equal(snap(doc), before, "encoding changed the document", encoder=enc.__name__)
        ctx.check(identity(doc) == ids, "encoding replaced or reordered nodes or texts", encoder=enc.__name__)
        ctx.check(values(doc) == vals, "encoding replaced stored values", encoder=enc.__name__)
        consistent(ctx, doc)
        if enc.__name__ in first:
            ctx.check(first[enc.__name__] == out, "the same document was encoded differently the second time", encoder=enc.__name__)
            ctx.ev("repeated_encodings")
        first.setdefault(enc.__name__, out)
    for enc in set(seq):
        ctx.check(enc(doc) == first[enc.__name__], "the same document was encoded differently the second time", encoder=enc.__name__)
        ctx.ev("repeated_encodings")
    # still fully editable: use it as if it never had been encoded
    for layer in doc.layers.values():
        nodes = list(layer)
        if nodes:
            victim = rng.choice(nodes)
            layer.remove(victim)
            ctx.check(victim.is_dangling(), "removal after encoding left the node attached")
            ctx.check([id(n) for n in layer] == [id(n) for n in nodes if n is not victim], "removal after encoding removed another node")
            break
    ctx.seen(gen.shape(doc), tuple(e.__name__ for e in seq))
    ctx.sample({"encoders": [e.__name__ for e in seq], "shape": repr(gen.shape(doc))[:200]})


def failing(ctx, rng):
    doc = make(rng)
    strip_binary_props(doc)
    want = {e.__name__: e(doc) for e in (enc_msgpack, enc_json, enc_xml)}
    before = snap(doc)
    bad = corrupt.plant(rng, doc)
    if bad is None:
        ctx.ev("nothing_to_corrupt")
        return
    kind, undo = bad
    ids, vals = identity(doc), values(doc)
    for enc in rng.sample(ENCODERS, 3):
        try:
            enc(doc)
        except Exception:
            ctx.ev("failed_encodings")
        ctx.check(identity(doc) == ids and values(doc) == vals, "a failed encoding changed the document", encoder=enc.__name__, kind=kind)
        consistent(ctx, doc)
    undo()
    ctx.equal(snap(doc), before, "a failed encoding changed the document", kind=kind)
    for e in (enc_msgpack, enc_json, enc_xml):
        ctx.check(e(doc) == want[e.__name__], "after a failed encoding the repaired document encodes differently", kind=kind,
                  encoder=e.__name__)
    ctx.seen("failing", kind, gen.shape(doc))


def handle(ctx, rng):
    """A handle is a frozen image: later changes to the document do not reach it, nor the reverse."""
    doc = make(rng)
    before = snap(doc)
    h = MsgpackDocument(doc)
    data = h.binary()
    gen.history(rng, doc)
    doc.props["later"] = 1
    for t in list(doc.layers):
        doc.layers[t].add()
    dec = h.document()
    ctx.equal(snap(dec), before, "a later change of the document reached its encoded handle")
    dec.props["x"] = 2
    for layer in dec.layers.values():
        layer.retain([])
    ctx.equal(snap(h.document()), before, "a change of a decoded document reached the encoded handle")
    ctx.check(h.binary() == data, "the handle's bytes changed")
    ctx.ev("handles")
    ctx.seen("handle", gen.shape(doc))


def digests(seeds):
    """What a process of its own encodes for these documents."""
    import hashlib
    out = []
    for s in seeds:
        doc = make(core.rng_for("process", s))
        for e in (enc_msgpack, enc_json, enc_xml, enc_xml_verbose, enc_handle):
            try:
                b = e(doc)
            except Exception as x:
                b = type(x).__name__
            out.append(hashlib.blake2b(b if isinstance(b, bytes) else b.encode("utf-8", "surrogatepass"), digest_size=8).hexdigest())
    return out


CHILD = """
import json, sys
sys.path[:0] = [%r, %r]
from mon import core
core.import_repo()
from mon.props import c02
json.dump(c02.digests(json.load(sys.stdin)), sys.stdout)
"""


def processes(ctx, rng):
    """The bytes do not depend on the process (order of sets, addresses) in which a document was built."""
    import os
    import subprocess
    import sys
    seeds = [rng.getrandbits(60) for _ in range(60)]
    hashes = [0, 1, rng.randrange(2, 1 << 31)]
    ps = [subprocess.Popen([sys.executable, "-B", "-c", CHILD % (core.VERIF, core.REPO_PY)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True,
                           env=dict({k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}, PYTHONHASHSEED=str(h))) for h in hashes]
    for p in ps:
        p.stdin.write(json.dumps(seeds))
        p.stdin.close()
    got = [json.loads(p.stdout.read()) for p in ps]
    for p in ps:
        p.wait()
    mine = digests(seeds)
    for h, g in zip(hashes, got):
        diff = [(seeds[i // 5], ["binary", "JSON", "XML", "XML verbose", "handle"][i % 5]) for i in range(len(mine)) if g[i] != mine[i]]
        ctx.check(not diff, "the same document is encoded differently in another process", hash_seed=h, documents_and_formats=diff[:10])
        ctx.ev("encodings_compared_between_processes", len(mine))
    ctx.seen("processes", tuple(hashes), tuple(seeds))


SCENARIOS = [("processes", processes, 2, 20), ("pure", pure, 900, 30000), ("failing", failing, 600, 20000), ("handle", handle, 300, 10000)]
REQUIRED = {"encodings_compared_between_processes": 900, "repeated_encodings": 300, "failed_encodings": 300, "handles": 50, "enc_xml": 50, "enc_json": 50, "enc_pickle": 50,
            "enc_writer": 50}
