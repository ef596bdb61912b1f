"""Random documents: every field type, hostile unicode, removals, reorderings, size boundaries."""
import struct

from docria.model import (Document, DataTypes as T, DataTypeEnum, Node, NodeSpan, NodeLayerSchema, ExtData)

ASCII = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 .,;:!?-_"
SPACES = " \t\n\r\u00a0\u2003\u3000\x0b\x0c"
WEIRD = ["\x00", "\x01", "\x1f", "\x7f", "\x85", "\u0301", "\u200d", "\u202e", "\ufeff", "\ufffd", "\ufffe", "\uffff", "\ue000",
         "\U0001F600", "\U00010000", "\U0010FFFF", "\U0001F469\u200d\U0001F52C", "\u00e5\u00e4\u00f6", "\u0627\u0644",
         "\u4e2d\u6587", "\ud7ff", "<", ">", "&", "\"", "'", "\\", "%s", "%d", "{}", "{0}", "]]>", "<!--", "\u2028", "\u2029", "ß", "İ"]
SIZES = [0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33]
BIG = [127, 128, 255, 256, 257]
HUGE = [65535, 65536, 65537]


def size(rng, usual, large, p=.02):
    """A size, now and then a large one (limits that only many things reach)."""
    return rng.choice(large) if rng.random() < p else rng.choice(usual)


def rchar(rng):
    r = rng.random()
    if r < 0.55:
        return rng.choice(ASCII)
    if r < 0.7:
        return rng.choice(SPACES)
    if r < 0.95:
        return rng.choice(WEIRD)
    while True:
        c = rng.randrange(0x110000)
        if not 0xD800 <= c <= 0xDFFF:
            return chr(c)


def rstr(rng, n=None, simple=False):
    if n is None:
        n = rng.choice(SIZES) if rng.random() < 0.93 else rng.choice(BIG)
    if simple:
        return "".join(rng.choice(ASCII) for _ in range(n))
    if n > 300:
        unit = "".join(rchar(rng) for _ in range(50))
        return (unit * (n // len(unit) + 1))[:n]
    return "".join(rchar(rng) for _ in range(n))


def rname(rng, used, simple=False):
    while True:
        r = rng.random()
        if simple or r < 0.75:
            s = "".join(rng.choice("abcdefghijklmnopqrstuvwxyz_") for _ in range(rng.choice([1, 2, 3, 4, 6, 9])))
        elif r < 0.85:
            s = rng.choice(["text", "id", "layer", "default", "type", "context", "main", "props", "name", "__ref", "self", "args", "_id", "i"])
        else:
            s = rstr(rng, rng.choice([0, 1, 2, 3, 5, 31, 32, 40]))
        if s not in used:
            used.add(s)
            return s


def rint(rng, bits):
    lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
    r = rng.random()
    if r < 0.3:
        return rng.randint(-5, 5)
    if r < 0.7:
        v = rng.choice([1, -1]) * ((1 << rng.choice([4, 5, 7, 8, 15, 16, 31, 32, 63])) + rng.choice([-2, -1, 0, 1]))
        return max(lo, min(hi, v))
    if r < 0.8:
        return rng.choice([lo, hi, lo + 1, hi - 1, 0])
    return rng.randint(lo, hi)


def rfloat(rng):
    r = rng.random()
    if r < 0.35:
        return rng.choice([0.0, -0.0, 1.0, -1.0, 0.1, 1e308, -1e308, 5e-324, 2.2250738585072014e-308, 1e16, 3.4e38, 3.5e38,
                           float("inf"), float("-inf"), 16777217.0, 9007199254740993.0, 1 / 3])
    if r < 0.4:
        return float("nan")
    if r < 0.7:
        while True:
            v = struct.unpack(">d", rng.getrandbits(64).to_bytes(8, "big"))[0]
            if v == v:
                return v
    return rng.uniform(-1000, 1000)


def rbytes(rng, n=None):
    if n is None:
        n = rng.choice(SIZES) if rng.random() < 0.9 else rng.choice(BIG)
    r = rng.random()
    if r < 0.2:
        return b"\x00" * n
    if r < 0.3:
        return (b"DM_1Dmf1" * (n // 8 + 1))[:n]
    return rng.randbytes(n)


def rprop(rng, depth=0, binary=True):
    r = rng.random()
    if depth < 3 and r < 0.15:
        return [rprop(rng, depth + 1, binary) for _ in range(rng.choice([0, 1, 2, 3, 16]))]
    if depth < 3 and r < 0.3:
        return {rstr(rng, rng.choice([0, 1, 3, 31, 32])): rprop(rng, depth + 1, binary) for _ in range(rng.choice([0, 1, 2, 3]))}
    k = rng.randrange(6 if binary else 5)
    return [lambda: None, lambda: rng.random() < 0.5, lambda: rint(rng, 64), lambda: rfloat(rng), lambda: rstr(rng),
            lambda: rbytes(rng)][k]()


SIMPLE = ["i32", "i64", "f64", "bool", "str", "bin"]
ALL = SIMPLE + ["span", "ref", "refs", "nodespan"]


class Opts:
    def __init__(self, **kw):
        self.binary = True          # bytes-valued fields and properties
        self.ext = False
        self.simple_names = False
        self.max_layers = 5
        self.max_nodes = 40
        self.history = True         # removals / sorts / retain after construction
        self.kinds = ALL
        self.props = True
        self.huge = 0.0
        self.wide = 0.015           # many texts, layers, fields, properties (beyond the short encodings of lengths)
        self.texts = None
        self.xml = False
        self.flat = False           # no list and map properties
        self.__dict__.update(kw)


def rtype(rng, kind, texts, layers):
    dflt = rng.random()
    if kind == "i32":
        return T.int32 if dflt < 0.4 else T.int32() if dflt < .5 else T.int32(None) if dflt < 0.75 else T.int32(default=rint(rng, 32))
    if kind == "i64":
        return T.int64 if dflt < 0.4 else T.int64() if dflt < .5 else T.int64(None) if dflt < 0.75 else T.int64(default=rint(rng, 64))
    if kind == "f64":
        return T.float64 if dflt < 0.4 else T.float64() if dflt < .5 else T.float64(None) if dflt < .75 else T.float64(default=rfloat_ok(rng))
    if kind == "bool":
        return T.bool if dflt < 0.4 else T.bool() if dflt < .5 else T.bool(None) if dflt < .75 else T.bool(default=rng.random() < .5)
    if kind == "str":
        return T.string if dflt < 0.4 else T.string() if dflt < .5 else T.string(None) if dflt < .75 else T.string(default=rstr(rng))
    if kind == "bin":
        return T.binary
    if kind == "span":
        t = rng.choice(list(texts.values()))
        return t.spantype if rng.random() < .3 else T.textspan(t) if rng.random() < .5 else T.span(t.name)
    target = rng.choice(layers)
    if kind == "ref":
        return T.noderef(target)
    if kind == "refs":
        return T.noderef_many(target)
    if kind == "nodespan":
        return T.nodespan(target)
    if kind == "ext":
        return T.ext(rng.choice(["blob", "x", "doc"]))
    raise AssertionError(kind)


def rfloat_ok(rng):
    while True:
        v = rfloat(rng)
        if v == v:
            return v


def rspan(rng, text):
    n = len(text)
    a = rng.randint(0, n)
    r = rng.random()
    if r < 0.15:
        b = a
    elif r < 0.25:
        a, b = 0, n
    else:
        b = rng.randint(0, n)
        if rng.random() < .6:
            b = min(n, a + rng.choice([0, 1, 1, 2, 3, 5, 8]))
    a, b = min(a, b), max(a, b)
    return text[a:b] if rng.random() < .7 else text[(a, b)]


def rvalue(rng, dtype, doc, opts=None):
    """A valid value for dtype in doc, or None if none exists at the moment."""
    t = dtype.typename
    E = DataTypeEnum
    if t == E.I32:
        return rint(rng, 32)
    if t == E.I64:
        return rint(rng, 64)
    if t == E.F64:
        return rfloat(rng)
    if t == E.BOOL:
        return rng.random() < 0.5
    if t == E.STRING:
        return rstr(rng)
    if t == E.BINARY:
        return rbytes(rng)
    if t == E.SPAN:
        return rspan(rng, doc.texts[dtype.options["context"]])
    if t == E.EXT:
        if dtype.options["type"] == "doc":
            from docria.codec import MsgpackCodec, MsgpackDocumentExt
            form = rng.choice([MsgpackDocumentExt, MsgpackDocumentExt, MsgpackCodec.encode, lambda d: d])
            return form(document(rng, Opts(max_layers=2, max_nodes=4, history=False, flat=bool(opts and opts.flat))))
        return ExtData(dtype.options["type"], rbytes(rng)) if rng.random() < .8 else rbytes(rng)
    target = list(doc.layers[dtype.options["layer"]])
    if t == E.NODEREF:
        return rng.choice(target) if target else None
    if t == E.NODEREF_MANY:
        if not target:
            return []
        out = [rng.choice(target) for _ in range(size(rng, [0, 1, 2, 3, 5, 16], [17, 33, 70, 257], .03))]
        if len(out) > 1 and rng.random() < .2:
            # lists with a shape of their own
            return rng.choice([lambda: out + out[:1], lambda: sorted(out, key=lambda n: n.i), lambda: sorted(out, key=lambda n: -n.i),
                               lambda: out[:1] * len(out), lambda: out + out[::-1]])()
        return out
    if t == E.NODEREF_SPAN:
        if not target:
            return None
        a = rng.randrange(len(target))
        b = rng.randrange(len(target)) if rng.random() < .5 else min(len(target) - 1, a + rng.choice([0, 0, 1, 2]))
        return NodeSpan(target[min(a, b)], target[max(a, b)])
    raise AssertionError(t)


def document(rng, opts=None):
    opts = opts or Opts()
    doc = Document()
    if opts.props and rng.random() < .8:
        keys = set()
        for _ in range(rng.choice([0, 1, 2, 3, 5, 16]) if rng.random() >= opts.wide else rng.choice([15, 16, 17, 33, 256])):
            doc.props[rname(rng, keys)] = rprop(rng, 3 if opts.flat else 0, binary=opts.binary)
        if rng.random() < opts.huge:
            n = rng.choice(HUGE)
            doc.props[rname(rng, keys)] = [lambda: rstr(rng, n), lambda: rbytes(rng, n) if opts.binary else rstr(rng, n), lambda: [7] * n,
                                           lambda: {str(k): None for k in range(n)}][rng.randrange(4)]()
        if rng.random() < .2:
            doc = Document(**{k: v for k, v in doc.props.items() if k not in ("self",)})
    used = set()
    ntexts = opts.texts if opts.texts is not None else rng.choice([0, 1, 1, 1, 2, 3])
    if opts.texts is None and rng.random() < opts.wide:
        ntexts = rng.choice([15, 16, 17, 33, 120])
    for k in range(ntexts):
        size = rng.choice([0, 1, 2, 5, 10, 20, 40, 80]) if rng.random() > opts.huge else rng.choice(HUGE)
        s = rstr(rng, size)
        if k == 0 and rng.random() < .7:
            used.add("main")
            if rng.random() < .5:
                doc.maintext = s
            else:
                doc.add_text("main", s)
        else:
            doc.add_text(rname(rng, used, opts.simple_names), s)
    nlayers = rng.choice([0, 1, 1, 2, 2, 3, 4, 5])
    nlayers = min(nlayers, opts.max_layers)
    wide = opts.max_layers >= 5 and rng.random() < opts.wide
    if wide:
        nlayers = rng.choice([15, 16, 17, 33, 120])
    lused = set()
    names = [rname(rng, lused, opts.simple_names) for _ in range(nlayers)]
    for name in names:
        fused = set()
        sch = NodeLayerSchema(name)
        fields = {}
        for _ in range(rng.choice([0, 1, 2, 3, 4, 6]) if wide or rng.random() >= opts.wide else rng.choice([15, 16, 17, 33, 120])):
            kind = rng.choice(opts.kinds + (["ext"] if opts.ext else []))
            if kind == "span" and not doc.texts:
                continue
            if kind == "bin" and not opts.binary:
                continue
            f = rname(rng, fused, opts.simple_names)
            dt = rtype(rng, kind, doc.texts, names)
            fields[f] = dt
        if rng.random() < .5 or any(f in ("self", "_Document__name") for f in fields):
            for f, dt in fields.items():
                sch.add(f, dt)
            doc.add_layer(sch)
        else:
            doc.add_layer(name, **fields)
    for name in names:
        layer = doc[name]
        n = rng.choice([0, 1, 2, 3, 5, 8, 12, 15, 16, 17, 20, 31, 33])
        n = min(n, opts.max_nodes if not wide else 5)
        if rng.random() < opts.huge:
            n = rng.choice(BIG) if rng.random() < .9 else 1030
        elif opts.max_nodes >= 100 and rng.random() < .3:
            n = rng.randint(34, opts.max_nodes)
        mode = rng.random()
        if mode < .5:
            layer.add_many([Node() for _ in range(n)], default_fill=rng.random() < .8)
        elif mode < .8:
            for _ in range(n):
                layer.add()
        else:
            layer.add(*[Node() for _ in range(n)]) if n else None
    if opts.history and rng.random() < .6:
        history(rng, doc)
    fill(rng, doc, opts)
    if opts.history and rng.random() < .4:
        history(rng, doc)
        repair(doc)
    return doc


LONG = [129, 255, 257, 300, 513, 700, 1025, 1500, 2100]


def long_document(rng, opts=None, kinds=None, sizes=LONG):
    """A document of a few long layers (limits that only the n-th node, reference or piece of text reaches)."""
    opts = opts or Opts()
    doc = Document()
    n = rng.choice(sizes)
    unit = rstr(rng, 40)
    doc.maintext = (unit * (n // 20 + 1))[:rng.choice([n, 2 * n])]
    if rng.random() < .3:
        doc.add_text(rname(rng, {"main"}, True), rstr(rng, 20))
    if opts.props and rng.random() < .3:
        doc.props.update({"p%d" % k: k for k in range(rng.choice([1, n]))})
    names = ["tok", "sec", "rel"][:rng.choice([1, 2, 2, 3])]
    pool = [k for k in (kinds or opts.kinds + (["ext"] if opts.ext else [])) if k != "bin" or opts.binary]
    for name in names:
        kinds_ = [rng.choice(pool) for _ in range(rng.choice([1, 2, 3]))]
        doc.add_layer(name, **{"f%d_%s" % (i, k): rtype(rng, k, doc.texts, names) for i, k in enumerate(kinds_)})
    for k, name in enumerate(names):
        count = n if k == 0 else rng.choice([3, 130, n // 2, n])
        doc[name].add_many([Node() for _ in range(count)], default_fill=rng.random() < .5)
        if opts.history and rng.random() < .4:
            nodes = list(doc[name])
            doc[name].remove(rng.sample(nodes, rng.choice([1, len(nodes) // 10, len(nodes) // 2])))
    text, end = doc.maintext, len(doc.maintext)
    live = {name: list(doc[name]) for name in names}
    for name in names:
        layer = doc[name]
        for f, dt in layer.schema.fields.items():
            t = dt.typename
            target = live.get(dt.options.get("layer"))
            density = rng.choice([.05, .6, 1.0])
            base = [rvalue(rng, dt, doc, opts) for _ in range(12)] if target is None else None
            for k, x in enumerate(live[name]):
                if rng.random() >= density and k < len(live[name]) - 2:
                    continue
                if t == DataTypeEnum.SPAN and dt.options["context"] == "main":
                    a = min(end, k)
                    x[f] = text[a:min(end, a + rng.choice([0, 1, 1, 2, 9]))]
                elif t == DataTypeEnum.NODEREF and target:
                    x[f] = target[rng.choice([-1, k, rng.randrange(len(target))]) % len(target)]
                elif t == DataTypeEnum.NODEREF_MANY and target:
                    x[f] = [rng.choice(target) for _ in range(rng.choice([1, 2, 3]))]
                elif t == DataTypeEnum.NODEREF_SPAN and target:
                    a = rng.randrange(len(target))
                    x[f] = NodeSpan(target[a], target[min(len(target) - 1, a + rng.choice([0, 1, 2, 5]))])
                elif target is None:
                    v = rng.choice(base)
                    if v is not None:
                        x[f] = v
            # the extremes
            x = rng.choice(live[name]) if live[name] else None
            if x is not None and target:
                if t == DataTypeEnum.NODEREF_MANY:
                    x[f] = [rng.choice(target) for _ in range(n)]
                elif t == DataTypeEnum.NODEREF_SPAN:
                    x[f] = NodeSpan(target[0], target[-1])
            elif x is not None and t == DataTypeEnum.SPAN and dt.options["context"] == "main":
                x[f] = text[0:end]
    return doc


def fill(rng, doc, opts=None):
    for name, layer in doc.layers.items():
        density = rng.choice([0.0, .3, .7, .9, 1.0])
        for n in layer:
            for f, dt in layer.schema.fields.items():
                if rng.random() < density:
                    v = rvalue(rng, dt, doc, opts)
                    if v is not None:
                        n[f] = v


def history(rng, doc):
    """Some removals and reorderings."""
    for name, layer in doc.layers.items():
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            nodes = list(layer)
            if not nodes:
                break
            op = rng.randrange(6)
            if op == 0:
                layer.remove(rng.choice(nodes))
            elif op == 1:
                layer.remove(rng.sample(nodes, rng.randint(0, len(nodes))))
            elif op == 2:
                order = {id(n): rng.random() for n in nodes}
                layer.sort(lambda n: order[id(n)])
            elif op == 3:
                layer.compact()
                layer.retain(rng.sample(nodes, rng.randint(len(nodes) // 2, len(nodes))))
            elif op == 4:
                layer.add()
            else:
                layer.remove(nodes[0] if rng.random() < .5 else nodes[-1])


def repair(doc):
    """Drop field values that a removal or reordering made invalid, so that the document is valid again."""
    for layer in doc.layers.values():
        for n in layer:
            for f, dt in layer.schema.fields.items():
                if f not in n:
                    continue
                v = n[f]
                if dt.typename == DataTypeEnum.NODEREF:
                    if v.is_dangling():
                        del n[f]
                elif dt.typename == DataTypeEnum.NODEREF_MANY:
                    n[f] = [x for x in v if not x.is_dangling()]
                elif dt.typename == DataTypeEnum.NODEREF_SPAN:
                    if v.first().is_dangling() or v.last().is_dangling() or v.first().i > v.last().i:
                        del n[f]
    return doc


def shape(doc):
    """A small signature of a document's structure (for counting distinct cases)."""
    return (len(doc.props), tuple(sorted((k, len(t)) for k, t in doc.texts.items())),
            tuple(sorted((k, len(l), tuple(sorted((f, t.typename.name, len(t.options)) for f, t in l.schema.fields.items())))
                         for k, l in doc.layers.items())))
