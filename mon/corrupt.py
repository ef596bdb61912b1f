"""Plants one violation of the schema into a valid document.  Returns (kind, undo) or None."""
from docria.codec import MsgpackCodec, MsgpackDocumentExt
from docria.model import Document, ExtData, Node, NodeSpan, DataTypeEnum, DataTypes as T, TextSpan, NodeLayerSchema

from mon import gen

E = DataTypeEnum
WRONG = {
    E.I32: [2 ** 31, -2 ** 31 - 1, 2 ** 63, 1.5, "1", b"1", None, [1], 1j],
    E.I64: [2 ** 63, -2 ** 63 - 1, 2.0, "1", b"1", None, (1,), {}],
    E.F64: [1, "1.0", None, b"", True, [1.0]],
    E.BOOL: [0, 1, "True", None, 1.0, []],
    E.STRING: [1, b"bytes", None, 1.0, True, ["a"]],
    E.BINARY: ["str", 1, None, [1, 2], True, 1.0],
    E.SPAN: ["text", 1, None, (0, 1), b""],
    E.NODEREF: [0, "n", None, {}, [], b""],
    E.NODEREF_MANY: ["n", 1, None, {"a": 1}, b"x", [1], [None], ["a"]],
    E.EXT: [1, "x", [1], 1.5, ExtData("another", b"data"), ExtData("another", Document()), lambda t: ExtData(t.options["type"], 3), lambda t: ExtData(t.options["type"], "text"),
            lambda t: ExtData(t.options["type"], [1, 2]), lambda t: Document() if t.options["type"] != "doc" else ExtData("blob", b""),
            lambda t: MsgpackDocumentExt(Document()) if t.options["type"] != "doc" else ExtData("blob", MsgpackCodec.encode(Document()))],
    E.NODEREF_SPAN: [[0, 0], (0, 0), "x", 1, None],
}


def wrong(rng, t):
    v = rng.choice(WRONG[t.typename])
    return v(t) if callable(v) else v


def cells(doc):
    for layer in doc.layers.values():
        for n in layer:
            for f, t in layer.schema.fields.items():
                yield layer, n, f, t


def _set(n, f, v):
    had = f in n
    old = n.get(f)
    items = list(n.items())
    n[f] = v

    def undo():
        if had:
            n[f] = old
        else:
            del n[f]
    return undo


def kinds():
    return ["wrong type", "foreign text", "wrong layer", "removed node", "removed in list", "removed in span", "reversed span",
            "undeclared field", "missing layer", "missing text", "dangling foreign node", "not a node in list", "moved node", "half removed span",
            "half foreign span", "node of other document", "replaced layer", "text of other document", "replaced text"]


def plant(rng, doc, kind=None):
    order = kinds() if kind is None else [kind]
    rng.shuffle(order)
    for k in order:
        r = _plant(rng, doc, k)
        if r is not None:
            return k, r
    return None


def _pick(rng, doc, pred):
    c = [x for x in cells(doc) if pred(x[3])]
    return rng.choice(c) if c else None


def _plant(rng, doc, kind):
    if kind == "wrong type":
        c = _pick(rng, doc, lambda t: t.typename in WRONG)
        if c is None:
            return None
        layer, n, f, t = c
        return _set(n, f, wrong(rng, t))
    if kind == "undeclared field":
        ns = [(l, n) for l in doc.layers.values() for n in l]
        if not ns:
            return None
        layer, n = rng.choice(ns)
        f = gen.rname(rng, set(layer.schema.fields))
        return _set(n, f, gen.rprop(rng))
    if kind == "foreign text":
        c = _pick(rng, doc, lambda t: t.typename == E.SPAN)
        if c is None:
            return None
        layer, n, f, t = c
        others = [x for x in doc.texts.values() if x.name != t.options["context"]]
        if others and rng.random() < .7:
            txt = rng.choice(others)
        else:
            txt = Document().add_text(t.options["context"] + "x", "abc")
        return _set(n, f, gen.rspan(rng, txt))
    if kind == "wrong layer":
        c = _pick(rng, doc, lambda t: t.typename in (E.NODEREF, E.NODEREF_MANY, E.NODEREF_SPAN))
        if c is None:
            return None
        layer, n, f, t = c
        cand = [x for l in doc.layers.values() if l.name != t.options["layer"] for x in l]
        if not cand:
            o = Document().add_layer(t.options["layer"] + "x", a=T.string(None))
            cand = [o.add() for _ in range(2)]
        x = rng.choice(cand)
        if t.typename == E.NODEREF:
            v = x
        elif t.typename == E.NODEREF_SPAN:
            v = NodeSpan(x, x)
        else:
            good = list(doc.layers[t.options["layer"]])
            v = [rng.choice(good) for _ in range(rng.randint(0, 3))] if good else []
            v.insert(rng.randint(0, len(v)), x)
        return _set(n, f, v)
    if kind in ("removed node", "removed in list", "removed in span"):
        want = {"removed node": E.NODEREF, "removed in list": E.NODEREF_MANY, "removed in span": E.NODEREF_SPAN}[kind]
        c = _pick(rng, doc, lambda t: t.typename == want)
        if c is None:
            return None
        layer, n, f, t = c
        target = doc.layers[t.options["layer"]]
        if any(True for _ in target) and rng.random() < .5:
            mates = list(target)
        else:
            mates = []
        victim = target.add_many([Node()], full_validation=False) or target.last()
        if kind == "removed node":
            v = victim
        elif kind == "removed in list":
            v = [rng.choice(mates) for _ in range(rng.randint(0, 3))] if mates else []
            v.insert(rng.randint(0, len(v)), victim)
        else:
            v = NodeSpan(rng.choice(mates) if mates else victim, victim)
        target.remove(victim)
        return _set(n, f, v)
    if kind == "dangling foreign node":
        c = _pick(rng, doc, lambda t: t.typename == E.NODEREF)
        if c is None:
            return None
        layer, n, f, t = c
        return _set(n, f, Node(never="added"))
    if kind == "not a node in list":
        c = _pick(rng, doc, lambda t: t.typename == E.NODEREF_MANY)
        if c is None:
            return None
        layer, n, f, t = c
        good = list(doc.layers[t.options["layer"]])
        v = [rng.choice(good) for _ in range(rng.randint(0, 3))] if good else []
        v.insert(rng.randint(0, len(v)), rng.choice([None, 0, "x", {}]))
        return _set(n, f, v)
    if kind == "reversed span":
        c = _pick(rng, doc, lambda t: t.typename == E.NODEREF_SPAN and len(doc.layers[t.options["layer"]]) >= 2)
        if c is None:
            return None
        layer, n, f, t = c
        target = doc.layers[t.options["layer"]]
        nodes = list(target)
        a, b = sorted(rng.sample(range(len(nodes)), 2))
        v = NodeSpan(nodes[a], nodes[b])
        order = {id(x): k for k, x in enumerate(nodes)}
        rev = dict(order)
        rev[id(nodes[a])], rev[id(nodes[b])] = b, a
        # other node spans over this layer must not exist, or undo could not restore a valid document
        target.sort(lambda x: rev[id(x)])
        u = _set(n, f, v)

        def undo():
            target.sort(lambda x: order[id(x)])
            u()
        return undo
    if kind in ("moved node", "half removed span"):
        c = _pick(rng, doc, lambda t: t.typename == E.NODEREF_SPAN or (kind == "moved node" and t.typename in (E.NODEREF, E.NODEREF_MANY)))
        if c is None:
            return None
        layer, n, f, t = c
        target = doc.layers[t.options["layer"]]
        others = [l for l in doc.layers.values() if l is not target]
        if kind == "moved node" and not others:
            return None
        v1, v2 = Node(), Node()
        target.add_many([v1, v2], full_validation=False)
        gone, stays = (v1, v2) if rng.random() < .5 else (v2, v1)
        if t.typename == E.NODEREF:
            v = gone
        elif t.typename == E.NODEREF_MANY:
            v = rng.choice([[gone], [stays, gone], [gone, stays]])
        else:
            v = NodeSpan(v1, v2)
        target.remove(gone)
        other = None
        if kind == "moved node":
            other = rng.choice(others)
            for x in list(gone):
                del gone[x]
            other.add_many([gone], full_validation=False)
        u = _set(n, f, v)

        def undo():
            u()
            target.remove(stays)
            if other is not None:
                other.remove(gone)
        return undo
    if kind == "half foreign span":
        c = _pick(rng, doc, lambda t: t.typename == E.NODEREF_SPAN and len(doc.layers[t.options["layer"]]) >= 1)
        if c is None:
            return None
        layer, n, f, t = c
        target = list(doc.layers[t.options["layer"]])
        cand = [x for l in doc.layers.values() if l.name != t.options["layer"] for x in l]
        left = rng.random() < .5
        good = rng.choice(target)
        cand = [x for x in cand if (x.i <= good.i if left else x.i >= good.i)]
        if not cand:
            return None
        v = NodeSpan(good, good)
        if left:
            v.left = rng.choice(cand)
        else:
            v.right = rng.choice(cand)
        return _set(n, f, v)
    if kind in ("node of other document", "replaced layer"):
        # a layer of the same name, which is not (or no longer) the one of this document
        c = _pick(rng, doc, lambda t: t.typename in (E.NODEREF, E.NODEREF_MANY, E.NODEREF_SPAN))
        if c is None:
            return None
        layer, n, f, t = c
        target = doc.layers[t.options["layer"]]
        if kind == "replaced layer":
            if target is layer or not any(True for _ in target):
                return None
            holders = [x for x in doc.layers.values() if x is not target]
            if t.typename == E.NODEREF:
                v = rng.choice(list(target))
            elif t.typename == E.NODEREF_MANY:
                v = [rng.choice(list(target)) for _ in range(rng.randint(1, 3))]
            else:
                v = NodeSpan(target.first(), rng.choice(list(target)))
            u = _set(n, f, v)
            schema = NodeLayerSchema(target.name)
            for g, dt in target.schema.fields.items():
                schema.add(g, dt)
            doc.add_layer(schema).add_many([Node() for _ in range(rng.choice([0, len(target), len(target) + 2]))])

            def undo():
                u()
                doc.layers[target.name] = target
            return undo
        o = Document()
        ol = o.add_layer(t.options["layer"], a=T.string(None))
        a, b = [ol.add() for _ in range(2)]
        good = [] if t.typename == E.NODEREF else list(target)
        if t.typename == E.NODEREF:
            v = a
        elif t.typename == E.NODEREF_MANY:
            v = [rng.choice(good) for _ in range(rng.randint(0, 3))] if good else []
            v.insert(rng.randint(0, len(v)), a)
        else:
            v = NodeSpan(a, b)
            if good and rng.random() < .5:
                v = NodeSpan(good[0], good[0])
                if rng.random() < .5:
                    v.left = a
                else:
                    v.right = b
        return _set(n, f, v)
    if kind in ("text of other document", "replaced text"):
        c = _pick(rng, doc, lambda t: t.typename == E.SPAN)
        if c is None:
            return None
        layer, n, f, t = c
        name = t.options["context"]
        old = doc.texts[name]
        other = rng.choice([str(old) + "!", str(old)[:-1] + "\u2603" if len(old) else "x", "abc"])
        if other == str(old):
            return None
        if kind == "text of other document":
            return _set(n, f, gen.rspan(rng, Document().add_text(name, other)))
        u = _set(n, f, gen.rspan(rng, old))
        doc.add_text(name, other)

        def undo():
            u()
            doc.texts[name] = old
        return undo
    if kind == "missing layer":
        src = [l for l in doc.layers.values()]
        if not src:
            return None
        l = rng.choice(src)
        f = gen.rname(rng, set(l.schema.fields))
        l.add_field(f, rng.choice([T.noderef, T.noderef_many, T.nodespan])(gen.rname(rng, set(doc.layers))))
        return lambda: l.remove_field(f)
    if kind == "missing text":
        src = [l for l in doc.layers.values()]
        if not src:
            return None
        l = rng.choice(src)
        f = gen.rname(rng, set(l.schema.fields))
        l.add_field(f, T.span(gen.rname(rng, set(doc.texts))))
        return lambda: l.remove_field(f)
    raise AssertionError(kind)
