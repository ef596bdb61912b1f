"""All ways to reach or name a part of a document agree, and nodes behave as dictionaries with an identity."""
import collections
import copy

from docria.codec import JsonCodec, MsgpackCodec
from docria.model import (DataTypeEnum, DataTypes as T, Document, ExtData, Node, NodeLayerSchema, NodeList, NodeSpan, Text, create_datatype)

from mon import corrupt, gen
from mon.snap import canon_plain, snap

RULE = ("random histories of adding, reaching, replacing and removing texts and layers through every access path against a plain dictionary of what was put in; "
        "random dictionary operations on nodes (attached, removed, never attached) and through the field wrapper against a plain dict; every way to declare a type "
        "compared with every other; distinct = (access paths and operations in order) and (type, ways)")
ASSUMPTIONS = ["names reached through the field wrapper are ordinary attribute names"]
E = DataTypeEnum
MISSING = object()


def paths(ctx, rng):
    props = {gen.rname(rng, set(), True): gen.rprop(rng) for _ in range(rng.randint(0, 3))}
    doc = Document(**props)
    ctx.equal(canon_plain(doc.props), canon_plain(props), "properties of a new document differ from those given")
    if props:
        k = rng.choice(sorted(props))
        before = dict(props)
        doc.props[k] = "changed"
        ctx.equal(canon_plain(props), canon_plain(before), "changing the properties of a document changed the dictionary it was made from")
    texts, layers, fields = {}, {}, {}
    trace = []
    used = set()
    for step in range(rng.choice([4, 10, 20])):
        op = rng.choice(["text", "maintext", "Text", "again", "layer", "schema", "remove", "del", "remove missing", "look"])
        trace.append(op)
        if op == "text":
            n = gen.rname(rng, used)
            s = gen.rstr(rng, 8)
            t = doc.add_text(n, s)
            texts[n] = (t, s)
        elif op in ("maintext", "Text") and "main" not in texts:
            used.add("main")
            s = gen.rstr(rng, 8)
            t = Text("main", s)
            if op == "Text":
                wrong = Text(gen.rname(rng, {"main"}), s)
                ctx.rejects(lambda: setattr(doc, "maintext", wrong), "a text of another name became the main text")
                ctx.rejects(lambda: setattr(doc, "maintext", rng.choice([1, None, b"x", ["x"]])), "something that is no text became the main text")
                ctx.check("main" not in doc.texts, "a refused main text is there")
            doc.maintext = s if op == "maintext" else t
            texts["main"] = (doc.texts["main"] if op == "maintext" else t, s)
            ctx.ev("main_texts")
        elif op == "again" and "main" in texts:
            ctx.rejects(lambda: setattr(doc, "maintext", rng.choice(["other", Text("main", "other")])), "the main text was replaced")
            ctx.ev("main_text_kept")
        elif op in ("layer", "schema"):
            n = gen.rname(rng, used)
            fs = {gen.rname(rng, set(), True): rng.choice([T.string, T.int32(None), T.bool(True), T.binary]) for _ in range(rng.randint(0, 3))}
            if op == "layer" and "_Document__name" not in fs and "self" not in fs:
                layer = doc.add_layer(n, **fs)
            else:
                sch = NodeLayerSchema(n)
                for f, t in fs.items():
                    r = sch.add(f, t)
                    ctx.check(r is sch, "adding to a declaration gives another declaration")
                layer = doc.add_layer(sch)
            layers[n] = layer
            fields[n] = {f: (t() if callable(t) else t) for f, t in fs.items()}
        elif op in ("remove", "del") and layers:
            n = rng.choice(list(layers))
            if op == "remove":
                ctx.check(doc.remove_layer(n) is True, "removing a layer did not say so")
            else:
                del doc[n]
            del layers[n]
            ctx.ev("layers_removed")
        elif op == "remove missing":
            ctx.check(doc.remove_layer(gen.rname(rng, set(layers))) is False, "removing a missing layer said it was removed")
        # every access path
        ctx.equal(list(doc.texts), list(texts), "names of the texts differ from what was added", trace=trace)
        ctx.equal(list(doc.layers), list(layers), "names of the layers differ from what was added", trace=trace)
        ctx.check(list(doc.text.items()) == list(doc.texts.items()) and list(doc.layer.items()) == list(doc.layers.items()), "text and texts, or layer and layers differ")
        for n, (t, s) in texts.items():
            ctx.check(doc.texts[n] is t and doc.text[n] is t, "an access path gives another text", text=n)
            ctx.check(str(t) == s and len(t) == len(s) and "".join(t) == s and t.name == n and t.text == s, "a text differs from the string given", text=n)
        if "main" in texts:
            ctx.check(doc.maintext is texts["main"][0], "maintext is not the text main")
        else:
            ctx.rejects(lambda: doc.maintext, "a document without main text gave one")
        for n, l in layers.items():
            ctx.check(doc[n] is l and doc.layers[n] is l and doc.layer[n] is l, "an access path gives another layer", layer=n)
            ctx.check(n in doc and l.name == n and l.schema.name == n, "a layer is not found under its name", layer=n)
            ctx.check(l.schema.fields == fields[n] and list(l.fieldtypes) == list(fields[n]), "the declaration of a layer differs from what was given", layer=n)
        for n in [gen.rname(rng, set(layers)), "main" if "main" not in layers else None]:
            if n is not None:
                ctx.check(n not in doc, "a layer that does not exist is found", name=n)
                ctx.rejects(lambda: doc[n], "a layer that does not exist was given", name=n)
        ctx.ev("access_paths_compared")
    ctx.seen("paths", tuple(trace))
    ctx.sample({"operations": trace})


VALUES = [0, 1, True, None, "", "x", b"y", 1.5, [1], "\U0001F600"]


def nodes(ctx, rng):
    """Dictionary behaviour and identity of nodes in all states."""
    doc = Document()
    layer = doc.add_layer("l", a=T.string("dflt"), b=T.int32(None), c=T.bool(None))
    keys = ["a", "b", "c", "zz", "_x", "fld_", "\u00e5"]
    pool, model = [], []
    for _ in range(rng.randint(2, 6)):
        start = {k: rng.choice(VALUES) for k in rng.sample(keys, rng.randint(0, 3))}
        form = rng.randrange(4)
        if form == 0:
            n = Node(**start)
        elif form == 1:
            n = Node(start)
        elif form == 2:
            n = Node(list(start.items()))
        else:
            start = {k: v for k, v in [("a", "\U0001F600"), ("b", 5), ("c", True)] if rng.random() < .4}
            n = layer.add(**start)
            start.setdefault("a", "dflt")
        ctx.check((n.collection is layer) == (form == 3) and n.is_dangling() == (form != 3), "state of a new node")
        pool.append(n)
        model.append(dict(start))
    state = {id(n): n.collection is not None for n in pool}
    trace = []
    for _ in range(rng.choice([5, 15])):
        k = rng.randrange(len(pool))
        n, m = pool[k], model[k]
        key = rng.choice(keys)
        v = rng.choice(VALUES)
        op = rng.choice(["set", "get", "del", "update", "pop", "setdefault", "fld get", "fld set", "fld del", "clear", "detach", "remove", "views"])
        trace.append(op)
        if op == "set":
            n[key] = v
            m[key] = v
        elif op == "get":
            ctx.check(n.get(key, MISSING) is m.get(key, MISSING) and (key in n) == (key in m), "a value of a node differs", key=key)
            if key in m:
                ctx.check(n[key] is m[key], "a value of a node differs")
            else:
                ctx.rejects(lambda: n[key], "an unset field has a value")
        elif op == "del":
            if key in m:
                del n[key], m[key]
            else:
                ctx.rejects(lambda: n.__delitem__(key), "an unset field was deleted")
        elif op == "update":
            up = {x: rng.choice(VALUES) for x in rng.sample(keys, 2)}
            n.update(up)
            ctx.ev("updates")
            m.update(up)
        elif op == "pop":
            ctx.check(n.pop(key, MISSING) is m.pop(key, MISSING), "pop gave another value")
        elif op == "setdefault":
            ctx.check(n.setdefault(key, v) is m.setdefault(key, v), "setdefault gave another value")
        elif op == "fld get":
            ctx.check(getattr(n.fld, key) is m.get(key), "the field wrapper gives another value", key=key)
            ctx.ev("wrapper_reads")
        elif op == "fld set":
            w = n.fld
            setattr(w, key, v)
            m[key] = v
            ctx.check(getattr(w, key) is v and n[key] is v, "the field wrapper does not write through", key=key)
            ctx.ev("wrapper_writes")
        elif op == "fld del" and key in m:
            delattr(n.fld, key)
            del m[key]
            ctx.check(key not in n and getattr(n.fld, key) is None, "the field wrapper does not delete")
        elif op == "clear" and rng.random() < .3:
            n.clear()
            m.clear()
        elif op in ("detach", "remove"):
            if state[id(n)]:
                n.detach() if op == "detach" else layer.remove(n)
                state[id(n)] = False
                ctx.ev("detached")
            elif op == "detach":
                ctx.rejects(n.detach, "a node outside of any layer was detached")
        elif op == "views":
            ctx.check(dict(n.items()) == m and list(n.keys()) == list(n) and list(zip(n.keys(), n.values())) == list(n.items()) and len(n) == len(m) and bool(n) == bool(m),
                      "views of a node differ from those of a dictionary")
        for x, y in zip(pool, model):
            ctx.check(dict(x) == y and all(x[q] is y[q] for q in y), "a node changed that was not touched, or differs from the dictionary", trace=trace)
            ctx.check(x.is_dangling() == (not state[id(x)]) and (x.collection is layer) == state[id(x)], "the state of a node differs", trace=trace)
        want = [x for x in pool if state[id(x)]]
        got = list(layer)
        ctx.check(len(got) == len(want) and all(a is b for a, b in zip(got, want)), "the layer holds other nodes", trace=trace)
    # identity
    a, b = Node(model[0]), Node(model[0])
    ctx.check(a != b and not (a == b) and a == a and len({a, b}) == 2, "nodes of the same content are taken for the same")
    d = {x: i for i, x in enumerate(pool)}
    h = [hash(x) for x in pool]
    for x in pool:
        x["a"] = "other"
    if any(state[id(x)] for x in pool):
        for x in pool:
            for q in list(x):
                del x[q]
        MsgpackCodec.encode(doc)
    ctx.check([hash(x) for x in pool] == h and all(d[x] == i for i, x in enumerate(pool)), "a node changed its identity when its content changed")
    ctx.check(pool.index(pool[-1]) == len(pool) - 1 and collections.Counter(pool)[pool[0]] == 1, "a node is found at the place of another")
    ctx.ev("identities")
    ctx.seen("nodes", tuple(trace))


def validity(ctx, rng):
    """is_valid says whether the values of a node fit its layer, in agreement with the encoders."""
    doc = gen.document(rng, gen.Opts(max_layers=4, max_nodes=8))
    for l in doc.layers.values():
        for n in l:
            ctx.check(n.is_valid() is True and n.is_valid(noexcept=False) is True, "a valid node is said to be invalid", layer=l.name)
        l_nodes = list(l)
        lst = rng.choice([lambda: l.to_list(), lambda: NodeList(l_nodes, fieldtypes=l.fieldtypes)])()
        lst.validate()
        ctx.ev("valid_nodes", len(l_nodes))
    before = snap(doc)
    cells = [(l, n, f, t) for l, n, f, t in corrupt.cells(doc) if t.typename in corrupt.WRONG]
    if cells:
        l, n, f, t = rng.choice(cells)
        undo = corrupt._set(n, f, corrupt.wrong(rng, t))
        ctx.check(n.is_valid() is False, "a node with a wrong value is said to be valid", type=t.typename.name, value=n[f])
        ctx.rejects(lambda: _strict(n), "strict validation accepted a wrong value", type=t.typename.name)
        ctx.rejects(lambda: MsgpackCodec.encode(doc), "a node that is said to be invalid was encoded", type=t.typename.name)
        for other in l:
            if other is not n:
                ctx.check(other.is_valid(), "a valid node became invalid because of another")
        undo()
        ctx.check(n.is_valid() is True, "a repaired node is said to be invalid")
        ctx.ev("invalid_nodes")
        ctx.seen("invalid", t.typename.name)
        if rng.random() < .5:
            l.remove(n)
            ctx.check(n.is_valid() is False, "a removed node is said to be valid")
            ctx.rejects(lambda: n.is_valid(noexcept=False), "strict validation accepted a removed node")
            ctx.ev("removed_nodes")
        else:
            ctx.equal(snap(doc), before, "validation changed the document")
    loose = Node(a=1)
    ctx.check(loose.is_valid() is False, "a node outside of any layer is said to be valid")
    ctx.rejects(lambda: loose.is_valid(noexcept=False), "strict validation accepted a node outside of any layer")


def _strict(n):
    if n.is_valid(noexcept=False) is False:
        raise ValueError("invalid")


def types(ctx, rng):
    """Ways to declare the same type give equal types; the type of a value holds that value."""
    doc = Document()
    name = gen.rname(rng, set())
    text = doc.add_text(name, gen.rstr(rng, 10))
    lname = gen.rname(rng, set())
    layer = doc.add_layer(lname, s=T.string(None))
    ns = [layer.add() for _ in range(3)]
    groups = [
        [T.textspan(text), T.textspan(name), T.span(text), T.span(name), text.spantype, create_datatype(E.SPAN, context=name)],
        [T.noderef(layer), T.noderef(lname), layer.nodetype, create_datatype(E.NODEREF, layer=lname)],
        [T.noderef_many(layer), T.noderef_many(lname), create_datatype(E.NODEREF_MANY, layer=lname)],
        [T.nodespan(layer), T.nodespan(lname), create_datatype(E.NODEREF_SPAN, layer=lname)],
        [T.noderef(lname + "x")], [T.span(name + "x")],
        [T.int32(), T.int32(0), create_datatype(E.I32, default=0)], [T.int32(None), create_datatype(E.I32)], [T.int32(7), T.int32(7)],
        [T.int64(), T.int64(0)], [T.int64(None)], [T.int64(7)],
        [T.float64(), T.float64(0.0)], [T.float64(None)], [T.float64(.5)],
        [T.string(), T.string("")], [T.string(None)], [T.string("x"), T.string("x")],
        [T.bool(), T.bool(False), T.boolean()], [T.bool(None)], [T.bool(True), T.boolean(True)],
        [T.binary, create_datatype(E.BINARY)], [T.ext("x"), T.ext("x"), create_datatype(E.EXT, type="x")], [T.ext("y")],
    ]
    for i, g in enumerate(groups):
        for j, h in enumerate(groups):
            x, y = rng.choice(g), rng.choice(h)
            if i == j:
                x, y = rng.choice(g), rng.choice(g)
                ctx.check(x == y and hash(x) == hash(y) and canon_plain(x.encode()) == canon_plain(y.encode()), "two ways to declare the same type differ", a=repr(x), b=repr(y))
            else:
                ctx.check(not (x == y), "different types are equal", a=repr(x), b=repr(y))
            ctx.ev("types_compared")
    want = {6: 0, 7: None, 8: 7, 9: 0, 10: None, 11: 7, 12: 0.0, 13: None, 14: .5, 15: "", 16: None, 17: "x", 18: False, 19: None, 20: True, 21: None}
    for i, dflt in want.items():
        for t in groups[i]:
            ctx.equal(canon_plain(t.default()), canon_plain(dflt), "a type has another default than declared", type=repr(t))
    # a declared default arrives unchanged in new nodes, also from a decoded declaration
    extreme = {T.float64: [5e-324, -5e-324, 1e-12, 1e-300, 1.7976931348623157e308, float("inf"), float("-inf"), .1, -1.5, 1e16 + 2, 2.0 ** 53],
               T.int32: [-2 ** 31, 2 ** 31 - 1, 1, -1, 255, 256, -32, -33, 65536], T.int64: [-2 ** 63, 2 ** 63 - 1, 2 ** 31, -2 ** 31 - 1, 2 ** 53 + 1, 1, -1],
               T.string: ["0", " ", "\n", "\x00", "x" * 40, "\u00e5" * 300, "None"], T.bool: [True, False]}
    ddoc = Document()
    for mk, values in extreme.items():
        for k, v in enumerate(rng.sample(values, min(3, len(values)))):
            t = mk(v)
            ctx.equal(canon_plain(t.default()), canon_plain(v), "a type has another default than declared", type=repr(t))
            ddoc.add_layer("%s%d" % (t.typename.name, k), f=t, other=T.string(None)).add(f=v)
    back = MsgpackCodec.decode(MsgpackCodec.encode(ddoc)) if rng.random() < .6 else JsonCodec.decode(JsonCodec.encode(ddoc))
    for lname2 in list(ddoc.layers):
        v = list(ddoc[lname2])[0]["f"]
        for which in (ddoc, back):
            got = which[lname2].add(other="x")
            ctx.equal(canon_plain(got.get("f")), canon_plain(v), "a new node has another value than the declared default", layer=lname2, decoded=which is back)
            ctx.ev("defaults_given")
    for bad in [1, None, 2.5, b"x"]:
        for mk in (T.textspan, T.noderef, T.noderef_many, T.nodespan):
            ctx.rejects(lambda: mk(bad), "a type was declared over something that has no name")
    # the type of a value
    span = text[rng.randint(0, 5):]
    for v, kind in [("s", E.STRING), (True, E.BOOL), (5, E.I64), (1 << 40, E.I64), (.5, E.F64), (b"b", E.BINARY), (span, E.SPAN), (ns[0], E.NODEREF), (NodeSpan(ns[0], ns[2]), E.NODEREF_SPAN),
                    ([ns[1], ns[0]], E.NODEREF_MANY)]:
        t = T.typeof(v)
        ctx.check(t.typename == kind and t.is_valid(v), "the type found for a value does not hold it", value=repr(v), type=repr(t))
        ctx.ev("types_of_values")
    for v in (gen.rint(rng, 64), gen.rint(rng, 32)):
        t = T.typeof(v, T.int32(None))
        ctx.check(t.is_valid(v) and t.typename == (E.I32 if -2 ** 31 <= v < 2 ** 31 else E.I64), "the type found for a number next to a 32 bit field does not hold it", value=v)
    ctx.check(T.typeof([], T.noderef_many(lname)) == T.noderef_many(lname), "the type of an empty list of references")
    other = doc.add_layer(gen.rname(rng, {lname}), s=T.string(None)).add()
    for bad in (object(), {1}, [1], ["x"], [ns[0], other], [other, ns[0]], [ns[0], other, ns[1]], [other, ns[0], other], None):
        ctx.rejects(lambda: T.typeof(bad), "a type was found for a value that no field can hold", value=repr(bad))
    # declarations
    sch = NodeLayerSchema("decl")
    names = set()
    fs = {gen.rname(rng, names): rng.choice(rng.choice(groups)) for _ in range(rng.randint(1, 4))}
    for f, t in fs.items():
        sch.add(f, t)
    dup = rng.choice(sorted(fs))
    ctx.rejects(lambda: sch.add(dup, T.string), "a field was declared twice")
    if dup not in ("self",):
        ctx.rejects(lambda: sch.set(**{dup: T.string}), "a field was declared twice")
    ctx.rejects(lambda: sch.add("new field", rng.choice(["str", 5, None, str])), "a field was declared with something that is no type")
    ctx.check(sch.fields == fs and list(sch.fields) == list(fs), "refused declarations changed a schema", fields=list(fs))
    ctx.seen("types", tuple(sorted(t.typename.name for t in fs.values())))


SCENARIOS = [("paths", paths, 500, 15000), ("nodes", nodes, 800, 30000), ("validity", validity, 700, 20000), ("types", types, 120, 3000)]
REQUIRED = {"access_paths_compared": 2000, "main_texts": 150, "main_text_kept": 80, "layers_removed": 230, "wrapper_reads": 200, "wrapper_writes": 200, "detached": 100, "identities": 400,
            "valid_nodes": 1500, "invalid_nodes": 200, "removed_nodes": 50, "types_compared": 20000, "types_of_values": 500, "defaults_given": 2000}
