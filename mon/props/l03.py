"""Schemas can evolve on a live document, and the document stays encodable."""
from docria.codec import MsgpackCodec, JsonCodec
from docria.model import Document, DataTypes as T, DataTypeEnum, Node, NodeSpan

from mon import gen
from mon.snap import snap, canon_plain

RULE = ("random documents under random sequences of schema changes (add/remove field with every type and default, remove layer with and without "
        "cascade, new nodes in between) against a model of schema and data; the document is encoded and decoded along the way; "
        "distinct = change x field type x default x data present")
ASSUMPTIONS = ["default values are immutable values of the field's type"]


class Model:
    def __init__(self, doc):
        self.doc = doc
        self.schema = {name: dict(layer.schema.fields) for name, layer in doc.layers.items()}
        self.data = {name: [(n, dict(n)) for n in layer] for name, layer in doc.layers.items()}

    def observe(self, ctx, what):
        doc = self.doc
        ctx.equal(sorted(doc.layers), sorted(self.schema), "layers of the document differ", after=what)
        for name, fields in self.schema.items():
            layer = doc[name]
            ctx.equal({f: (t.typename.name, canon_plain(t.options)) for f, t in layer.schema.fields.items()},
                      {f: (t.typename.name, canon_plain(t.options)) for f, t in fields.items()}, "schema of the layer differs", after=what)
            nodes = list(layer)
            ctx.check(len(nodes) == len(self.data[name]) and all(n is m[0] for n, m in zip(nodes, self.data[name])),
                      "a schema change changed the nodes of a layer", after=what)
            for n, want in self.data[name]:
                ctx.check(set(n) == set(want) and all(same(n[f], want[f]) for f in want), "the data of a node is not what the schema change implies",
                          after=what, got=dict(n), want=want)
                ctx.check(n.is_valid(), "a node became invalid by a schema change", after=what)
            for f in fields:
                col = layer[f]
                ctx.check(f in list(layer.schema.fields) and len(col) == len(nodes) and
                          all(same(a, b[1].get(f)) for a, b in zip(col, self.data[name])), "field view differs", after=what, field=f)


def same(a, b):
    return a is b or (type(a) is type(b) and not isinstance(a, (list, Node)) and a == b)


def default_of(t):
    d = t.options.get("default")
    return d


def refs_to(model, layer):
    out = []
    for name, fields in model.schema.items():
        for f, t in fields.items():
            if t.options.get("layer") == layer and t.typename in (DataTypeEnum.NODEREF, DataTypeEnum.NODEREF_MANY, DataTypeEnum.NODEREF_SPAN):
                out.append((name, f))
    return out


def evolve(ctx, rng):
    opts = gen.Opts(max_layers=4, max_nodes=20, simple_names=True, props=False, wide=.05)
    doc = gen.document(rng, opts) if rng.random() < .985 else gen.long_document(rng, opts, sizes=[257, 513])
    if not doc.layers:
        doc.add_layer("only")
    m = Model(doc)
    trace = []
    for step in range(rng.choice([2, 5, 10, 15])):
        ops = ["add_field", "add_field", "add_field", "remove_field", "remove_missing", "add_existing", "add_node", "add_many", "remove_layer", "roundtrip",
               "add_layer", "unset"]
        op = rng.choice(ops)
        if not m.schema:
            op = "add_layer"
        name = rng.choice(sorted(m.schema)) if m.schema else None
        layer = doc[name] if name is not None else None
        note = None
        if op == "add_field":
            kind = rng.choice([k for k in gen.ALL if k != "span" or doc.texts])
            t = gen.rtype(rng, kind, doc.texts, sorted(m.schema))
            f = gen.rname(rng, set(m.schema[name]), simple=True)
            init = rng.random() < .7
            if rng.random() < .8:
                layer.add_field(f, t) if init and rng.random() < .5 else layer.add_field(f, t, init_with_default=init)
            else:
                layer.add_field(name=f, dtype=t, init_with_default=init)
            t = t() if callable(t) else t
            m.schema[name][f] = t
            d = default_of(t)
            if init and d is not None:
                for n, want in m.data[name]:
                    want[f] = d
                ctx.ev("existing_nodes_initialized", len(m.data[name]))
            note = (kind, d is not None, init)
        elif op == "remove_field":
            if not m.schema[name]:
                continue
            f = rng.choice(sorted(m.schema[name]))
            had = sum(1 for n, w in m.data[name] if f in w)
            r = layer.remove_field(f)
            ctx.check(r is True, "remove_field did not report the removal")
            t = m.schema[name].pop(f)
            for n, want in m.data[name]:
                want.pop(f, None)
            note = (t.typename.name, had > 0)
        elif op == "remove_missing":
            ctx.check(layer.remove_field("no such field!") is False, "remove_field reported a removal that cannot be")
            ctx.check(not doc.remove_layer("no such layer!"), "remove_layer reported a removal that cannot be")
        elif op == "add_existing":
            if not m.schema[name]:
                continue
            f = rng.choice(sorted(m.schema[name]))
            ctx.rejects(lambda: layer.add_field(f, T.string("other")), "a field was declared twice")
        elif op in ("add_node", "add_many"):
            fresh = {}
            for f, t in m.schema[name].items():
                if rng.random() < .4:
                    v = gen.rvalue(rng, t, doc)
                    if v is not None:
                        fresh[f] = v
            defaults = {f: default_of(t) for f, t in m.schema[name].items() if default_of(t) is not None}
            if op == "add_node" and "self" not in fresh:
                n = layer.add(**fresh)
                full = True
            else:
                n = Node(fresh)
                full = rng.random() < .7
                more = [Node() for _ in range(rng.choice([130, 600]) if rng.random() < .005 else 0)]
                layer.add_many(more + [n], default_fill=full)
                m.data[name].extend((x, dict(defaults) if full else {}) for x in more)
                ctx.ev("many_added", len(more))
            m.data[name].append((n, dict(defaults, **fresh) if full else dict(fresh)))
            ctx.ev("defaults_filled", len(set(defaults) - set(fresh)) if full else 0)
            note = (len(defaults), full)
        elif op == "unset":
            if not m.data[name]:
                continue
            n, want = rng.choice(m.data[name])
            for f in list(want):
                if rng.random() < .5:
                    del n[f]
                    del want[f]
        elif op == "remove_layer":
            refs = [r for r in refs_to(m, name) if r[0] != name]
            if refs and rng.random() < .5:
                ctx.rejects(lambda: doc.remove_layer(name), "a layer was removed although other layers refer to it")
                ctx.ev("refused_layer_removals")
                note = "refused"
            elif refs:
                kinds = sorted(m.schema[a][b].typename.name for a, b in refs)
                ctx.check(bool(doc.remove_layer(name, fieldcascade=True)), "remove_layer did not report the removal")
                for a, b in refs:
                    del m.schema[a][b]
                    for n, want in m.data[a]:
                        want.pop(b, None)
                del m.schema[name], m.data[name]
                ctx.ev("cascades")
                note = ("cascade", kinds)
            else:
                if rng.random() < .5:
                    ctx.check(bool(doc.remove_layer(name)), "remove_layer did not report the removal")
                else:
                    del doc[name]
                del m.schema[name], m.data[name]
                note = "plain"
        elif op == "add_layer":
            new = gen.rname(rng, set(m.schema), simple=True)
            doc.add_layer(new, v=T.int32(7))
            m.schema[new] = {"v": T.int32(7)}
            m.data[new] = []
        elif op == "roundtrip":
            want = snap(doc)
            out = MsgpackCodec.decode(MsgpackCodec.encode(doc)) if rng.random() < .6 else JsonCodec.decode(JsonCodec.encode(doc))
            ctx.equal(snap(out), want, "round trip after schema changes", trace=trace)
            ctx.ev("roundtrips")
            if rng.random() < .5:
                doc = out
                m2 = Model(doc)
                ctx.equal({k: {f: canon_plain(t.options) for f, t in v.items()} for k, v in m2.schema.items()},
                          {k: {f: canon_plain(t.options) for f, t in v.items()} for k, v in m.schema.items()}, "schema after the round trip")
                m = m2
        trace.append((op, name, repr(note)))
        ctx.ev("op_" + op)
        ctx.seen(op, note, len(m.data.get(name, ())) > 0)
        m.observe(ctx, trace)
    want = snap(doc)
    ctx.equal(snap(MsgpackCodec.decode(MsgpackCodec.encode(doc))), want, "round trip after schema changes", trace=trace)
    ctx.sample(trace[:10])


def leftover(ctx, rng):
    """Data left behind by remove_field(leave_data=True) makes the document unencodable until it is dropped or declared again."""
    doc = Document()
    kind = rng.choice(gen.SIMPLE)
    tb = gen.rtype(rng, kind, {}, ["l"])
    tb = tb() if callable(tb) else tb
    d = default_of(tb)
    l = doc.add_layer("l", a=T.int32(None), b=tb)
    nodes = [l.add(a=k) for k in range(rng.randint(0, 6))]
    for n in nodes:
        r = rng.random()
        if r < .5:
            n["b"] = gen.rvalue(rng, tb, doc)
        elif r < .7 and "b" in n:
            del n["b"]
    keep = [dict(n) for n in nodes]
    had = any("b" in n for n in nodes)
    ctx.check(l.remove_field("b", leave_data=True) is True, "remove_field")
    ctx.check(all(same_data(dict(n), k) for n, k in zip(nodes, keep)), "remove_field(leave_data=True) touched the data")
    ctx.check("b" not in l.schema.fields, "the removed field is still declared")
    extra = []
    for k in range(rng.choice([0, 0, 1, 3])):
        if rng.random() < .5:
            n = l.add(a=100 + k)
        else:
            n = Node(a=100 + k)
            l.add_many([n])
        extra.append(n)
        ctx.equal(dict(n), {"a": 100 + k}, "a node added after the removal of a field got the removed field", kind=kind, default=repr(d))
        ctx.ev("added_after_removal_with_default" if d is not None else "added_after_removal")
    keep += [dict(n) for n in extra]
    if had:
        ctx.rejects(lambda: MsgpackCodec.encode(doc), "data without a declared field was encoded")
        ctx.ev("leftovers_refused")
    else:
        MsgpackCodec.encode(doc)
    out = MsgpackCodec.decode(MsgpackCodec.encode(doc, extra_fields_ok=True))
    ctx.equal([dict(n) for n in out["l"]], [{"a": k["a"]} for k in keep], "undeclared data reached the encoded document")
    ctx.check("b" not in out["l"].schema.fields, "the removed field is declared in the encoded document")
    if rng.random() < .3:
        # clean up by hand instead
        for n in l:
            n.pop("b", None)
        out = MsgpackCodec.decode(MsgpackCodec.encode(doc))
        ctx.equal([dict(n) for n in out["l"]], [{"a": k["a"]} for k in keep], "the document differs after the left data was dropped")
        ctx.ev("leftovers_dropped")
        return
    if rng.random() < .3:
        # declared again as something else: every node gets the default, whatever it had
        other = rng.choice([T.string("dflt"), T.int32(41), T.float64(.25), T.bool(True), T.string(""), T.int64(0)])
        l.add_field("b", other)
        for n, k in zip(l, keep):
            ctx.check(same_data(dict(n), dict(k, b=other.default())), "a field added with a default did not initialize a node", got=dict(n), default=other.default(), left=k.get("b"))
        out = MsgpackCodec.decode(MsgpackCodec.encode(doc))
        ctx.check(all(same_data(dict(n), dict(k, b=other.default())) for n, k in zip(out["l"], keep)), "the document differs after the field was declared again")
        ctx.ev("leftovers_overwritten")
        return
    l.add_field("b", tb, init_with_default=False)
    out = MsgpackCodec.decode(MsgpackCodec.encode(doc))
    ctx.check(all(same_data(dict(n), k) for n, k in zip(out["l"], keep)), "declaring the field again did not bring its data back")
    ctx.equal(len(out["l"]), len(keep), "number of nodes")
    n = l.add(a=-1)
    ctx.check(same_data(dict(n), {"a": -1} if d is None else {"a": -1, "b": d}), "a node added after declaring the field again has the wrong values",
              got=dict(n), default=repr(d))
    ctx.seen("leftover", kind, d is not None, len(nodes), had)


def same_data(a, b):
    return canon_plain(a) == canon_plain(b)


SCENARIOS = [("evolve", evolve, 1200, 50000), ("leftover", leftover, 500, 10000)]
REQUIRED = {"op_" + k: 100 for k in ["add_field", "remove_field", "add_existing", "add_node", "add_many", "roundtrip", "remove_layer"]}
REQUIRED.update(many_added=200, existing_nodes_initialized=100, defaults_filled=100, refused_layer_removals=20, cascades=20, leftovers_refused=20, leftovers_dropped=20, leftovers_overwritten=60, added_after_removal_with_default=50)
