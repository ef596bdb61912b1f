"""Java layers and documents keep their nodes, order, references and schema through any history."""
import struct

from docria.codec import MsgpackCodec

from mon import gen, java
from mon.props.j01 import run

RULE = ("random histories of one Java document: layers, texts and fields added and removed (also in use, with and without cascade), nodes built, inserted, removed one by one and in bulk, "
        "kept, cleared, sorted, compacted, changed, encoded in between; after every operation the whole state is read through all access paths and compared with a list model, and "
        "encoded documents are read by Python; distinct = operation x outcome x shape of the layers")
ASSUMPTIONS = ["a node is in one layer at a time", "values are of the declared types", "layer names are not reused while the layer exists", "application node classes are read in J01"]

KINDS = ["i32", "i64", "f64", "i1", "str", "bin", "noderef", "noderef_array", "nodespan", "span"]


class Model:
    def __init__(self):
        self.layers = {}      # name -> [tags]
        self.schema = {}      # name -> {field: type}
        self.texts = {}
        self.nodes = []       # [layer name or None, fields, removed with its layer?]
        self.gone = set()
        self.made = 0
        self.long = False
        self.structural = False
        self.wide = False     # many fields, mostly to one text and one layer
        self.cascades = 0
        self.old = set()      # nodes of the documents before the last reload

    def attached(self, t):
        return self.nodes[t][0] is not None and t not in self.gone

    def clean(self):
        """Every value belongs to a field of its type."""
        for name, tags in self.layers.items():
            for t in tags:
                for f, v in self.nodes[t][1].items():
                    if v[2] != self.schema[name].get(f):
                        return False
        return True

    def dangling(self):
        """Does a value refer to something that is not where its field says?"""
        pos = {t: (name, k) for name, tags in self.layers.items() for k, t in enumerate(tags)}
        for name, tags in self.layers.items():
            for t in tags:
                for f, v in self.nodes[t][1].items():
                    ty = v[2]
                    if ty is None or ty != self.schema[name].get(f):
                        continue
                    if ty[0] in ("noderef", "noderef_array", "nodespan"):
                        target = ty[1]["layer"][1]
                        if any(x not in pos or pos[x][0] != target for x in v[1]):
                            return True
                        if ty[0] == "nodespan" and pos[v[1][0]] > pos[v[1][1]]:
                            return True
                    if ty[0] == "span" and v[1][0] not in self.texts:
                        return True
        return False

    def missing(self):
        """Fields that refer to layers or texts that are not there."""
        for fields in self.schema.values():
            for ty in fields.values():
                if ty[0] == "span" and ty[1]["context"][1] not in self.texts or "layer" in ty[1] and ty[1]["layer"][1] not in self.layers:
                    return True
        return False

    def image(self):
        pos = {t: ["ref", name, k] for name, tags in self.layers.items() for k, t in enumerate(tags)}
        layers = {}
        for name, tags in self.layers.items():
            nodes = []
            for t in tags:
                out = {}
                for f, v in self.nodes[t][1].items():
                    ty = v[2]
                    if ty[0] == "noderef":
                        out[f] = pos[v[1][0]]
                    elif ty[0] == "noderef_array":
                        out[f] = ["refs", [pos[x] for x in v[1]]]
                    elif ty[0] == "nodespan":
                        a, b = (pos[x][2] for x in v[1])
                        out[f] = ["nodespan", pos[v[1][0]], pos[v[1][1]], [["ref", ty[1]["layer"][1], k] for k in range(a, b + 1)]]
                    elif ty[0] == "span":
                        tx, a, b = v[1]
                        out[f] = ["span", tx, a, b, self.u16(tx, a, b)]
                    else:
                        out[f] = v[1]
                nodes.append(out)
            layers[name] = {"schema": {f: list(ty) for f, ty in self.schema[name].items()}, "len": len(tags), "nodes": nodes}
        return {"props": {}, "texts": dict(self.texts), "layers": layers}

    def u16(self, tx, a, b):
        return self.texts[tx].encode("utf-16-be", "surrogatepass")[2 * a:2 * b].decode("utf-16-be", "surrogatepass")


def ty_args(kind, target):
    if kind in ("noderef", "noderef_array", "nodespan"):
        return [kind, {"layer": ["str", target]}]
    if kind == "span":
        return [kind, {"context": ["str", target]}]
    return [kind, {}]


def some_type(rng, m, extra=()):
    kind = rng.choice(KINDS)
    if m.wide and rng.random() < .7:
        kind = rng.choice(["span", "span", "noderef", "noderef_array", "nodespan"])
        if kind == "span" and m.texts:
            return ty_args(kind, min(m.texts))
        if kind != "span" and m.layers:
            return ty_args(kind, min(m.layers))
    if kind == "span":
        if not m.texts:
            kind = "i32"
        else:
            return ty_args(kind, rng.choice(sorted(m.texts)))
    return ty_args(kind, rng.choice(sorted(m.layers) + list(extra)) if sorted(m.layers) + list(extra) else "l0")


def some_value(rng, m, ty):
    """(wire form for Java, model value) or None."""
    k = ty[0]
    if k == "i32":
        v = ["int", rng.choice([0, -1, 2 ** 31 - 1, -2 ** 31, rng.randint(-50, 50)])]
        return v, (v[0], v, ty)
    if k == "i64":
        v = ["int", rng.choice([2 ** 63 - 1, -2 ** 63, 2 ** 31, rng.randint(-2 ** 40, 2 ** 40), rng.randint(-9, 9)])]
        return ["long", v[1]], (v[0], v, ty)
    if k == "f64":
        v = ["float", struct.unpack(">q", struct.pack(">d", gen.rfloat(rng)))[0]]
        return v, (v[0], v, ty)
    if k == "i1":
        v = ["bool", rng.random() < .5]
        return v, (v[0], v, ty)
    if k == "str":
        v = ["str", gen.rstr(rng)]
        return v, (v[0], v, ty)
    if k == "bin":
        v = ["bytes", gen.rbytes(rng)[:2000]]
        return v, (v[0], v, ty)
    if k == "span":
        name = ty[1]["context"][1]
        if name not in m.texts:
            return None
        n = java.u16(m.texts[name])
        # offsets between characters
        cuts = [0]
        for ch in m.texts[name]:
            cuts.append(cuts[-1] + java.u16(ch))
        assert cuts[-1] == n
        a, b = sorted((rng.choice(cuts), rng.choice(cuts)))
        v = ["span", name, a, b]
        return v, ("span", (name, a, b), ty)
    target = ty[1]["layer"][1]
    tags = m.layers.get(target, [])
    if not tags:
        return None
    if k == "noderef":
        t = rng.choice(tags)
        return ["node", t], ("node", [t], ty)
    if k == "noderef_array":
        ts = [rng.choice(tags) for _ in range(rng.choice([1, 1, 2, 5]))]
        return ["nodes", ts], ("nodes", ts, ty)
    a, b = sorted((rng.randrange(len(tags)), rng.randrange(len(tags))))
    return ["nspan", tags[a], tags[b]], ("nspan", [tags[a], tags[b]], ty)


def fields_for(rng, m, name):
    wire, vals = {}, {}
    for f, ty in m.schema[name].items():
        if rng.random() < .6:
            r = some_value(rng, m, ty)
            if r:
                wire[f], vals[f] = r
    return wire, vals


REFUSED = object()
ANY = object()


def compactions(m):
    return {k: len(v) for k, v in m.layers.items()}


def insert_many(rng, m, name, n):
    ws, made = [], []
    for _ in range(n):
        w, v = fields_for(rng, m, name)
        m.nodes.append([name, v])
        made.append(len(m.nodes) - 1)
        ws.append(w)
    m.layers[name].extend(made)
    return ["insert many", name, ws], made


def step(rng, m, focus):
    """One operation: (operation, expected result) with the model changed accordingly."""
    names = sorted(m.layers)
    op = rng.choices(["layer", "text", "new", "insert", "add", "addAll", "remove", "remove object", "remove other", "removeAll", "removeAll layer", "retainAll", "retainAll mixed", "clear",
                      "sort", "sort failing", "compact", "nodespan", "set", "unset", "addField", "removeField", "remove layer", "remove text", "encode", "decoded", "validate",
                      "fresh document with same schema", "equality", "reload", "text again"],
                     [0, 0, 0, 1, 0, 2, 1, 0, 0, 3, .3, 3, 0, .5, 2, .5, 1, 3, 3, .5, 1, 2, 0, 0, 2, 2, .3, 0, 0, 1, 0] if m.long else
                     [4, 4, 1, 3, 1, 0, 1, 0, 0, 0, 0, .5, .3, .3, 0, 0, 0, .3, 3, 1, 8, 2, 3, 3, 1.5, 1.5, 1, .7, 0, 2, .6] if m.structural else
                     [2, 1, 2, 8, 3, 2, 6, 3, .3, 3, .5, 2.5, .5, .5, 1.5, .5, 2, 3, 5, 2, 1.2, .8, .5, .5, 3, 2, 1, .3, .7, .8, .3])[0]
    if op == "text" and len(m.texts) < 3 or not m.texts and rng.random() < .3:
        m.made += 1
        name = "t%d" % m.made
        m.texts[name] = gen.rstr(rng, 12)
        return ["text", name, m.texts[name]], None
    if op == "text again" and m.texts:
        return ["text", rng.choice(sorted(m.texts)), gen.rstr(rng, 12)], REFUSED
    if not names or op == "layer" and len(names) < 7:
        name = next("l%d" % k for k in range(9) if "l%d" % k not in m.layers)
        fields = {"n": ["i32", {}]}
        for k in range(rng.choice([0, 3, 9, 20] if m.wide else [0, 1, 2, 4])):
            fields["f%d" % k] = some_type(rng, m, [name] + (["l3"] if rng.random() < .1 else []))
        m.layers[name], m.schema[name] = [], fields
        return ["layer", name, dict(fields)], True
    name = focus if focus in m.layers and rng.random() < .7 else rng.choice(names)
    tags = m.layers[name]
    if m.long and rng.random() < .15 and tags:
        # many single removals
        ts = rng.sample(tags, rng.choice([1, len(tags) // 5, len(tags) // 2, len(tags)]))
        m.layers[name][:] = [t for t in tags if t not in set(ts)]
        for t in ts:
            m.nodes[t][0] = None
        return ["remove each", name, ts], None
    if m.long and rng.random() < .1:
        op = "insert many"
    if op == "insert many":
        return insert_many(rng, m, name, rng.choice([1, 40, 300]))
    if len(tags) > 100 and rng.random() < .15 and not m.long:
        op = "removeField"

    def detach(ts):
        for t in ts:
            m.layers[name].remove(t)
            m.nodes[t][0] = None

    def some(n=None):
        """Nodes, mostly of this layer."""
        pool = tags if tags and rng.random() < .85 else list(range(len(m.nodes)))
        return rng.sample(pool, min(len(pool), rng.choice([0, 1, 2, 5, 12, 30] if not m.long else [0, 5, 130, 260, 600, len(pool)]) if n is None else n))
    if op in ("insert", "new") and rng.random() < .04:
        r = some_value(rng, m, ["i32", {}])
        if "n" in m.schema[name]:
            return ["put twice", name, "n", r[0], rng.random() < .5], REFUSED
    if op == "insert" or op == "new":
        w, v = fields_for(rng, m, name)
        m.nodes.append([name if op == "insert" else None, v])
        if op == "insert":
            tags.append(len(m.nodes) - 1)
        return [op, name, w], len(m.nodes) - 1
    if op in ("add", "addAll"):
        free = [t for t in range(len(m.nodes)) if m.nodes[t][0] is None and t not in m.gone]
        if op == "add":
            pool = free if free and rng.random() < .8 else [t for t in range(len(m.nodes)) if m.nodes[t][0] != "?"]
            if not pool:
                return None
            t = rng.choice(pool)
            if m.nodes[t][0] is not None:
                return ["add", name, t], REFUSED
            m.nodes[t][0] = name
            tags.append(t)
            return ["add", name, t], True
        ts = rng.sample(free, min(len(free), rng.choice([0, 1, 3, 40, 400])))
        for t in ts:
            m.nodes[t][0] = name
            tags.append(t)
        return ["addAll", name, ts], bool(ts)
    if op in ("remove", "remove object"):
        pool = tags if tags and rng.random() < .9 else list(range(len(m.nodes)))
        if not pool:
            return None
        t = rng.choice(pool)
        if t in tags:
            detach([t])
            return [op, name, t], True
        return [op, name, t], REFUSED if op == "remove" else False
    if op == "remove other":
        return [op, name], False
    if op == "removeAll":
        ts = some()
        hit = [t for t in ts if t in tags]
        detach(hit)
        return [op, name, ts, rng.random() < .4], bool(hit)
    if op == "removeAll layer":
        other = rng.choice(names)
        hit = bool(tags) and other == name
        if other == name:
            detach(list(tags))
        return [op, name, other], hit
    if op == "retainAll":
        if rng.random() < .1 and len(m.nodes) > len(tags):
            t = rng.choice([x for x in range(len(m.nodes)) if x not in tags])
            return [op, name, some(2) + [t]], REFUSED
        keep = [t for t in rng.sample(tags, rng.choice([len(tags), len(tags) // 2, len(tags) // 4, 0, max(0, len(tags) - 1), rng.randint(0, len(tags))]))]
        drop = [t for t in tags if t not in keep]
        detach(drop)
        return [op, name, keep, rng.random() < .5], bool(drop)
    if op == "retainAll mixed":
        return [op, name, [t for t in some() if t in tags]], REFUSED
    if op == "clear":
        detach(list(tags))
        return [op, name], None
    if op == "sort":
        rev = rng.random() < .5
        key = [m.nodes[t][1]["n"][1][1] if "n" in m.nodes[t][1] else 0 for t in tags]
        if "n" not in m.schema[name] or any("n" in m.nodes[t][1] and m.nodes[t][1]["n"][0] != "int" for t in tags):
            return None
        order = sorted(range(len(tags)), key=lambda k: -key[k] if rev else key[k])
        m.layers[name][:] = [tags[k] for k in order]
        return [op, name, "n", rev], None
    if op == "sort failing":
        return [op, name, rng.randint(0, max(0, len(tags) - 2))], REFUSED if len(tags) > 30 else ANY
    if op == "compact":
        return [op, name], None
    if op == "nodespan":
        if not tags or rng.random() < .1:
            if len(m.nodes) < 2:
                return None
            a, b = rng.choice(range(len(m.nodes))), rng.choice(range(len(m.nodes)))
        else:
            a, b = rng.choice(tags), rng.choice(tags)
            if rng.random() < .7 and tags.index(a) > tags.index(b):
                a, b = b, a
        if a in tags and b in tags and tags.index(a) <= tags.index(b):
            want = tags[tags.index(a):tags.index(b) + 1]
            return [op, name, a, b], [want] * 4
        return [op, name, a, b], REFUSED
    if op == "set":
        if not tags:
            return None
        t = rng.choice(tags)
        f = rng.choice(sorted(m.schema[name]) or [None])
        r = f is not None and some_value(rng, m, m.schema[name][f])
        if not r:
            return None
        m.nodes[t][1][f] = r[1]
        return ["set", t, f, r[0]], None
    if op == "unset":
        if not m.nodes:
            return None
        t = rng.randrange(len(m.nodes))
        f = rng.choice(sorted(m.nodes[t][1]) or ["n"])
        m.nodes[t][1].pop(f, None)
        return ["unset", t, f], None
    if op == "addField":
        f = "f%d" % rng.randrange(24 if m.wide else 6)
        ty = some_type(rng, m)
        if f in m.schema[name]:
            return [op, name, f, ty], REFUSED
        m.schema[name][f] = ty
        return [op, name, f, ty], True
    if op == "removeField":
        f = "f%d" % rng.randrange(6)
        if len(tags) > 100:
            f = rng.choice([x for x in m.schema[name] if x != "n"] or [f])
        if m.schema[name].pop(f, None):
            for t in tags:
                m.nodes[t][1].pop(f, None)
        return [op, name, f], True
    if op in ("remove layer", "remove text"):
        if op == "remove text":
            if not m.texts:
                return None
            name = rng.choice(sorted(m.texts))

        def refers(ty):
            return ty[1].get("context", [0, 0])[1] == name if op == "remove text" else ty[1].get("layer", [0, 0])[1] == name
        users = {(x, f) for x, fs in m.schema.items() if op == "remove text" or x != name for f, ty in fs.items() if refers(ty)}
        how = rng.choice([None, False, True])
        cmd = [op, name] + ([] if how is None else [how])
        if users and not how:
            return cmd, REFUSED
        m.cascades = max(m.cascades, max([sum(1 for y, _ in users if y == x) for x in m.layers] or [0]))
        for x, f in users:
            del m.schema[x][f]
            for t in m.layers[x]:
                m.nodes[t][1].pop(f, None)
        if op == "remove text":
            del m.texts[name]
        else:
            m.gone.update(m.layers[name])
            del m.layers[name], m.schema[name]
        return cmd, True
    if op in ("encode", "decoded"):
        if m.missing():
            return [op], REFUSED
        if not m.clean():
            return [op], ANY
        if m.dangling():
            return [op], REFUSED
        return [op], m.image()
    if op == "reload":
        if m.missing() or not m.clean() or m.dangling():
            return None
        base = len(m.nodes)
        new, fresh = {}, []
        for name in names:
            for t in m.layers[name]:
                new[t] = base + len(fresh)
                fresh.append((name, t))
        for t in range(base):
            m.old.add(t)
            m.gone.add(t)
            if m.nodes[t][0] is None:
                m.nodes[t][0] = "?"
        for name, t in fresh:
            m.nodes.append([name, {f: (v[0], [new[x] for x in v[1]], v[2]) if v[0] in ("node", "nodes", "nspan") else v for f, v in m.nodes[t][1].items()}])
        for name in names:
            m.layers[name][:] = [new[t] for t in m.layers[name]]
        return [op], list(range(base, len(m.nodes)))
    if op == "validate":
        return [op], REFUSED if m.missing() else None
    if op == "equality":
        return [op], [[[[k], True, True, True] for k in range(len(m.nodes))], len(m.nodes)]
    if op == "fresh document with same schema":
        s = {x: {f: list(t) for f, t in fs.items()} for x, fs in m.schema.items()}
        return [op], [s, s, s]
    return None


def state(m):
    layers = []
    for name in sorted(m.layers):
        tags = m.layers[name]
        layers.append((name, list(tags), {f: list(t) for f, t in m.schema[name].items()}))
    nodes = []
    for t, (l, fields) in enumerate(m.nodes):
        f = {}
        for k, v in fields.items():
            if v[0] == "node":
                f[k] = ["node", v[1][0]]
            elif v[0] == "nodes":
                f[k] = ["nodes", list(v[1])]
            elif v[0] == "nspan":
                f[k] = ["nspan"] + list(v[1])
            elif v[0] == "span":
                f[k] = ["span", v[1][0], v[1][1], v[1][2]] if v[1][0] in m.texts and t not in m.old else None
            else:
                f[k] = v[1]
        nodes.append((l, t in m.gone, f))
    return layers, nodes, sorted(m.texts)


def look(ctx, want, got, **kw):
    layers, nodes, texts = want
    gl, gn, gt, gs = got
    ctx.equal([x["name"] for x in gl], [n for n, _, _ in layers], "the document has other layers", **kw)
    for x, (name, tags, schema) in zip(gl, layers):
        for path in ("iterator", "forEach", "stream", "typed", "array", "copy", "back"):
            ctx.equal(x[path], tags, "a layer gives other nodes, or in another order", path=path, layer=name, **kw)
        ctx.ev("long_layers_seen", len(tags) > 256)
        ctx.equal(sorted(x["contains"]), sorted(tags), "contains() is not what the layer holds", layer=name, **kw)
        ctx.check(x["size"] == len(tags) and x["empty"] == (not tags), "the size of a layer is wrong", layer=name, got=x["size"], want=len(tags), **kw)
        ctx.check(x["first"] == (tags[0] if tags else -1) and x["last"] == (tags[-1] if tags else -1), "first or last node of a layer", layer=name, **kw)
        ctx.check(all(a < b for a, b in zip(x["ids"], x["ids"][1:])) and all(i >= 0 for i in x["ids"]), "ids of nodes are not in order", ids=x["ids"], **kw)
        ctx.equal(x["schema"], schema, "the schema of a layer changed", layer=name, **kw)
        ctx.check(x["has"], "the layer is not found by its name", layer=name, **kw)
    ctx.equal(gs, {n: s for n, _, s in layers}, "the schema of the document is not that of its layers", **kw)
    ctx.equal(sorted(gt), texts, "the document has other texts", **kw)
    ctx.check(len(gn) == len(nodes), "nodes", **kw)
    for t, ((l, gone, f), (gl_, valid, gf)) in enumerate(zip(nodes, gn)):
        if not gone:
            ctx.check(gl_ == l and valid == (l is not None), "a node says it is in another layer", node=t, got=[gl_, valid], want=l, **kw)
        f = {k: v for k, v in f.items() if v is not None}
        gf = {k: v[:4] if v and v[0] == "span" else v for k, v in gf.items() if v is not None and not (v[0].startswith("span of") or v[0] == "span" and v[1] not in texts)}
        ctx.equal(java.nan(gf), java.nan(f), "a node has other values", node=t, **kw)


def long(ctx, rng):
    """Layers of hundreds and thousands of nodes, and operations on most of them at once."""
    m = Model()
    m.long = True
    ops, wants = [], []

    def do(r):
        ops.append(r[0])
        wants.append((r[1], state(m)))
    m.texts["t1"] = gen.rstr(rng, 12)
    do((["text", "t1", m.texts["t1"]], None))
    for name, count in (("l0", rng.choice([257, 300, 700, 1100])), ("l1", rng.choice([3, 130]))):
        fields = {"n": ["i32", {}]}
        for k in range(rng.choice([1, 2])):
            fields["f%d" % k] = some_type(rng, m, [name])
        m.layers[name], m.schema[name] = [], fields
        do((["layer", name, dict(fields)], True))
        do(insert_many(rng, m, name, count))
    play(ctx, rng, m, ops, wants, "l0", 14)
    ctx.ev("long_layers")


def histories(ctx, rng):
    m = Model()
    m.structural = rng.random() < .25
    m.wide = m.structural and rng.random() < .5
    play(ctx, rng, m, [], [], "l%d" % rng.randrange(2), rng.choice([8, 25, 60, 120]))
    ctx.ev("wide_cascades", m.cascades > 3)


def play(ctx, rng, m, ops, wants, focus, count):
    for _ in range(count):
        r = step(rng, m, focus)
        if r is None:
            continue
        op, result = r
        ops.append(op)
        wants.append((result, state(m)))
        if op[0] == "insert" and rng.random() < .15:
            # layers large enough to be compacted
            for _ in range(gen.size(rng, [5, 20, 30], [300])):
                w, v = fields_for(rng, m, op[1])
                m.nodes.append([op[1], v])
                m.layers[op[1]].append(len(m.nodes) - 1)
                ops.append(["insert", op[1], w])
                wants.append((len(m.nodes) - 1, None))
    out = run(ctx, "the history could not be run", "history", ops)
    before = None
    for k, (op, (result, st), (r, s)) in enumerate(zip(ops, wants, out)):
        kw = dict(operation=op, number=k, before=ops[max(0, k - 6):k])
        if result is REFUSED:
            ctx.check(not r[0], "an impossible operation was accepted", answer=str(r)[:500], **kw)
            ctx.ev("refused")
        elif result is not ANY:
            ctx.check(r[0], "an operation failed", refused=str(r)[:1200], **kw)
            if op[0] == "decoded":
                ctx.equal(java.nan(r[1]), java.nan(result), "Java reads another document than it wrote", **kw)
            elif op[0] == "encode":
                ctx.equal(java.nan(java.image(MsgpackCodec.decode(r[1]))), java.nan(result), "Python reads another document than Java wrote", **kw)
            elif op[0] == "reload":
                ctx.equal(r[1], result, "Java reads back another number of nodes", **kw)
                ctx.ev("reloaded_nodes", len(result))
            else:
                ctx.equal(r[1], result, "an operation gave another result", **kw)
        ctx.check(s[0], "the state could not be read", refused=str(s)[:1200], **kw)
        if st is not None:
            look(ctx, st, s[1], **kw)
            ctx.ev("states")
        ctx.ev("op_" + op[0].replace(" ", "_"))
        ctx.ev("encoded_with_removals", op[0] in ("encode", "decoded") and isinstance(result, dict))
        ctx.seen(op[0], r[0], tuple(min(len(x[1]), 20) for x in st[0]) if st else 0, len(op))
    if len(ctx.samples) < 3:
        ctx.sample({"operations": [o[:3] for o in ops[:10]]})


def repaired(ctx, rng):
    """A document that was refused is accepted once what it was refused for has been taken out - and then as often as one likes."""
    text = "".join(rng.choice(["a", "\xe5", "\U0001f600"]) for _ in range(rng.randint(1, 8))) + "\U0001f600"
    b16 = text.encode("utf-16-be")
    cuts, inside = [0], []
    for c in text:
        if ord(c) > 0xffff:
            inside.append(cuts[-1] + 1)
        cuts.append(cuts[-1] + java.u16(c))

    def span(a, b):
        return {"s": ["span", "main", a, b, b16[2 * a:2 * b].decode("utf-16-be", "replace")], "k": ["int", len(tags)]}
    ops = [["text", "main", text], ["layer", "l", {"s": ["span", {"context": ["str", "main"]}], "k": ["i32", {}]}]]
    tags, good, bad = [], [], []
    for _ in range(rng.randint(2, 12)):
        if rng.random() < .5:
            # several spans with one end within a character
            x = rng.choice(inside)
            s = (rng.choice([y for y in cuts + inside if y <= x]), x) if rng.random() < .5 or x + 1 == cuts[-1] else (x, rng.choice([y for y in cuts if y > x]))
            bad.append(len(tags))
        else:
            a, b = sorted((rng.choice(cuts[:-1]), rng.choice(cuts)))
            s = (a, b)
            good.append((len(tags), s))
        ops.append(["insert", "l", span(*s)])
        tags.append(s)
    start = len(ops)
    ops.append(["encode"])
    how = rng.choice(["removeAll", "remove", "unset", "clear"])
    if how == "removeAll":
        ops.append(["removeAll", "l", bad])
    elif how == "remove":
        ops += [["remove", "l", t] for t in bad]
    elif how == "unset":
        ops += [["unset", t, "s"] for t in bad]
    else:
        ops.append(["clear", "l"])
        good = []
    end = len(ops)
    ops += [["encode"]] * rng.randint(1, 2)
    out = run(ctx, "the history failed in Java", "history", ops)
    out = [r for r, _ in out]
    oks = [o[0] for o in out]
    ctx.check(all(oks[:start]), "a step was refused", ops=ops, answers=[str(o)[:300] for o, ok in zip(out, oks) if not ok])
    ctx.check(oks[start] == (not bad), "spans within characters were encoded" if bad else "a document was refused", text=text, spans=tags)
    ctx.ev("refused_first", int(bool(bad)))
    for o in out[end:]:
        ctx.check(o[0], "a document is refused after what it was refused for was taken out", text=text, spans=tags, removed=bad, how=how, refused=str(o)[:600])
        x = MsgpackCodec.decode(o[1])
        ctx.equal(str(x.texts["main"]), text, "the text is another one")
        ctx.equal([(n["k"], str(n["s"])) for n in x["l"] if "s" in n], [(t, b16[2 * a:2 * b].decode("utf-16-be")) for t, (a, b) in good], "other spans after a refusal")
        ctx.ev("accepted_then")
    ctx.seen("repaired", how, len(bad), len(good))


SCENARIOS = [("histories", histories, 400, 20000), ("repaired", repaired, 150, 5000), ("long", long, 40, 1500)]
REQUIRED = {"wide_cascades": 5, "refused_first": 60, "accepted_then": 130, "refused": 400, "states": 8000, "encoded_with_removals": 300, "op_sort": 100, "op_retainAll": 200, "op_removeAll": 250, "op_nodespan": 250, "op_remove_layer": 30, "op_remove_text": 30,
            "op_clear": 30, "op_sort_failing": 30, "op_fresh_document_with_same_schema": 15, "op_equality": 40, "op_validate": 60, "op_put_twice": 50, "op_removeField": 150, "long_layers": 20, "long_layers_seen": 150}
