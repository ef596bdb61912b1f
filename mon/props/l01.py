"""A layer behaves like an ordered list of nodes under every history of additions, removals, reorderings, compaction and encoding."""
from docria.codec import MsgpackCodec, JsonCodec
from docria.model import Document, DataTypes as T, Node, NodeList, NodeSpan

RULE = ("random histories (add, add existing, add_many, remove one/many in 9 argument forms, detach, del, retain, sort, compact, encode) over two "
        "layers of one document, run against a list model; after every operation the order, length, both ends, neighbours, membership, indices, "
        "slices and node data are compared; distinct = (operation, size, number of removed nodes since compaction) transitions")
ASSUMPTIONS = ["nodes given to add() and add_many() are not attached to a layer", "a layer is not changed while it is iterated lazily, apart from "
               "passing such an iterator to remove or retain"]


class Model:
    """Ordered list of the attached nodes of a layer, and what each node holds."""

    def __init__(self, layer):
        self.layer = layer
        self.nodes = []
        self.removed = 0

    def compacted(self):
        self.removed = 0


class World:
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.doc = Document()
        self.doc.maintext = "0123456789" * 3
        self.a = Model(self.doc.add_layer("a", k=T.int32(None), s=T.string(None), r=T.noderef("b"), d=T.int32(7)))
        self.b = Model(self.doc.add_layer("b", k=T.int32(None), t=T.span(), e=T.string("x"), z=T.bool(False)))
        self.a.defaults, self.b.defaults = {"d": 7}, {"e": "x", "z": False}
        self.models = [self.a, self.b]
        self.content = {}        # id(node) -> (node, expected dict)
        self.free = []           # dangling nodes, may be added again
        self.counter = 0
        self.trace = []

    def fields(self, m):
        self.counter += 1
        if self.rng.random() < .08:
            return {}
        f = {"k": self.rng.randint(0, 6)}
        if m is self.a:
            f["s"] = str(self.counter)
            if self.b.nodes and self.rng.random() < .3:
                f["r"] = self.rng.choice(self.b.nodes)
        elif self.rng.random() < .5:
            f["t"] = self.doc.maintext[3:self.rng.randint(3, 30)]
        if self.rng.random() < .2:
            f.update({"d": self.counter} if m is self.a else {"e": str(self.counter)})
        return f

    def filled(self, m, f):
        return dict(m.defaults, **f)

    def remember(self, n, f):
        self.content[id(n)] = (n, dict(f))

    def new_nodes(self, m, count):
        out = []
        for _ in range(count):
            if self.free and self.rng.random() < .4:
                n = self.free.pop(self.rng.randrange(len(self.free)))
                for k in list(n.keys()):
                    del n[k]
                f = self.fields(m)
                n.update(f)
            else:
                f = self.fields(m)
                n = Node(f)
            self.remember(n, f)
            out.append(n)
        return out

    def gone(self, m, nodes):
        ids = {id(n) for n in nodes}
        dropped = [n for n in m.nodes if id(n) in ids]
        m.nodes = [n for n in m.nodes if id(n) not in ids]
        m.removed += len(dropped)
        self.free.extend(dropped)
        if m is self.b:
            for n, f in self.content.values():
                if f.get("r") is not None and id(f["r"]) in ids:
                    f.pop("r")
                    del n["r"]

    # ----- operations
    def op_add(self, m):
        for _ in range(self.rng.choice([1, 1, 2, 5, 20])):
            f = self.fields(m)
            n = m.layer.add(**f)
            self.ctx.check(isinstance(n, Node), "add did not return the node")
            self.remember(n, self.filled(m, f))
            m.nodes.append(n)

    def op_add_nodes(self, m):
        ns = self.new_nodes(m, self.rng.choice([1, 2, 3, 17]))
        m.layer.add(*ns)
        m.nodes.extend(ns)

    def op_add_many(self, m):
        ns = self.new_nodes(m, self.rng.choice([0, 1, 2, 3, 17, 30]))
        arg = self.rng.choice([lambda: ns, lambda: tuple(ns), lambda: iter(ns), lambda: (x for x in ns), lambda: NodeList(ns)])()
        fill = self.rng.random() < .5
        m.layer.add_many(arg, default_fill=fill, full_validation=self.rng.random() < .7)
        m.nodes.extend(ns)
        if fill:
            for n in ns:
                self.remember(n, self.filled(m, self.content[id(n)][1]))

    def op_unset(self, m):
        """Take values of attached nodes away."""
        for n in self.pick(m, .3):
            every = self.rng.random() < .3
            for f in ["d", "e", "z", "s", "t", "k", "r"] if every else list(m.defaults) + ["s", "t"]:
                if f in self.content[id(n)][1] and (every or self.rng.random() < .6):
                    del n[f]
                    del self.content[id(n)][1][f]

    def op_remove_one(self, m):
        for _ in range(self.rng.choice([1, 1, 1, 3, 8])):
            if not m.nodes:
                return
            n = self.rng.choice([m.nodes[0], m.nodes[-1], self.rng.choice(m.nodes), self.rng.choice(m.nodes)])
            how = self.rng.randrange(3)
            if how == 0:
                m.layer.remove(n)
            elif how == 1:
                n.detach()
            else:
                del m.layer[n]
            self.gone(m, [n])

    def pick(self, m, share=None):
        share = self.rng.choice([0, .05, .2, .3, .5, .8, 1]) if share is None else share
        return [n for n in m.nodes if self.rng.random() < share]

    def argument(self, m, ns):
        """An iterable over ns in one of the forms a caller would use; returns (nodes, argument)."""
        rng = self.rng
        form = rng.randrange(9)
        self.ctx.ev("argument_form_%d" % form)
        if form == 0:
            return ns, list(ns)
        if form == 1:
            return ns, rng.sample(ns, len(ns))
        if form == 2:
            return ns, tuple(ns)
        if form == 3:
            return ns, set(ns)
        if form == 4:
            return ns, (n for n in ns)
        if form == 5:
            ids = {id(n) for n in ns}
            return ns, (n for n in m.layer if id(n) in ids)
        if form == 6:
            v = rng.randint(0, 6)
            q = m.layer[m.layer["k"] == v]
            return [n for n in m.nodes if n.get("k") == v], q
        if form == 7 and m.nodes:
            i = rng.randrange(len(m.nodes))
            j = rng.randrange(i, min(len(m.nodes), i + 12))
            return m.nodes[i:j + 1], NodeSpan(m.nodes[i], m.nodes[j])
        if form == 8 and rng.random() < .3:
            return list(m.nodes), m.layer
        return ns, NodeList(ns)

    def op_remove_many(self, m):
        ns, arg = self.argument(m, self.pick(m))
        if isinstance(arg, list) and not isinstance(arg, NodeList) and self.rng.random() < .3:
            arg.insert(self.rng.randint(0, len(arg)), None)
        if self.rng.random() < .7:
            m.layer.remove(arg)
        else:
            del m.layer[arg]
        self.gone(m, ns)

    def op_retain(self, m):
        ns, arg = self.argument(m, self.pick(m, self.rng.choice([0, .3, .5, .8, .95, 1])))
        if type(arg) is list and arg and self.rng.random() < .4:
            arg.extend(self.rng.choice(arg) for _ in range(3))
            self.rng.shuffle(arg)
        m.layer.retain(arg)
        ids = {id(n) for n in ns}
        self.gone(m, [n for n in m.nodes if id(n) not in ids])

    def op_sort(self, m):
        how = self.rng.randrange(4)
        if how == 0:
            key = lambda n: n.get("k", 3)
        elif how == 1:
            key = lambda n: -n.get("k", 0)
        elif how == 2:
            order = {id(n): self.rng.random() for n in m.nodes}
            key = lambda n: order[id(n)]
        else:
            order = {id(n): -p for p, n in enumerate(m.nodes)}
            key = lambda n: (n.get("k", 1) % 2, order[id(n)])
        m.layer.sort(key)
        m.nodes = sorted(m.nodes, key=key)

    def op_compact(self, m):
        m.layer.compact()
        m.compacted()

    def op_encode(self, m):
        if self.rng.random() < .5:
            d = MsgpackCodec.decode(MsgpackCodec.encode(self.doc))
        else:
            d = JsonCodec.decode(JsonCodec.encode(self.doc))
        for x in self.models:
            got = [(n.get("k"), n.get("s"), self.b_pos(d, n.get("r"))) for n in d[x.layer.name]]
            want = [(n.get("k"), n.get("s"), self.b_index(n.get("r"))) for n in x.nodes]
            self.ctx.equal(got, want, "serialized node order differs from the order of the layer", trace=self.trace)
            x.compacted()
        self.ctx.ev("encoded_in_history")

    @staticmethod
    def b_pos(d, r):
        return None if r is None else [k for k, n in enumerate(d["b"]) if n is r]

    def b_index(self, r):
        return None if r is None else [k for k, n in enumerate(self.b.nodes) if n is r]

    # ----- observation
    def same(self, got, want, what):
        self.ctx.check(len(got) == len(want) and all(x is y for x, y in zip(got, want)), what, trace=self.trace[-12:],
                       got=[self.tag(n) for n in got], want=[self.tag(n) for n in want])

    def tag(self, n):
        return None if n is None else "?" if id(n) not in self.content else dict(self.content[id(n)][1], r=None, t=None)

    def observe(self, full):
        for m in self.models:
            layer, want = m.layer, m.nodes
            check = self.ctx.check
            self.same(list(layer), want, "iteration order differs")
            check(len(layer) == len(want), "length of the layer differs", trace=self.trace[-12:], got=len(layer), want=len(want))
            check(layer.first() is (want[0] if want else None), "first() differs", trace=self.trace[-12:])
            check(layer.last() is (want[-1] if want else None), "last() differs", trace=self.trace[-12:])
            ids = [n.i for n in want]
            check(all(x < y for x, y in zip(ids, ids[1:])) and (not ids or ids[0] >= 0), "indices are not increasing in layer order",
                  trace=self.trace[-12:], ids=ids)
            for n in want if full or len(want) < 30 else self.rng.sample(want, 20):
                check(layer[n.i] is n, "a node's index does not lead to the node", trace=self.trace[-12:])
                check(not n.is_dangling() and n in layer, "an attached node is said to be dangling", trace=self.trace[-12:])
                check(layer[n] is n, "membership lookup failed")
            if not full:
                continue
            for k, n in enumerate(want):
                lft = want[k - 1] if k else None
                rgt = want[k + 1] if k + 1 < len(want) else None
                check(n.left is lft and layer.left(n) is lft, "left neighbour differs", trace=self.trace[-12:])
                check(n.right is rgt and layer.right(n) is rgt, "right neighbour differs", trace=self.trace[-12:])
            self.same(list(layer.to_list()), want, "to_list differs")
            if want:
                for _ in range(3):
                    i, j = sorted((self.rng.randrange(len(want)), self.rng.randrange(len(want))))
                    self.same(list(layer.iter_nodespan(want[i], want[j])), want[i:j + 1], "nodes between two nodes differ")
                    self.same(list(want[j].iter_span(want[i])), want[i:j + 1], "nodes between two nodes (given in reverse) differ")
                    a, b = sorted((self.rng.randint(0, ids[-1] + 3), self.rng.randint(0, ids[-1] + 3)))
                    self.same(list(layer[a:b]), [n for n in want if a <= n.i < b], "slice by index differs")
                self.same(list(layer[:]), want, "full slice differs")
                self.same(list(layer[ids[len(ids) // 2]:]), want[len(ids) // 2:], "open slice differs")
            if m.removed == 0 and self.rng.random() < .2:
                layer.compact()
            if self.trace and self.trace[-1][0] in ("compact", "sort", "retain") and self.trace[-1][1] == layer.name:
                check([n.i for n in want] == list(range(len(want))), "indices have gaps after compaction, sorting or retaining")
                for _ in range(3):
                    s = slice(self.rng.choice([None, self.rng.randint(-40, 40)]), self.rng.choice([None, self.rng.randint(-40, 40)]),
                              self.rng.choice([None, None, 1, 2, -1]))
                    self.same(list(layer[s]), want[s], "slice of a compacted layer differs from list slicing")
                self.ctx.ev("list_slices")
        self.ctx.ev("empty_nodes_at_ends", sum(not n for m in self.models for n in m.nodes[-1:] + m.nodes[:1]))
        for n, f in self.content.values():
            self.ctx.check(dict(n) == f, "the data of a node changed", trace=self.trace[-12:])
        for n in self.free:
            self.ctx.check(n.is_dangling() and n not in self.a.layer and n not in self.b.layer, "a removed node is still attached",
                           trace=self.trace[-12:])
            self.ctx.ev("dangling_observed")

    OPS = [("add", 3), ("add_nodes", 1), ("add_many", 2), ("remove_one", 4), ("remove_many", 3), ("retain", 1), ("sort", 1), ("compact", 1),
           ("unset", 1), ("encode", 1)]

    def step(self):
        names = [n for n, w in self.OPS for _ in range(w)]
        op = self.rng.choice(names)
        m = self.rng.choice([self.a, self.a, self.b])
        before = len(m.nodes)
        getattr(self, "op_" + op)(m)
        self.trace.append((op, m.layer.name, before, len(m.nodes)))
        self.ctx.ev("op_" + op)
        self.ctx.seen(op, before, len(m.nodes), min(m.removed, 30))


def history(ctx, rng):
    w = World(ctx, rng)
    steps = rng.choice([5, 10, 25, 40])
    for s in range(steps):
        w.step()
        w.observe(full=rng.random() < .5 or s == steps - 1)
    ctx.ev("histories")
    ctx.sample(w.trace[:12])


def shrinking(ctx, rng):
    """Many single removals from a large layer: crosses the automatic compaction again and again."""
    w = World(ctx, rng)
    m = w.a
    w.op_add_many(m)
    for _ in range(rng.choice([17, 18, 30, 64, 100])):
        f = w.fields(m)
        n = m.layer.add(**f)
        w.remember(n, w.filled(m, f))
        m.nodes.append(n)
    prev = None
    while m.nodes:
        n = rng.choice([m.nodes[0], m.nodes[-1], rng.choice(m.nodes)])
        m.layer.remove(n)
        w.gone(m, [n])
        w.trace.append(("remove", m.layer.name, len(m.nodes)))
        w.observe(full=rng.random() < .15)
        if m.nodes:
            ids = m.nodes[-1].i
            if prev is not None and ids < prev - 1:
                ctx.ev("indices_moved")
            prev = ids
        if rng.random() < .1:
            w.op_add(m)
    ctx.seen("shrunk", len(w.trace))


def large(ctx, rng):
    """Layers of many nodes, for limits that a few nodes do not reach."""
    w = World(ctx, rng)
    for m in rng.sample(w.models, rng.choice([1, 2])):
        ns = w.new_nodes(m, rng.choice([260, 1100, 1100, 4500]))
        fill = rng.random() < .5
        m.layer.add_many(ns, default_fill=fill)
        m.nodes.extend(ns)
        if fill:
            for n in ns:
                w.remember(n, w.filled(m, w.content[id(n)][1]))
        w.trace.append(("add", m.layer.name, 0, len(ns)))
    w.observe(full=False)
    if rng.random() < .6:
        # a wide gap
        size = rng.choice([len(m.nodes) // 5, len(m.nodes) // 5, len(m.nodes) // 3])
        at = rng.choice([0, len(m.nodes) - size, rng.randrange(len(m.nodes) - size)])
        block = m.nodes[at:at + size]
        m.layer.remove(block)
        w.gone(m, block)
        w.trace.append(("remove", m.layer.name, at, size))
        w.observe(full=True)
        ctx.ev("wide_gaps", size)
    for s in range(6):
        w.step()
        w.observe(full=s == 3)
    ctx.ev("large_layers")


def gap(ctx, rng):
    """A gap as wide as a layer keeps it: the nodes at its ends are neighbours."""
    doc = Document()
    layer = doc.add_layer("l", v=T.int32)
    size = rng.choice([300, 2500, 5000])
    layer.add_many([Node(v=k) for k in range(size)])
    nodes = list(layer)
    for _ in range(rng.randint(1, 3)):
        n = len(nodes)
        width = min(n - 2, rng.choice([n // 5, n // 5, n // 8, n // 3, 3]))
        at = rng.randint(1, n - 1 - width)
        a, b = nodes[at - 1], nodes[at + width]
        block = nodes[at:at + width]
        if rng.random() < .5:
            layer.remove(block)
        else:
            for x in block:
                layer.remove(x)
        del nodes[at:at + width]
        kept = b.i - a.i > 1
        ctx.check(a.left is (nodes[at - 2] if at > 1 else None) and a.right is b and layer.right(a) is b, "the nodes at a gap are not neighbours", size=n, width=width, at=at)
        ctx.check(b.left is a and layer.left(b) is a and b.right is (nodes[at + 1] if at + 1 < len(nodes) else None),
                  "the nodes at a gap are not neighbours", size=n, width=width, at=at)
        ctx.check(all(x is y for x, y in zip(layer, nodes)) and len(layer) == len(nodes), "iteration differs from the list", size=n, width=width)
        ctx.check(layer.last() is nodes[-1] and layer.first() is nodes[0],
                  "iteration differs from the list", size=n, width=width)
        for got in (list(layer.iter_nodespan(a, b)), list(a.iter_span(b)), list(NodeSpan(a, b))):
            ctx.check(len(got) == 2 and got[0] is a and got[1] is b, "the span over a gap holds other nodes", size=n, width=width, got=len(got))
        for x in block[::max(1, width // 7)]:
            ctx.check(x.is_dangling() and x not in layer, "a removed node is still attached", size=n, width=width)
        ctx.ev("gaps")
        ctx.ev("gaps_kept_wide", kept and width > 400)
        ctx.seen("gap", n, width, at)


SCENARIOS = [("history", history, 700, 30000), ("shrinking", shrinking, 25, 800), ("large", large, 16, 300), ("gap", gap, 30, 1000)]
REQUIRED = dict({"op_" + n: 100 for n, _ in World.OPS}, dangling_observed=1000, encoded_in_history=100, list_slices=100, indices_moved=20, empty_nodes_at_ends=500, large_layers=7, wide_gaps=700, gaps_kept_wide=6)
REQUIRED.update({"argument_form_%d" % k: 20 for k in range(9)})
