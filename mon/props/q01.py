"""Queries select exactly the nodes whose data satisfies the condition, in order, over every kind of node collection."""
from mon import gen
import warnings

from docria.model import Document, DataTypes as T, Node, NodeSpan, NodeList

RULE = ("random predicates (12 kinds of leaf, combined with and/or/not up to depth 4) over layers with gaps, lists, spans, and queries of queries, "
        "compared with a naive filter over a separate record of the data, before and after the data changes; distinct = predicate structure x "
        "collection kind x (number of hits, number of nodes)")
ASSUMPTIONS = ["order comparisons are only asked of set fields (directly, or behind a has_value test)", "is_any is given hashable values, and not "
               "strings for a span field", "the result of a query is compared right after its creation and right after update()"]

warnings.simplefilter("ignore", DeprecationWarning)


class Data:
    def __init__(self, rng):
        self.rng = rng
        self.doc = Document()
        self.s = "".join(rng.choice("aab \n") for _ in range(30))
        self.doc.maintext = self.s
        self.layer = self.doc.add_layer("l", i=T.int32(None), f=T.float64(None), s=T.string(None), b=T.bool(None), sp=T.span(), r=T.noderef("o"),
                                        rs=T.noderef_many("o"), all=T.int32(None))
        self.other = self.doc.add_layer("o", v=T.int32)
        self.targets = [self.other.add(v=k) for k in range(4)]
        self.nodes = []
        self.vals = {}
        for _ in range(gen.size(rng, [0, 1, 5, 12, 40], [120, 1100, 5000] if rng.random() < .5 else [120], .01)):
            self.grow()

    def value(self, f):
        rng = self.rng
        if f in ("i", "all"):
            return rng.randint(-2, 3)
        if f == "f":
            return rng.choice([0.0, -0.0, 1.0, 1.5, -2.0, float("inf")])
        if f == "s":
            return rng.choice(["", "a", "b", "ab", "A", "\n"])
        if f == "b":
            return rng.random() < .5
        if f == "sp":
            a, b = sorted((rng.randint(0, 30), rng.randint(0, 30)))
            if rng.random() < .5:
                b = min(30, a + rng.randint(0, 3))
            return self.doc.maintext[a:b]
        if f == "r":
            return rng.choice(self.targets)
        if f == "rs":
            return [rng.choice(self.targets) for _ in range(rng.randint(0, 2))]

    def grow(self):
        d = {f: self.value(f) for f in ("i", "f", "s", "b", "sp", "r", "rs") if self.rng.random() < .7}
        d["all"] = self.value("all")
        n = Node(d)
        self.layer.add_many([n], default_fill=False)
        self.nodes.append(n)
        self.vals[id(n)] = d

    def change(self):
        for _ in range(self.rng.randint(1, 5)):
            op = self.rng.randrange(4)
            if op == 0 or not self.nodes:
                self.grow()
            elif op == 1:
                n = self.rng.choice(self.nodes)
                self.layer.remove(n)
                self.nodes.remove(n)
            else:
                n = self.rng.choice(self.nodes)
                f = self.rng.choice(["i", "s", "b", "f", "sp", "r"])
                if op == 2:
                    v = self.value(f)
                    n[f] = v
                    self.vals[id(n)][f] = v
                elif f in n:
                    del n[f]
                    del self.vals[id(n)][f]


def plain(v):
    """A span as (start, stop, string)."""
    return v


def leaf(d, rng, col):
    """(predicate, model over the recorded values of a node, description)"""
    k = rng.choice(["eq", "ne", "order", "guarded", "is_any", "is_none", "has_value", "filter", "cover", "intersect", "layer_filter", "eq_span", "eq_ref"])
    f = rng.choice(["i", "f", "s", "b", "all"])
    if k == "eq":
        v = rng.choice([d.value(f), d.value(f), None])
        return col[f] == v, lambda x: x.get(f) == v, "eq"
    if k == "ne":
        v = rng.choice([d.value(f), d.value(f), None])
        return col[f] != v, lambda x: not (x.get(f) == v), "ne"
    if k in ("order", "guarded"):
        f = "all" if k == "order" else rng.choice(["i", "f", "s"])
        v = d.value(f)
        op = rng.randrange(4)
        c = col[f]
        p = [lambda: c < v, lambda: c <= v, lambda: c > v, lambda: c >= v][op]()
        m = [lambda x: x < v, lambda x: x <= v, lambda x: x > v, lambda x: x >= v][op]
        name = "order%d" % op
        if k == "order":
            return p, lambda x: m(x[f]), name
        return col[f].has_value() & p, lambda x: x.get(f) is not None and m(x[f]), "guarded " + name
    if k == "is_any":
        vs = [d.value(f) for _ in range(rng.randint(0, 3))]
        if rng.random() < .1:
            vs += list(range(100, 100 + rng.choice([20, 100, 400])))
            rng.shuffle(vs)
        if rng.random() < .2:
            vs.append(None)
        return col[f].is_any(*vs), lambda x: any(x.get(f) == v for v in vs), "is_any"
    if k == "is_none":
        f = rng.choice(["i", "sp", "r", "rs", "s"])
        return col[f].is_none(), lambda x: x.get(f) is None, k
    if k == "has_value":
        f = rng.choice(["i", "sp", "r", "s", "b", "f"])
        return col[f].has_value(), lambda x: x.get(f) is not None, k
    if k == "filter":
        fn = rng.choice([lambda v: v is None or v == d_probe, lambda v: bool(v), lambda v: v])
        return col[f].filter(fn), lambda x: bool(fn(x.get(f))), k
    if k in ("cover", "intersect"):
        a, b = sorted((rng.randint(0, 30), rng.randint(0, 30)))
        if k == "cover":
            return col["sp"].covered_by(a, b), lambda x: "sp" in x and a <= x["sp"].start and x["sp"].stop <= b, k
        return col["sp"].intersected_by(a, b), lambda x: "sp" in x and x["sp"].start < b and a < x["sp"].stop, k
    if k == "layer_filter":
        g = rng.choice(["i", "s", "b"])
        fn = lambda p, q: (p == q) or p is None
        return d.layer.filter(f, g, fn=fn), lambda x: bool(fn(x.get(f), x.get(g))), k
    if k == "eq_span":
        if rng.random() < .5:
            v = rng.choice(["a", "b", "", "aa", " "])
            return col["sp"] == v, lambda x: "sp" in x and d.s[x["sp"].start:x["sp"].stop] == v, "span == string"
        v = d.value("sp")
        return col["sp"] == v, lambda x: "sp" in x and (x["sp"].start, x["sp"].stop) == (v.start, v.stop), "span == span"
    v = rng.choice(d.targets)
    if rng.random() < .5:
        return col["r"] == v, lambda x: x.get("r") is v, "ref =="
    vs = rng.sample(d.targets, 2)
    return col["r"].is_any(*vs), lambda x: any(x.get("r") is t for t in vs), "ref is_any"


d_probe = 1


def tree(d, rng, col, depth):
    r = rng.random()
    if depth == 0 or r < .35:
        return leaf(d, rng, col)
    if r < .55:
        p, m, s = tree(d, rng, col, depth - 1)
        return ~p, lambda x: not m(x), "~(%s)" % s
    p, m, s = tree(d, rng, col, depth - 1)
    if rng.random() < .1:
        q, n, t = (lambda node: "i" in node), (lambda x: "i" in x), "lambda"
    else:
        q, n, t = tree(d, rng, col, depth - 1)
    if r < .78:
        return p & q, lambda x: m(x) and n(x), "(%s & %s)" % (s, t)
    return p | q, lambda x: m(x) or n(x), "(%s | %s)" % (s, t)


def same(ctx, got, want, message, **kw):
    got = list(got)
    ctx.check(len(got) == len(want) and all(a is b for a, b in zip(got, want)), message,
              got=[g.get("all") for g in got], want=[g.get("all") for g in want], **kw)


def query(ctx, rng):
    d = Data(rng)
    if rng.random() < .5:
        for _ in range(rng.randint(0, len(d.nodes))):
            n = rng.choice(d.nodes)
            d.layer.remove(n)
            d.nodes.remove(n)
    kind = rng.choice(["layer", "list", "span", "query", "slice", "shuffled"])
    src = list(d.nodes)
    col = d.layer
    if kind == "list":
        col = d.layer.to_list()
    elif kind == "slice":
        a = rng.randint(0, 20)
        col = d.layer[a:]
        src = [n for n in d.nodes if n.i >= a]
    elif kind == "shuffled":
        rng.shuffle(src)
        col = NodeList(src, fieldtypes=d.layer.schema.fields)
    elif kind == "span":
        if not d.nodes:
            return
        i, j = sorted((rng.randrange(len(src)), rng.randrange(len(src))))
        col = NodeSpan(src[i], src[j])
        src = src[i:j + 1]
    elif kind == "query":
        p, m, s = tree(d, rng, d.layer, 1)
        col = d.layer[p]
        inner = m
        src = [n for n in src if m(d.vals[id(n)])]
        same(ctx, col, src, "query gave other nodes", predicate=s)
    p, m, s = tree(d, rng, col, rng.randint(0, 4))
    expect = [n for n in src if m(d.vals[id(n)])]
    for n in src:
        ctx.check(bool(p(n)) == bool(m(d.vals[id(n)])), "a predicate is wrong about a node", predicate=s, node=d.vals[id(n)])
    q = col[p]
    same(ctx, q, expect, "query gave other nodes", predicate=s, collection=kind)
    ctx.check(len(q) == len(expect), "length of a query differs", predicate=s)
    ctx.check(q.first() is (expect[0] if expect else None), "first of a query", predicate=s)
    ctx.check(q.last() is (expect[-1] if expect else None), "last of a query", predicate=s)
    same(ctx, q.to_list(), expect, "to_list of a query")
    same(ctx, q, expect, "a query gave other nodes the second time")
    ctx.equal(list(q["all"]), [n["all"] for n in expect], "field of a query")
    ctx.equal({id(n): dict(n) for n in src}, {id(n): d.vals[id(n)] for n in src}, "a query changed the data")
    repr(q), repr(p)
    ctx.ev("queries")
    ctx.ev("queries_over_" + kind)
    ctx.ev("hits", len(expect))
    ctx.ev("misses", len(src) - len(expect))
    for w in ("eq", "ne", "order0", "order1", "order2", "order3", "is_any", "is_none", "has_value", "filter", "cover", "intersect", "layer_filter", "span ==",
              "ref", "~", "&", "|"):
        if w in s:
            ctx.ev("uses " + w)
    ctx.seen(s, kind, len(expect), len(src))
    # after changes, an update asks the same collection again: the layer as it is now, and any other collection as it was made
    d.change()
    same(ctx, q, expect, "a query changed without being updated", predicate=s, collection=kind)
    if kind == "span":
        ends = [id(n) for n in d.nodes]
        if id(src[0]) not in ends or id(src[-1]) not in ends:
            return
        src = d.nodes[ends.index(id(src[0])):ends.index(id(src[-1])) + 1]
    elif kind == "query" and rng.random() < .5:
        col.update()
        src = [n for n in d.nodes if inner(d.vals[id(n)])]
        same(ctx, col, src, "updated query gave other nodes", predicate="the inner one")
    elif kind == "layer":
        src = list(d.nodes)
    q.update()
    expect = [n for n in src if m(d.vals[id(n)])]
    same(ctx, q, expect, "updated query gave other nodes", predicate=s, collection=kind)
    ctx.check(len(q) == len(expect), "length of an updated query")
    ctx.ev("updates")
    ctx.ev("updates_over_" + kind)
    ctx.sample({"predicate": s, "collection": kind, "hits": len(expect), "of": len(src)})


SCENARIOS = [("query", query, 4000, 200000)]
REQUIRED = {"hits": 2000, "misses": 2000, "updates": 200}
REQUIRED.update({"uses " + w: 60 for w in ("eq", "ne", "order0", "order1", "order2", "order3", "is_any", "is_none", "has_value", "filter", "cover", "intersect",
                                           "layer_filter", "span ==", "ref", "~", "&", "|")})
REQUIRED.update({"queries_over_" + k: 100 for k in ["layer", "list", "span", "query", "slice", "shuffled"]})
REQUIRED.update({"updates_over_" + k: 100 for k in ["layer", "list", "span", "query", "slice", "shuffled"]})
