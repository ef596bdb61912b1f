"""Grouping by span assigns every node to exactly the groups it intersects (or is covered by)."""
import itertools

from docria.algorithm import group_by_span
from docria.model import Document, DataTypes as T, Node, NodeList

RULE = ("random and exhaustive small sets of group spans and layer spans (empty, nested, touching, identical, unset, several layers, own field "
        "names), both resolutions, with and without empty groups, against pairwise comparison; distinct = set of pairwise relations met in a case")
ASSUMPTIONS = ["an empty span belongs to the spans [a, b) with a <= p < b, and to empty spans at the same place", "a group node is given once",
               "no order is promised among the nodes of a group"]


def inter(a, b, c, d):
    if a == b and c == d:
        return a == c
    if a == b:
        return c <= a < d
    if c == d:
        return a <= c < b
    return a < d and c < b


def relation(a, b, c, d):
    cmp = lambda x, y: (x > y) - (x < y)
    return cmp(a, c), cmp(a, d), cmp(b, c), cmp(b, d), a == b, c == d


def once(rng, nodes):
    """The nodes as something that can be read only once, or that is computed while it is read."""
    nodes = list(nodes)
    return rng.choice([lambda: iter(nodes), lambda: (n for n in nodes), lambda: map(lambda n: n, nodes), lambda: filter(lambda n: True, nodes)])()


def compare(ctx, groups, layers, gf, lf, resolution, empty, explicit_defaults, sig, stream=None):
    kw = {}
    if resolution != "intersect" or explicit_defaults:
        kw["resolution"] = resolution
    if gf != "text" or explicit_defaults:
        kw["group_span_field"] = gf
    if any(v != "text" for v in lf.values()) or explicit_defaults:
        kw["layer_span_field"] = lf
    if not empty or explicit_defaults:
        kw["include_empty_groups"] = empty
    given = layers
    if stream:
        given = {name: once(stream, nodes) for name, nodes in layers.items()}
        ctx.ev("nodes_given_once")
    out = group_by_span(groups, given, **kw)
    want = {}
    for g in groups:
        gs = g.get(gf)
        if gs is None:
            continue
        d = {}
        for name, nodes in layers.items():
            hit = []
            for n in nodes:
                s = n.get(lf[name])
                if s is None:
                    continue
                ok = inter(s.start, s.stop, gs.start, gs.stop)
                if ok and resolution == "cover":
                    ok = gs.start <= s.start and s.stop <= gs.stop
                if ok:
                    hit.append(id(n))
            d[name] = sorted(hit)
        if empty or any(d.values()):
            want[id(g)] = d
    got = {}
    for g, d in out:
        ctx.check(id(g) not in got, "a group appears twice")
        got[id(g)] = {name: sorted(map(id, v)) for name, v in d.items()}
    names = {}
    for g in groups:
        names[id(g)] = "group %s" % (span(g.get(gf)),)
    for name, nodes in layers.items():
        for n in nodes:
            names[id(n)] = "%s %s" % (name, span(n.get(lf[name])))
    show = lambda m: {names[k]: {a: [names.get(x, "?") for x in b] for a, b in v.items()} for k, v in m.items()}
    ctx.check(got == want, "the groups differ", resolution=resolution, include_empty=empty, got=show(got), want=show(want))
    ctx.ev("groupings_" + resolution)
    ctx.ev("groups", len(want))
    ctx.ev("members", sum(len(v) for d in want.values() for v in d.values()))
    ctx.ev("empty_groups", sum(1 for d in want.values() if not any(d.values())))
    ctx.seen(sig, resolution, empty)


def span(s):
    return None if s is None else (s.start, s.stop)


def random_case(ctx, rng):
    doc = Document()
    big = rng.random() < .01
    L = rng.choice([0, 1, 4, 8, 30]) if not big else rng.choice([300, 2000])
    doc.maintext = "x" * L

    def rs():
        a = rng.randint(0, L)
        b = a if rng.random() < .25 else min(L, a + rng.choice([0, 1, 1, 2, 3, 6, 15]))
        return doc.maintext[a:b]
    ctx.ev("large_cases", big)
    gf = rng.choice(["text", "text", "gspan"])
    gl = doc.add_layer("groups", text=T.span(), gspan=T.span())
    groups = []
    for _ in range(rng.choice([0, 1, 2, 4, 8]) if not big else rng.choice([20, 120])):
        n = gl.add()
        r = rng.random()
        if r < .88:
            n[gf] = rs()
        elif r < .92:
            n[gf] = None
        groups.append(n)
    lf, layers = {}, {}
    for name in rng.sample(["token", "entity", "groups2", ""], rng.choice([0, 1, 1, 2, 3])):
        layer = doc.add_layer(name, text=T.span(), other=T.span())
        lf[name] = rng.choice(["text", "text", "other"])
        nodes = []
        for _ in range(rng.choice([0, 1, 3, 8, 20]) if not big else rng.choice([30, 150, 1100])):
            n = layer.add()
            r = rng.random()
            if r < .9:
                n[lf[name]] = rs()
            elif r < .94:
                n[lf[name]] = None
            if rng.random() < .3:
                n["other" if lf[name] == "text" else "text"] = rs()
            nodes.append(n)
        rng.shuffle(nodes)
        layers[name] = rng.choice([lambda: nodes, lambda: layer, lambda: NodeList(nodes), lambda: tuple(nodes)])()
    rng.shuffle(groups)
    if rng.random() < .12 and layers:
        # the same nodes under two names, by the same or another field
        src = rng.choice(sorted(layers))
        layers["again"] = rng.choice([lambda: layers[src], lambda: list(layers[src])[:rng.randint(0, 8)]])()
        lf["again"] = lf[src] if rng.random() < .6 else "other" if lf[src] == "text" else "text"
        ctx.ev("nodes_under_two_names", len(list(layers["again"])))
    if rng.random() < .1 and groups:
        # grouping nodes among themselves
        layers["self"] = list(groups)
        lf["self"] = gf
    sig = frozenset(relation(n[lf[k]].start, n[lf[k]].stop, g[gf].start, g[gf].stop) for k, v in layers.items() for n in v for g in groups
                    if n.get(lf[k]) is not None and g.get(gf) is not None)
    for resolution in ("intersect", "cover"):
        for empty in (True, False):
            compare(ctx, groups, layers, gf, lf, resolution, empty, rng.random() < .5, tuple(sorted(sig)), rng if rng.random() < .25 else None)
    if layers and rng.random() < .2:
        missing = dict(lf)
        missing.pop(rng.choice(sorted(missing)))
        ctx.rejects(lambda: group_by_span(groups, layers, group_span_field=gf, layer_span_field=missing), "a layer without a span field was accepted")
    ctx.sample({"groups": [span(g.get(gf)) for g in groups], "layers": {k: [span(n.get(lf[k])) for n in v][:6] for k, v in layers.items()}})


def exhaustive(ctx, rng):
    """Every pair of spans, and every triple of one group and two nodes, over a text of four characters."""
    doc = Document()
    doc.maintext = "abcd"
    spans = list(itertools.combinations_with_replacement(range(5), 2))
    for g in spans:
        for n, m in itertools.combinations_with_replacement(spans, 2):
            G = Node(text=doc.maintext[g[0]:g[1]])
            N = [Node(text=doc.maintext[n[0]:n[1]]), Node(text=doc.maintext[m[0]:m[1]])]
            for resolution in ("intersect", "cover"):
                compare(ctx, [G], {"l": N}, "text", {"l": "text"}, resolution, True, False, (relation(*n, *g), relation(*m, *g)))
    for g, h in itertools.product(spans, repeat=2):
        for n in spans:
            G = [Node(text=doc.maintext[g[0]:g[1]]), Node(text=doc.maintext[h[0]:h[1]])]
            N = [Node(text=doc.maintext[n[0]:n[1]])]
            compare(ctx, G, {"l": N}, "text", {"l": "text"}, rng.choice(["intersect", "cover"]), True, False, (relation(*n, *g), relation(*n, *h)))


SCENARIOS = [("random_case", random_case, 1500, 80000), ("exhaustive", exhaustive, 1, 1)]
REQUIRED = {"groupings_intersect": 3000, "groupings_cover": 3000, "groups": 10000, "members": 10000, "empty_groups": 1000, "nodes_under_two_names": 200, "nodes_given_once": 500}
