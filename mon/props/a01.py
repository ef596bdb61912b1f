"""Graph traversals visit every reachable node once, in breadth-first order with shortest depths, or in depth-first preorder."""
import itertools
import random as _random

from docria.algorithm import bfs, dfs, dfs_leaves, children_of, get_prop, chain
from docria.codec import MsgpackCodec
from docria.model import Document, DataTypes as T, Node, NodeList

from mon import gen

RULE = ("random graphs of nodes (cycles, self loops, multiple edges, shared subtrees, long chains, several fields) before and after a round trip, "
        "against a recursive reference traversal; distinct = (nodes, edges, reachable, leaves, filter)")
ASSUMPTIONS = ["the graph does not change during the traversal"]


def graph(ctx, rng):
    doc = Document()
    layer = doc.add_layer("g", one=T.noderef("g"), many=T.noderef_many("g"), two=T.noderef("g"), k=T.int32(None), out=T.noderef_many("h"))
    h = doc.add_layer("h", k=T.int32(None))
    n = gen.size(rng, [1, 2, 3, 5, 8, 20, 60], [150, 400, 1300], .03)
    nodes = [layer.add(k=k) for k in range(n)]
    extra = [h.add(k=1000 + k) for k in range(3)]
    style = rng.choice(["random", "random", "tree", "chain", "dense", "star"])
    for k, x in enumerate(nodes):
        if style == "tree" and k:
            p = nodes[rng.randrange(k)]
            p.setdefault("many", []).append(x)
            continue
        if style == "star" and k:
            nodes[rng.choice([0, 0, 0, k - 1])].setdefault("many", []).append(x)
            continue
        if style == "chain" and k:
            nodes[k - 1]["one"] = x
            continue
        if rng.random() < .5:
            x["one"] = rng.choice(nodes)
        if rng.random() < .3:
            x["two"] = rng.choice(nodes)
        if rng.random() < .5:
            x["many"] = [rng.choice(nodes) for _ in range(rng.choice([0, 1, 2, 3, 8 if style == "dense" else 2]))]
        if rng.random() < .2:
            x["out"] = [rng.choice(extra)]
    if rng.random() < .3:
        doc = MsgpackCodec.decode(MsgpackCodec.encode(doc))
        layer = doc["g"]
        nodes = list(layer)
        ctx.ev("decoded_graphs")
    for x in nodes:
        if rng.random() < .05:
            x[rng.choice(["one", "two", "many"])] = None
    return doc, layer, nodes


def kids(x, fields):
    out = []
    for f in fields:
        v = x.get(f)
        if isinstance(v, Node):
            out.append(v)
        elif v is not None:
            out.extend(v)
    return out


def traverse(ctx, rng):
    doc, layer, nodes = graph(ctx, rng)
    fields = rng.choice([["one"], ["many"], ["one", "many"], ["many", "one", "two"], ["two", "many"], ["many", "out"]])
    children = children_of(layer, *fields)
    for x in nodes:
        got = list(children(x))
        want = kids(x, fields)
        ctx.check(len(got) == len(want) and all(a is b for a, b in zip(got, want)), "children_of gives other children", fields=fields)
    if rng.random() < .3:
        children = lambda x: rng2_iter(kids(x, fields))
    start = rng.choice([nodes[0], rng.choice(nodes)])
    # reference
    order, seen = [], set()

    def rec(x):
        stack = [iter([x])]
        while stack:
            y = next(stack[-1], None)
            if y is None:
                stack.pop()
            elif id(y) not in seen:
                seen.add(id(y))
                order.append(y)
                stack.append(iter(kids(y, fields)))
    rec(start)
    depth = {id(start): 0}
    level, borders = [start], [start]
    while level:
        nxt = []
        for x in level:
            for c in kids(x, fields):
                if id(c) not in depth:
                    depth[id(c)] = depth[id(x)] + 1
                    nxt.append(c)
        borders += nxt
        level = nxt
    flt = rng.choice([None, None, lambda x: x["k"] % 2 == 0, lambda x: False, lambda x: x is not start])
    keep = flt or (lambda x: True)
    kw = {} if flt is None and rng.random() < .5 else {"is_result": flt}

    def same(got, want, what):
        ctx.check(len(got) == len(want) and all(a is b for a, b in zip(got, want)), what, got=[x["k"] for x in got][:40], want=[x["k"] for x in want][:40],
                  fields=fields, filtered=flt is not None)
    got = list(bfs(start, children, **kw))
    same([x for _, x in got], [x for x in borders if keep(x)], "breadth-first search visits other nodes, or in another order")
    ctx.equal([d for d, _ in got], [depth[id(x)] for x in borders if keep(x)], "depths of the breadth-first search are not the shortest distances")
    same(list(dfs(start, children, **kw)), [x for x in order if keep(x)], "depth-first search visits other nodes, or in another order")
    leaves = [x for x in order if not kids(x, fields)]
    same(list(dfs_leaves(start, children, **kw)), [x for x in leaves if keep(x)], "leaves differ")
    # lazy consumption
    take = rng.randint(0, 5)
    same(list(itertools.islice(dfs(start, children), take)), order[:take], "lazy depth-first search differs")
    ctx.ev("traversals")
    ctx.ev("visited", len(order))
    ctx.ev("unreached", len(nodes) - len([x for x in nodes if id(x) in seen]))
    ctx.ev("leaves", len(leaves))
    ctx.ev("cyclic", int(len(order) < sum(len(kids(x, fields)) for x in order)))
    ctx.seen(len(nodes), sum(len(kids(x, fields)) for x in nodes), len(order), len(leaves), flt is None, tuple(fields))
    ctx.sample({"fields": fields, "order": [x["k"] for x in order][:10], "nodes": len(nodes)})
    ctx.rejects(lambda: children_of(layer, rng.choice(["k", "no such field"])), "children_of accepted a field without references")
    ctx.rejects(lambda: children_of(layer, "one", "k"), "children_of accepted a field without references")
    ctx.rejects(lambda: children_of(layer), "children_of accepted no fields")
    x = rng.choice(nodes)
    ctx.check(get_prop("one", 7)(x) is (x["one"] if "one" in x else 7), "get_prop differs")
    ctx.equal(chain(get_prop("k"), lambda v: v * 2, str)(x), str(x["k"] * 2), "chain differs")


def rng2_iter(items):
    yield from items


def deep(ctx, rng):
    """A chain far longer than the recursion limit."""
    doc = Document()
    layer = doc.add_layer("g", one=T.noderef("g"))
    nodes = [layer.add() for _ in range(rng.choice([1500, 5000]))]
    for a, b in zip(nodes, nodes[1:]):
        a["one"] = b
    ch = children_of(layer, "one")
    ctx.check([x.i for x in dfs(nodes[0], ch)] == list(range(len(nodes))), "long chain, depth first")
    ctx.check([d for d, _ in bfs(nodes[0], ch)] == list(range(len(nodes))), "long chain, breadth first")
    ctx.check([x.i for x in dfs_leaves(nodes[0], ch)] == [len(nodes) - 1], "long chain, leaves")
    ctx.ev("long_chains")
    ctx.seen("chain", len(nodes))


SCENARIOS = [("traverse", traverse, 2000, 80000), ("deep", deep, 3, 20)]
REQUIRED = {"traversals": 1000, "visited": 4400, "unreached": 1000, "leaves": 500, "cyclic": 210, "decoded_graphs": 200, "long_chains": 1}
