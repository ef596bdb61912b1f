"""A refused change to a layer leaves the layer consistent, and unchanged wherever the whole change is refused."""
from docria.model import DataTypes as T, Document, Node, NodeList

from mon.props.l01 import World

RULE = ("random histories as in L01 with refused operations in between (15 kinds: invalid data, non-nodes, foreign, removed, already attached "
        "nodes, failing sort keys and iterators, misplaced neighbours); distinct = refused operation x size of layer x position of the culprit")
ASSUMPTIONS = ["a bulk operation that fails half-way may have processed some of the nodes it was given, but no others"]


class Boom(Exception):
    pass


def twin(w):
    """Nodes of another document with layers of the same names."""
    if not hasattr(w, "twin"):
        doc = Document()
        w.twin = (doc, {n: [doc.add_layer(n, k=T.int32(None)).add(k=0)] for n in ("a", "b")})
        for n, ns in w.twin[1].items():
            ns += [doc[n].add(k=k) for k in range(1, 12)]
    return w.twin[1]


def twin_unchanged(ctx, w):
    if hasattr(w, "twin"):
        doc, nodes = w.twin
        for name, ns in nodes.items():
            layer = doc[name]
            ctx.check(len(layer) == len(ns) and all(x is y and x.collection is layer and x.i == k == x["k"] for k, (x, y) in enumerate(zip(layer, ns))),
                      "a refused change of a layer changed another document", trace=w.trace[-10:])
        ctx.ev("same_name_elsewhere")


def culprit(w, m, rng, allow_none=False):
    """Something that cannot be removed from / retained in m."""
    other = w.b if m is w.a else w.a
    if rng.random() < .25:
        # a layer of the same name in another document
        return "foreign", rng.choice(twin(w)[m.layer.name])
    choice = [("dangling", Node(k=1)), ("not a node", rng.choice([42, "text", b"x", 1.5, {"k": 1}, object()]))]
    if other.nodes:
        choice.append(("foreign", rng.choice(other.nodes)))
    if w.free:
        choice.append(("removed", rng.choice(w.free)))
    return rng.choice(choice)


def refused(ctx, rng, w):
    m = rng.choice(w.models)
    layer = m.layer
    op = rng.choice(KINDS)
    where = None
    if op == "add_invalid":
        f = w.fields(m)
        f["k"] = rng.choice(["1", 1 << 40, 2.5, b"", [], None])
        ctx.rejects(lambda: layer.add(**f), "add accepted an invalid field value", field=f["k"])
    elif op == "add_not_node":
        ns = w.new_nodes(m, rng.randint(0, 3))
        args = list(ns)
        where = rng.randint(0, len(ns))
        args.insert(where, rng.choice([42, "x", None, {"k": 1}]))
        ctx.rejects(lambda: layer.add(*args), "add accepted something that is not a node")
        settle(ctx, w, m, ns)
    elif op == "add_many_invalid":
        ns = w.new_nodes(m, rng.randint(1, 20))
        bad = rng.choice(ns)
        where = ns.index(bad)
        bad["k"] = "wrong"
        w.remember(bad, dict(bad))
        ctx.rejects(lambda: layer.add_many(rng.choice([ns, iter(ns), tuple(ns)])), "add_many accepted an invalid field value")
        settle(ctx, w, m, ns)
        bad["k"] = 3
        w.remember(bad, dict(bad))
    elif op == "add_many_not_node":
        ns = w.new_nodes(m, rng.randint(0, 5))
        where = rng.randint(0, len(ns))
        args = ns[:where] + [rng.choice([42, "x", {"k": 1}])] + ns[where:]
        ctx.rejects(lambda: layer.add_many(args), "add_many accepted something that is not a node")
        settle(ctx, w, m, ns)
    elif op == "add_many_attached":
        src = rng.choice(w.models)
        if not src.nodes:
            return False
        bound = rng.choice(src.nodes if rng.random() < .7 else twin(w)[m.layer.name])
        ns = w.new_nodes(m, rng.randint(0, 5))
        where = rng.randint(0, len(ns))
        ctx.rejects(lambda: layer.add_many(ns[:where] + [bound] + ns[where:]), "add_many accepted a node which is attached already")
        settle(ctx, w, m, ns)
    elif op == "add_many_iterator_fails":
        ns = w.new_nodes(m, rng.randint(0, 5))

        def it():
            yield from ns
            raise Boom()
        try:
            layer.add_many(it())
            ctx.check(False, "the exception of the iterator was lost")
        except Boom:
            pass
        settle(ctx, w, m, ns)
    elif op == "remove_one":
        kind, c = culprit(w, m, rng)
        where = kind
        ctx.rejects(lambda: layer.remove(c) if not isinstance(c, (str, bytes, dict)) or len(c) else layer.remove(object()),
                    "remove accepted something that is not in the layer", kind=kind)
    elif op == "del_one":
        kind, c = culprit(w, m, rng)
        where = kind

        def do():
            del layer[c]
        ctx.rejects(do, "del accepted something that is not in the layer", kind=kind)
    elif op == "remove_many":
        ns = w.pick(m)
        kind, c = culprit(w, m, rng)
        where = (kind, rng.randint(0, len(ns)))
        args = list(ns)
        args.insert(where[1], c)
        ctx.rejects(lambda: layer.remove(args), "remove accepted a list with something that is not in the layer", kind=kind)
        partial_removal(ctx, w, m, ns)
    elif op == "remove_twice":
        if not m.nodes:
            return False
        ns = w.pick(m) or [m.nodes[0]]
        ctx.rejects(lambda: layer.remove(ns + [rng.choice(ns)]), "remove accepted the same node twice")
        partial_removal(ctx, w, m, ns)
    elif op == "remove_iterator_fails":
        ns = w.pick(m)

        def it():
            yield from ns
            raise Boom()
        try:
            layer.remove(it())
            ctx.check(False, "the exception of the iterator was lost")
        except Boom:
            pass
        partial_removal(ctx, w, m, ns)
    elif op == "retain":
        ns = w.pick(m)
        kind, c = culprit(w, m, rng)
        where = (kind, rng.randint(0, len(ns)))
        args = list(ns)
        args.insert(where[1], c)
        arg = rng.choice([args, tuple(args), iter(args)])
        ctx.rejects(lambda: layer.retain(arg), "retain accepted something that is not in the layer", kind=kind)
    elif op == "retain_iterator_fails":
        ns = w.pick(m)

        def it():
            yield from ns
            raise Boom()
        try:
            layer.retain(it())
            ctx.check(False, "the exception of the iterator was lost")
        except Boom:
            pass
    elif op == "retain_not_iterable":
        ctx.rejects(lambda: layer.retain(rng.choice([42, None, 1.5])), "retain accepted something that is not iterable")
    elif op == "sort":
        if not m.nodes:
            return False
        at = rng.choice(m.nodes)
        where = [n is at for n in m.nodes].index(True)

        def key(n):
            if n is at:
                raise Boom()
            return n.get("k", 0)
        try:
            layer.sort(key)
            ctx.check(False, "the exception of the sort key was lost")
        except Boom:
            pass
    elif op == "sort_incomparable":
        if len(m.nodes) < 2:
            return False
        at = rng.choice(m.nodes)
        ctx.rejects(lambda: layer.sort(lambda n: "x" if n is at else n.get("k", 0)), "sort accepted keys that cannot be compared")
    elif op == "neighbours":
        other = w.b if m is w.a else w.a
        c = rng.choice(other.nodes) if other.nodes and rng.random() < .5 else Node()
        fn = rng.choice([lambda: layer.left(c), lambda: layer.right(c), lambda: layer[c]])
        ctx.rejects(fn, "a lookup accepted a node that is not in the layer")
        if len(m.nodes) > 1:
            i, j = sorted(rng.sample(range(len(m.nodes)), 2))
            ctx.rejects(lambda: list(layer.iter_nodespan(m.nodes[j], m.nodes[i])), "a span was accepted in reverse order")
    elif op == "index":
        if m.nodes:
            ctx.rejects(lambda: layer[len(m.nodes) * 4 + 100], "an index outside of the layer was accepted")
    twin_unchanged(ctx, w)
    ctx.ev("refused_" + op)
    ctx.seen(op, min(len(m.nodes), 40), where)
    w.trace.append(("refused " + op, m.layer.name, repr(where)[:40], len(m.nodes)))
    return True


def settle(ctx, w, m, given):
    """After a bulk addition failed: the nodes it was given are attached (at the end, in order) or not, nothing else changed."""
    now = list(m.layer)
    old = m.nodes
    ctx.check(len(now) >= len(old) and all(x is y for x, y in zip(now, old)), "a failed addition changed other nodes", trace=w.trace[-10:])
    extra = now[len(old):]
    ids = {id(n): k for k, n in enumerate(given)}
    pos = [ids.get(id(n), -1) for n in extra]
    ctx.check(-1 not in pos and pos == sorted(set(pos)), "a failed addition left nodes that were not given, or in another order",
              trace=w.trace[-10:])
    m.nodes = now
    inside = {id(n) for n in extra}
    for n in given:
        if id(n) not in inside:
            ctx.check(n not in m.layer or n.collection is None, "a node claims to be in a layer that does not contain it", trace=w.trace[-10:])
            if n.is_dangling():
                w.free.append(n)
    ctx.ev("partial_additions" if extra else "clean_additions")


def partial_removal(ctx, w, m, given):
    now = {id(n) for n in m.layer}
    removed = [n for n in m.nodes if id(n) not in now]
    allowed = {id(n) for n in given}
    ctx.check(all(id(n) in allowed for n in removed), "a failed removal removed nodes that were not given", trace=w.trace[-10:])
    w.gone(m, removed)
    ctx.ev("partial_removals" if removed else "clean_removals")


KINDS = ["add_invalid", "add_not_node", "add_many_invalid", "add_many_not_node", "add_many_attached", "add_many_iterator_fails", "remove_one",
         "del_one", "remove_many", "remove_twice", "remove_iterator_fails", "retain", "retain_iterator_fails", "retain_not_iterable", "sort",
         "sort_incomparable", "neighbours", "index"]


def history(ctx, rng):
    w = World(ctx, rng)
    w.op_add(w.a)
    w.op_add(w.b)
    for s in range(rng.choice([5, 10, 25])):
        if rng.random() < .5:
            w.step()
            w.observe(full=False)
        else:
            refused(ctx, rng, w)
            w.observe(full=True)
    w.op_encode(w.a)
    w.observe(full=True)
    ctx.sample(w.trace[:12])


SCENARIOS = [("history", history, 900, 40000)]
REQUIRED = dict({"refused_" + k: 50 for k in KINDS}, same_name_elsewhere=1000, partial_additions=10, partial_removals=10)
