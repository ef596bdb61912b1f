"""Node lists: selecting from them, and the field types that lists over several sources expose."""
from mon import gen
from docria.model import Document, DataTypes as T, DataTypeEnum, Node, NodeList

RULE = ("random lists of nodes from several layers and unattached nodes: slices, index lists, ends, field views against a plain list; field types "
        "of mixed lists against the type order bool < i32 < i64 < f64; distinct = (selection, size) and (set of merged types)")
ASSUMPTIONS = ["unattached nodes hold plain values (string, bool, int, float, bytes)"]

E = DataTypeEnum
ORDER = [E.BOOL, E.I32, E.I64, E.F64]
MAKE = {E.BOOL: T.bool, E.I32: T.int32, E.I64: T.int64, E.F64: T.float64, E.STRING: T.string}
VALUE = {E.BOOL: True, E.I32: 7, E.I64: 1 << 40, E.F64: .5, E.STRING: "x"}


def selection(ctx, rng):
    doc = Document()
    layers = [doc.add_layer("l%d" % k, v=T.int32(None), s=T.string(None), **{"own%d" % k: T.int32(None)}) for k in range(rng.randint(1, 3))]
    pool = []
    for l in layers:
        for k in range(gen.size(rng, [0, 1, 3, 8], [120, 1100], .01)):
            pool.append(l.add(v=len(pool), s=str(len(pool))))
    for k in range(rng.choice([0, 0, 2])):
        pool.append(Node(v=len(pool), s=str(len(pool))))
    want = [rng.choice(pool) for _ in range(gen.size(rng, [0, 1, 4, 10], [120, 1100], .02))] if pool else []
    lst = NodeList(rng.choice([list, tuple, iter])(want))
    # (type of v, fields of some of the layers): a selection knows the fields of the list it was made from
    known = (lst["v"].dtype.typename, sorted({f for n in want if n.collection is not None for f in n.collection.schema.fields})) if want else None
    for _ in range(rng.randint(1, 4)):
        def same(got, exp, what):
            ctx.check(len(got) == len(exp) and all(a is b for a, b in zip(got, exp)), what, got=[n["v"] for n in got], want=[n["v"] for n in exp])
        same(list(lst), want, "a node list differs from its nodes")
        ctx.check(len(lst) == len(want), "length differs")
        ctx.check(lst.first() is (want[0] if want else None) and lst.last() is (want[-1] if want else None), "ends of a node list differ")
        for k in range(-len(want), len(want)):
            ctx.check(lst[k] is want[k], "index differs")
        ctx.rejects(lambda: lst[len(want)], "index outside of the list")
        outside = rng.choice([len(want), -len(want) - 1, len(want) + rng.randint(0, 9), -len(want) - rng.randint(2, 9)])
        some = [rng.randrange(-len(want), len(want)) for _ in range(rng.randint(0, 3))] if want else []
        some.insert(rng.randint(0, len(some)), outside)
        ctx.rejects(lambda: lst[outside], "index outside of the list", index=outside)
        ctx.rejects(lambda: lst[some], "a list of positions with one outside of the list", positions=some, size=len(want))
        ctx.ev("outside_refused")
        if known:
            ctx.equal(lst["v"].to_list(), [n.get("v") for n in want], "field view of a list differs")
            ctx.check(lst["v"].dtype.typename == known[0], "a selection has another field type", got=lst["v"].dtype.typename)
            for f in known[1]:
                ctx.equal(lst[f].to_list(), [n.get(f) for n in want], "field of a selection differs", field=f)
            ctx.ev("fields_of_emptied_lists", int(not want))
        if want:
            hits = lst[lst["v"] == want[0]["v"]]
            same(list(hits), [n for n in want if n["v"] == want[0]["v"]], "query over a list differs")
        if rng.random() < .6 or not want:
            far = 12 if len(want) < 100 or rng.random() < .5 else len(want)
            s = slice(rng.choice([None, rng.randint(-far, far)]), rng.choice([None, rng.randint(-far, far)]), rng.choice([None, None, 1, 2, -1, 3]))
            lst, want = lst[s], want[s]
            how = ("slice", s.step)
        else:
            ix = [rng.randrange(-len(want), len(want)) for _ in range(rng.randint(0, 6))]
            lst, want = lst[ix], [want[k] for k in ix]
            how = ("indices", len(ix))
        ctx.check(isinstance(lst, NodeList), "a selection is not a node list any more")
        ctx.ev("selections")
        ctx.seen(how, len(want), len(layers))
    ctx.rejects(lambda: NodeList(want + [rng.choice([1, "x", {"a": 1}, None])]), "a node list accepted something that is not a node")


def types(ctx, rng):
    doc = Document()
    ts = [rng.choice(ORDER) for _ in range(rng.randint(1, 4))]
    odd = rng.random() < .2
    if odd:
        ts.insert(rng.randint(0, len(ts)), E.STRING)
    nodes = []
    for k, t in enumerate(ts):
        arg = rng.choice([None, 3 if t != E.STRING else "d", "plain"])
        mk = MAKE[t]
        dt = mk() if arg == "plain" else mk(arg) if t != E.BOOL else mk(bool(arg))
        l = doc.add_layer("l%d" % k, v=dt, **{"own%d" % k: T.string})
        for _ in range(rng.randint(1, 2)):
            nodes.append(l.add(v=VALUE[t]))
    seen = list(ts)
    if rng.random() < .3:
        t = rng.choice([E.BOOL, E.I64, E.F64])
        nodes.append(Node(v=VALUE[t]))
        seen.append(t)
    rng.shuffle(nodes)
    if odd and len(set(seen)) > 1:
        ctx.rejects(lambda: NodeList(nodes), "string and number fields were merged", types=seen)
        ctx.ev("merges_refused")
    else:
        lst = NodeList(nodes)
        want = E.STRING if set(seen) == {E.STRING} else ORDER[max(ORDER.index(t) for t in seen)]
        ctx.check(lst["v"].dtype.typename == want, "merged field type is not the largest of the types", types=[t.name for t in seen],
                  got=lst["v"].dtype.typename.name)
        ctx.check(len(lst["v"]) == len(nodes), "field view of a merged list")
        for k in range(len(ts)):
            ctx.equal(lst["own%d" % k].to_list(), [n.get("own%d" % k) for n in nodes], "field of one of the layers differs")
        a, b = rng.choice(ORDER), rng.choice(ORDER)
        ctx.check(MAKE[a]().cast_up_possible(MAKE[b]()) and MAKE[a]().cast_up(MAKE[b]()).typename == max(a, b, key=ORDER.index), "type order")
        ctx.ev("merges")
    ctx.seen("types", tuple(sorted(t.name for t in seen)), odd)
    ctx.sample([t.name for t in seen])


SCENARIOS = [("selection", selection, 1500, 50000), ("types", types, 1500, 50000)]
REQUIRED = {"outside_refused": 1500, "selections": 1500, "fields_of_emptied_lists": 200, "merges": 580, "merges_refused": 100}
