"""Grouping by span and overlap resolution in Java give what their definitions say."""
from docria.codec import MsgpackCodec
from docria.model import DataTypes as T, Document, NodeSpan

from mon import gen, java
from mon.props.a02 import inter, relation
from mon.props.a03 import reference
from mon.props.j01 import run

RULE = ("random documents with layers of spans (empty, nested, touching, identical, unset, own field names, astral characters), grouped along every way to name the layers, both resolutions, with and without empty "
        "groups, against pairwise comparison; segments, nodes with spans and with node spans resolved and compared with a left-to-right reference and laws; distinct = relations met, options")
ASSUMPTIONS = ["an empty span belongs to spans [a, b) with a <= p < b and to empty spans at the same place", "groups without members are left out unless asked for",
               "segments compete from left to right; of identical segments one survives", "no order is promised among the nodes of a group"]


def spans(rng, doc, name, L, n, fields, most=15):
    layer = doc.add_layer(name, **{f: T.span() for f in fields})
    for _ in range(n):
        kw = {}
        for f in fields:
            if rng.random() < .9:
                a = rng.randint(0, L)
                b = a if rng.random() < .2 else min(L, a + rng.choice([0, 1, 1, 2, 3, 6, 15] if most <= 15 else [1, most, rng.randint(0, most)]))
                kw[f] = doc.maintext[a:b]
        layer.add(**kw)
    return layer


def place(n, f):
    s = n.get(f)
    return None if s is None else (s.start, s.stop)


def group(ctx, rng, large=False):
    doc = Document()
    L = rng.choice([5, 300, 70000]) if large else rng.choice([0, 1, 4, 8, 30])
    doc.maintext = "".join(rng.choice("ab\u00e5\U0001f600") for _ in range(L))
    gf = rng.choice(["text", "text", "where"])
    groups = spans(rng, doc, "groups", L, rng.choice([1, 40, 300]) if large else rng.choice([0, 1, 3, 6]), sorted({"text", gf}) if rng.random() < .3 else [gf], L if large else 15)
    layers = []
    for k in range(rng.choice([1, 1, 2, 3])):
        f = rng.choice(["text", "text", "s"])
        name = "layer%d" % k
        layer = spans(rng, doc, name, L, rng.choice([3, 300, 900]) if large else rng.choice([0, 1, 4, 10, 20]), [f, "early"], rng.choice([15, L // 2]) if large else 15)
        layers.append((name if rng.random() < .6 else "as%d" % k, layer, name, f))
    if rng.random() < .15:
        layers.append(("self", groups, "groups", gf))
    resolution = rng.choice([None, "intersect", "cover", "cover"])
    empty = rng.choice([None, False, True, True])
    route = rng.randrange(40)
    named = [[a, b, f] for a, _, b, f in layers]
    for a, b, f in list(named):
        if a != "self" and rng.random() < .1:
            # given twice, the last one counts
            named.insert(rng.randint(0, named.index([a, b, f])), [a, rng.choice([b, layers[0][2]]), "early"])
            ctx.ev("given_twice")
    out = run(ctx, "grouping failed in Java", "group", MsgpackCodec.encode(doc), "groups", gf, named, resolution, empty, route)
    want = {}
    for gi, g in enumerate(groups):
        gs = place(g, gf)
        if gs is None:
            continue
        d = {}
        for name, layer, lname, f in layers:
            hit = []
            for k, n in enumerate(layer):
                s = place(n, f)
                if s is None:
                    continue
                ok = inter(s[0], s[1], gs[0], gs[1])
                ctx.seen("relation", relation(s[0], s[1], gs[0], gs[1]), resolution)
                if ok and resolution == "cover":
                    ok = gs[0] <= s[0] and s[1] <= gs[1]
                if ok:
                    hit.append(["ref", lname, k])
            d[name] = hit
        if empty or any(d.values()):
            want[gi] = d
    got = {}
    for node, content, is_empty in out:
        ctx.check(node[:2] == ["ref", "groups"], "a group is not a node of the layer of groups", got=node)
        ctx.check(node[2] not in got, "a group appears twice", got=node)
        got[node[2]] = {k: sorted(v) for k, v in content.items()}
        ctx.check(is_empty == (not any(content.values())), "empty() of a group is wrong", content=str(content)[:200])
    ctx.equal(got, want, "the groups differ in Java", resolution=resolution, empty=empty, route=route, groups=[place(g, gf) for g in groups],
              layers={a: [place(n, f) for n in l] for a, l, _, f in layers})
    ctx.ev("groupings_" + str(resolution))
    ctx.ev("members", sum(len(v) for d in want.values() for v in d.values()))
    ctx.ev("empty_groups", sum(1 for d in want.values() if not any(d.values())))
    ctx.sample({"groups": [place(g, gf) for g in groups], "members": str(got)[:300], "resolution": resolution})
    ctx.seen("group", resolution, empty, route, len(layers), len(want))


def segments(rng, large=False):
    L = rng.choice([40, 1000, 100000, 100000]) if large else rng.choice([3, 6, 12, 40, 200])
    segs = []
    for _ in range(rng.choice([300, 700, 2000]) if large else rng.choice([0, 1, 2, 3, 5, 10, 30])):
        r = rng.random()
        if segs and r < .12:
            segs.append(rng.choice(segs))
        elif segs and r < .3:
            b = rng.choice(segs)[1]
            segs.append((b, min(L, b + rng.randint(0, 5))))
        else:
            a = rng.randint(0, L)
            segs.append((a, a if rng.random() < .1 else min(L, a + rng.choice([1, 1, 2, 3, 5, 9, 20] + [300, 40000, 70000] * (large and L > 50000)))))
    rng.shuffle(segs)
    return L, segs


def survivors(ctx, segs, got, what):
    ctx.check(len(set(got)) == len(got), "a segment survives twice", how=what, got=got)
    ctx.equal([tuple(segs[k]) for k in got], [tuple(x) for x in reference(segs)], "other segments survive in Java", how=what, segments=segs[:40])
    ctx.ev("survivors", len(got))
    ctx.ev("losers", len(segs) - len(got))
    ctx.seen(what, len(segs), len(got), any(a == b for a, b in segs), len(set(segs)) < len(segs))


def same_without(segs, gone):
    """The same segments survive when these places (never an end) are not counted."""
    at = lambda x: x - sum(g < x for g in gone)
    short = {(a, b): (at(a), at(b - 1) + 1) for a, b in segs}
    return [short[tuple(x)] for x in reference(segs)] == [tuple(x) for x in reference([short[x] for x in segs])]


def dominant(ctx, rng, large=False):
    L, segs = segments(rng, large)
    survivors(ctx, segs, run(ctx, "overlap resolution failed in Java", "dominant", [list(x) for x in segs]), "segments")
    doc = Document()
    doc.maintext = "".join(rng.choice("yz") for _ in range(L))
    f = rng.choice(["text", "s"])
    layer = doc.add_layer("l", **{f: T.span(), "other": T.string})
    back = []
    for k, (a, b) in enumerate(segs):
        if rng.random() < .1:
            layer.add(other="without a span")
            back.append(None)
        layer.add(**{f: doc.maintext[a:b]})
        back.append(k)
    got = run(ctx, "overlap resolution of nodes failed in Java", "dominant", MsgpackCodec.encode(doc), "l", f, True)
    ctx.check(all(n[:2] == ["ref", "l"] for n in got), "other nodes than were given")
    idx = [back[n[2]] for n in got]
    ctx.check(None not in idx, "a node without a span survives")
    survivors(ctx, segs, idx, "nodes")
    # node spans over a layer of tokens
    doc = Document()
    tokens = doc.add_layer("token")
    toks = [tokens.add() for _ in range(L + 1)]
    layer = doc.add_layer("l", ns=T.nodespan("token"), other=T.string)
    some = [x for x in segs if x[0] < x[1]]
    back = []
    for k, (a, b) in enumerate(some):
        if rng.random() < .1:
            layer.add(other="none")
            back.append(None)
        layer.add(ns=NodeSpan(toks[a], toks[b - 1]))
        back.append(k)
    got = run(ctx, "overlap resolution of node spans failed in Java", "dominant", MsgpackCodec.encode(doc), "l", "ns", False)
    idx = [back[n[2]] for n in got]
    ctx.check(None not in idx, "a node without a node span survives")
    survivors(ctx, some, idx, "node spans")
    # again with nodes removed from the layer: no end of a span, and however many of the places left free count, the same nodes survive
    ends = {x for a, b in some for x in (a, b - 1)}
    gone = sorted(set(rng.sample(range(L + 1), rng.randint(0, (L + 1) // 3))) - ends)
    if not large and L < 60 and gone and all(same_without(some, gone[:k]) for k in range(1, len(gone) + 1)):
        got = run(ctx, "overlap resolution of node spans failed in Java", "dominant", MsgpackCodec.encode(doc), "l", "ns", False, "token", gone)
        survivors(ctx, some, [back[n[2]] for n in got], "node spans over free places")
        ctx.ev("free_places", len(gone))
    if large:
        ctx.ev("long_segments", sum(b - a > 32767 for a, b in segs))
        ctx.ev("many_segments", len(segs))
        return
    ctx.ev("equal_length_conflicts", sum(1 for i, x in enumerate(segs) for y in segs[:i] if x[1] - x[0] == y[1] - y[0] and x != y and x[0] < y[1] and y[0] < x[1]))


def large(ctx, rng):
    """Hundreds of segments, groups and members; spans of tens of thousands of characters."""
    dominant(ctx, rng, True)
    group(ctx, rng, True)


SCENARIOS = [("large", large, 24, 800), ("group", group, 800, 40000), ("dominant", dominant, 700, 20000)]
REQUIRED = {"free_places": 300, "given_twice": 60, "long_segments": 40, "many_segments": 3000, "groupings_None": 80, "groupings_intersect": 90, "groupings_cover": 190, "members": 3000, "empty_groups": 90, "survivors": 2340, "losers": 3000, "equal_length_conflicts": 220}
