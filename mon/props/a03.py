"""Resolving overlaps keeps non-overlapping segments: of two overlapping ones the longer wins, the right one if equally long."""
from docria.algorithm import dominant_right, dominant_right_span
from docria.model import Document, DataTypes as T, NodeList

RULE = ("random sets of segments (nested, chained, touching, identical, empty, unsorted) as tuples and as nodes, against a left-to-right reference "
        "and against order-free laws (subset, no overlap, the longest survives, isolated ones survive, every loser overlaps a winner-or-longer); "
        "distinct = number of segments x number of survivors x kinds of overlap present")
ASSUMPTIONS = ["segments compete from left to right: a segment that lost to another one does not return when that one loses", "of identical segments "
               "one survives"]


def overlap(x, y):
    (a, b), (c, d) = x, y
    return a <= max(d - 1, c) and c <= max(b - 1, a)


def reference(segs):
    """Indices of the survivors, sets of indices for identical segments."""
    out, champ = [], None
    for k in sorted(range(len(segs)), key=lambda k: segs[k][0]):
        s = segs[k]
        if champ is None:
            champ = s
        elif overlap(s, champ):
            if s[1] - s[0] >= champ[1] - champ[0]:
                champ = s
        else:
            out.append(champ)
            champ = s
    if champ is not None:
        out.append(champ)
    return out


def case(ctx, rng):
    big = rng.random() < .01
    L = rng.choice([3, 6, 12, 40, 200]) if not big else rng.choice([300, 3000])
    segs = []
    ctx.ev("large_cases", big)
    for _ in range(rng.choice([0, 1, 2, 3, 5, 10, 30]) if not big else rng.choice([120, 300, 1100])):
        r = rng.random()
        if segs and r < .12:
            segs.append(rng.choice(segs))
        elif segs and r < .3:
            b = rng.choice(segs)[1]
            segs.append((b, min(L, b + rng.randint(0, 5))))
        else:
            a = rng.randint(0, L)
            segs.append((a, a if rng.random() < .1 else min(L, a + rng.choice([1, 1, 2, 3, 5, 9, 20] + big * [500, 1100, 2500]))))
    rng.shuffle(segs)
    if rng.random() < .3:
        segs.sort()
    want = reference(segs)
    items = [object() for _ in segs]
    where = {id(x): k for k, x in enumerate(items)}
    args = [(a, b, x) for (a, b), x in zip(segs, items)]
    got = dominant_right(rng.choice([lambda: args, lambda: tuple(args), lambda: iter(args)])())
    idx = [where.get(id(x)) for x in got]
    laws(ctx, segs, idx, want, "dominant_right")
    doc = Document()
    doc.maintext = "y" * L
    layer = doc.add_layer("l", text=T.span(), s=T.span())
    f = rng.choice(["text", "s"])
    nodes, back, plain = [], {}, []
    for k, (a, b) in enumerate(segs):
        if rng.random() < .1:
            layer.add()
        n = layer.add(**{f: doc.maintext[a:b]})
        back[id(n)] = k
        nodes.append(n)
    arg = rng.choice([lambda: layer, lambda: NodeList(list(layer)), lambda: iter(list(layer))])()
    got = dominant_right_span(arg) if f == "text" and rng.random() < .7 else dominant_right_span(arg, f) if rng.random() < .5 else dominant_right_span(arg, spanfield=f)
    laws(ctx, segs, [back.get(id(n)) for n in got], want, "dominant_right_span")
    ctx.ev("segments", len(segs))
    ctx.ev("survivors", len(want))
    ctx.ev("losers", len(segs) - len(want))
    ctx.ev("equal_length_conflicts", sum(1 for i, x in enumerate(segs) for y in segs[:i] if overlap(x, y) and x[1] - x[0] == y[1] - y[0] and x != y))
    ctx.ev("touching", sum(1 for x in segs for y in segs if x[1] == y[0] and x[0] < x[1] and y[0] < y[1]))
    ctx.seen(len(segs), len(want), any(a == b for a, b in segs), len(set(segs)) < len(segs), len(segs) - len(set(segs)))
    ctx.sample({"segments": segs[:10], "survivors": want[:10]})


def laws(ctx, segs, idx, want, what):
    kw = dict(function=what, segments=segs, got=[None if k is None else segs[k] for k in idx], want=want)
    ctx.check(None not in idx, "something that was not given came out", **kw)
    ctx.check(len(set(idx)) == len(idx), "a segment came out twice", **kw)
    out = [segs[k] for k in idx]
    for i, x in enumerate(out):
        for y in out[:i]:
            ctx.check(not overlap(x, y), "two surviving segments overlap", **kw)
    if segs:
        best = max(b - a for a, b in segs)
        ctx.check(max(s for s in segs if s[1] - s[0] == best) in out, "the longest, rightmost segment did not survive", **kw)
    for k, s in enumerate(segs):
        if k in idx:
            continue
        ctx.check(any(j != k and overlap(s, t) and t[1] - t[0] >= s[1] - s[0] for j, t in enumerate(segs)),
                  "a segment lost although nothing at least as long overlaps it", loser=s, **kw)
    ctx.check(sorted(out) == sorted(want), "other segments survived than the rule says", **kw)
    ctx.check(out == sorted(out), "the survivors are not in text order", **kw)


SCENARIOS = [("case", case, 3000, 150000)]
REQUIRED = {"segments": 10000, "survivors": 4000, "losers": 4000, "equal_length_conflicts": 1000, "touching": 1000}
