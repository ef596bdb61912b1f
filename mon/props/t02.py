"""Span relations (cover, intersection, equality) and trimming agree with what the spans contain."""
import itertools

from docria.algorithm import is_covered_by
from docria.model import Document, Text, TextSpan, DataTypes as T

from mon import gen

RULE = ("every pair of spans of texts up to 7 characters and random pairs in longer texts, against sets of character positions; trimming of "
        "random strings with every kind of whitespace against str.strip; distinct = Allen relation of the pair, resp. shape of the white space")
ASSUMPTIONS = ["an empty span intersects a span that contains its position strictly inside", "equality and hash are about spans of the same text"]

WS = " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\u00a0\u1680\u2000\u2003\u2028\u2029\u202f\u205f\u3000"
NWS = "ab.\u200b\u0301\ufeff\U0001F600\x00\u180e"


def allen(a, b, c, d):
    cmp = lambda x, y: (x > y) - (x < y)
    return cmp(a, c), cmp(a, d), cmp(b, c), cmp(b, d), a == b, c == d


def pair(ctx, s, x, y):
    (a, b), (c, d) = (x.start, x.stop), (y.start, y.stop)
    covered = c <= a and b <= d
    if a < b:
        ctx.check(covered == (set(range(a, b)) <= set(range(c, d))), "oracle")
    if a < b and c < d:
        inter = bool(set(range(a, b)) & set(range(c, d)))
    elif a == b and c < d:
        inter = c < a < d
    elif a < b:
        inter = a < c < b
    else:
        inter = False
    for o in (y, (c, d)):
        ctx.equal(bool(x.covered_by(o)), covered, "covered_by is wrong", x=(a, b), y=(c, d))
        ctx.equal(bool(x.intersected_by(o)), inter, "intersected_by is wrong", x=(a, b), y=(c, d))
    ctx.equal(bool(y.intersected_by(x)), inter, "intersection is not symmetric", x=(a, b), y=(c, d))
    ctx.equal(bool(is_covered_by(x, y)), covered, "is_covered_by is wrong", x=(a, b), y=(c, d))
    eq = (a, b) == (c, d)
    ctx.equal(bool(x == y), eq, "equality is wrong", x=(a, b), y=(c, d))
    ctx.equal(bool(x != y), not eq, "inequality is wrong", x=(a, b), y=(c, d))
    if eq:
        ctx.check(hash(x) == hash(y), "equal spans with different hash values", x=(a, b))
        ctx.check(len({x, y}) == 1 and x in {y} and {x: 1}[y] == 1, "equal spans are different keys")
        ctx.ev("equal_pairs")
    else:
        ctx.check(len({x, y}) == 2, "different spans are the same key")
    ctx.check((x == s[a:b]) and not (x == s[a:b] + "x") and not (x != s[a:b]), "a span does not equal its string", x=(a, b))
    ctx.ev("covered" if covered else "not_covered")
    ctx.ev("intersecting" if inter else "disjoint")
    ctx.seen("pair", allen(a, b, c, d))


def relations_small(ctx, rng):
    for n in range(0, 8):
        s = "abcdefgh"[:n]
        t = Text("main", s)
        spans = list(itertools.combinations_with_replacement(range(n + 1), 2))
        for (a, b), (c, d) in itertools.product(spans, repeat=2):
            pair(ctx, s, t[a:b], t[(c, d)])


def relations(ctx, rng):
    s = gen.rstr(rng, rng.choice([20, 80, 300]))
    doc = Document()
    doc.maintext = s
    for _ in range(20):
        pair(ctx, s, gen.rspan(rng, doc.maintext), gen.rspan(rng, doc.maintext))


def trimming(ctx, rng):
    def run(k):
        return "".join(rng.choice(WS) for _ in range(k))

    left, right = [gen.size(rng, [0, 0, 1, 2, 5], [17, 65, 129, 300, 1100, 5000], .03) for _ in range(2)]
    mid = gen.size(rng, [0, 1, 1, 2, 3, 8], [70, 300, 2000], .03)
    ctx.ev("long_runs", left > 16 or right > 16)
    core = "".join(rng.choice(NWS + WS if 0 < k < mid - 1 else NWS) for k in range(mid))
    inner = run(left) + core + run(right)
    pre = "".join(rng.choice(NWS + WS) for _ in range(rng.choice([0, 1, 3])))
    post = "".join(rng.choice(NWS + WS) for _ in range(rng.choice([0, 1, 3])))
    s = pre + inner + post
    doc = Document()
    doc.maintext = s
    a, b = len(pre), len(pre) + len(inner)
    span = doc.maintext[a:b]
    want = inner.strip()
    t = span.trim()
    ctx.equal(str(t), want, "trim differs from stripping the string", text=s, span=(a, b))
    if want:
        start = a + inner.index(want)
        ctx.equal((t.start, t.stop), (start, start + len(want)), "trim gives other bounds", text=s, span=(a, b))
    ctx.check(a <= t.start <= t.stop <= b, "trim reaches outside of the span", text=s, span=(a, b), got=(t.start, t.stop))
    ctx.equal((span.start, span.stop, str(span)), (a, b, inner), "trim changed the span itself")
    ctx.equal((t.trim().start, t.trim().stop), (t.start, t.stop), "trimming twice gives something else")
    other = doc.maintext[a:b]
    r = other.trim_()
    ctx.check(r is other, "trim_ returned another span")
    ctx.equal((other.start, other.stop, str(other), len(other)), (t.start, t.stop, want, len(want)), "trim_ differs from trim", text=s, span=(a, b))
    if rng.random() < .3:
        from docria.codec import MsgpackCodec
        l = doc.add_layer("l", x=T.span())
        l.add(x=other)
        l.add(x=t)
        out = list(MsgpackCodec.decode(MsgpackCodec.encode(doc))["l"])
        ctx.equal([str(n["x"]) for n in out], [want, want], "a trimmed span is serialized as something else")
        ctx.ev("trimmed_serialized")
    ctx.ev("trims")
    if left:
        ctx.ev("left_space")
    if right:
        ctx.ev("right_space")
    if not want:
        ctx.ev("all_space")
    ctx.seen("trim", left, right, min(mid, 3), len(pre) > 0, len(post) > 0)
    ctx.sample({"text": s, "span": (a, b), "trimmed": (t.start, t.stop)})


SCENARIOS = [("relations_small", relations_small, 1, 1), ("relations", relations, 200, 10000), ("trimming", trimming, 4000, 200000)]
REQUIRED = {"covered": 750, "not_covered": 1000, "intersecting": 1000, "disjoint": 1000, "equal_pairs": 70, "trims": 2000, "left_space": 500,
            "right_space": 500, "all_space": 100, "trimmed_serialized": 300, "long_runs": 120}
