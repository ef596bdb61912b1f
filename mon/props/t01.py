"""Slicing texts and spans is Python string slicing, and never reaches outside of the text or the span."""
import itertools

from docria.codec import MsgpackCodec
from docria.model import Document, DataTypes as T, Offset, Text, TextSpan

from mon import gen

RULE = ("random texts (hostile unicode, every size up to 80, some to 65545) and random chains of slicing operations (slices with open, negative and overshooting "
        "bounds, pairs, single positions) compared with string slicing; plus every (start, stop) pair of every small text; "
        "distinct = (operation, text length, relation of the bounds to the text)")
ASSUMPTIONS = ["a step other than one is refused", "slices whose stop lies before their start are refused"]


EDGES = [15, 16, 31, 32, 127, 128, 255, 256, 257, 999, 1000, 1001, 1023, 1024, 4095, 4096, 9999, 10000, 32767, 32768, 65535, 65536, 65537, 1 << 20]


def bound(rng, n):
    if n > 200 and rng.random() < .5:
        e = rng.choice([x for x in EDGES if x <= n])
        return rng.choice([e, -e, n - e])
    return rng.choice([None, 0, n, n + 1, -1, -n, -n - 1, n // 2, rng.randint(-n - 3, n + 3), rng.randint(0, n), rng.randint(0, n)])


def klass(x, n):
    return None if x is None else "neg" if x < -n else "-" if x < 0 else "0" if x == 0 else "in" if x < n else "end" if x == n else "over"


def one(ctx, rng, obj, s, base, full):
    """obj shows the string s, which lies at offset base of the whole string full."""
    n = len(s)
    op = rng.choice(["slice", "slice", "pair", "index", "step"])
    nxt = None
    if op == "slice":
        a, b = bound(rng, n), bound(rng, n)
        st, sp, _ = slice(a, b).indices(n)
        one_step = rng.random() < .2
        get = (lambda: obj[a:b:1]) if one_step else (lambda: obj[a:b])
        if sp < st:
            ctx.rejects(get, "a slice of negative length was accepted", bounds=(a, b), length=n)
            ctx.ev("negative_refused")
        else:
            r = get()
            expect(ctx, r, s[a:b], base + st, base + sp, full, (a, b))
            nxt = (r, s[a:b], base + st)
        ctx.seen(type(obj).__name__, "slice", klass(a, n), klass(b, n), min(n, 20), sp < st)
    elif op == "pair":
        a, b = bound(rng, n) or 0, bound(rng, n) or 0
        if 0 <= a <= b <= n:
            as_ = rng.choice([int, int, Offset])
            r = obj[(as_(a), as_(b))]
            expect(ctx, r, s[a:b], base + a, base + b, full, (a, b))
            ctx.ev("offset_objects", as_ is Offset)
            nxt = (r, s[a:b], base + a)
        else:
            ctx.rejects(lambda: obj[(a, b)], "a pair outside of the text was accepted", bounds=(a, b), length=n)
            ctx.ev("pairs_refused")
        ctx.seen(type(obj).__name__, "pair", klass(a, n), klass(b, n), min(n, 20), a <= b)
    elif op == "index":
        k = rng.randint(-n - 2, n + 2)
        if -n <= k < n:
            ctx.equal(obj[k], s[k], "a position gives another character", position=k, length=n)
        else:
            ctx.rejects(lambda: obj[k], "a position outside was accepted", position=k, length=n)
            ctx.ev("positions_refused")
        ctx.seen(type(obj).__name__, "index", klass(k, n), min(n, 20))
    else:
        ctx.rejects(lambda: obj[::rng.choice([2, -1, 3])], "a step was accepted")
        ctx.rejects(lambda: obj[rng.choice(["a", 1.5, None, (1, 2, 3)])], "a nonsensical index was accepted")
    ctx.ev("op_" + op)
    return nxt


def expect(ctx, r, want, start, stop, full, bounds):
    ctx.check(isinstance(r, TextSpan), "slicing did not give a span")
    ctx.equal((r.start, r.stop), (start, stop), "bounds of the slice differ", bounds=bounds)
    ctx.equal(str(r), want, "content of the slice differs", bounds=bounds)
    ctx.equal(len(r), len(want), "length of the slice differs", bounds=bounds)
    ctx.equal("".join(r), want, "iteration over the slice differs", bounds=bounds)
    ctx.check(0 <= r.start <= r.stop <= len(full), "the slice reaches outside of the text", bounds=bounds)
    ctx.equal(full[r.start:r.stop], want, "bounds and content of the slice disagree", bounds=bounds)


def chains(ctx, rng):
    n = rng.choice([0, 1, 2, 3, 5, 10, 40, 80])
    r = rng.random()
    if r < .05:
        # Larger texts, repeated from a piece of prime length so that a wrong position shows
        n = rng.choice([rng.randint(81, 2000), rng.choice(EDGES) + rng.choice([-1, 0, 1, 3]), rng.randint(65530, 65545)])
        piece = "".join(rng.choice("abcdefghij \u00e5\u4e2d\U0001f600") for _ in range(1009))
        s = (piece * (n // 1009 + 1))[:n]
        ctx.ev("large_texts")
    else:
        s = gen.rstr(rng, n)
    doc = Document()
    if rng.random() < .5:
        doc.maintext = s
        text = doc.maintext
    else:
        text = doc.add_text("other", s)
    if rng.random() < .3:
        l = doc.add_layer("l", x=T.textspan(text))
        for _ in range(3):
            l.add(x=gen.rspan(rng, text))
        doc = MsgpackCodec.decode(MsgpackCodec.encode(doc))
        text = doc.texts[text.name]
        for n in doc["l"]:
            expect(ctx, n["x"], s[n["x"].start:n["x"].stop], n["x"].start, n["x"].stop, s, None)
        ctx.ev("decoded_texts")
    ctx.equal((str(text), len(text), "".join(text)), (s, len(s), s), "the text differs from its string")
    cur = (text, s, 0)
    for depth in range(rng.randint(1, 8)):
        nxt = one(ctx, rng, *cur, s)
        if nxt is not None:
            cur = nxt
            ctx.ev("nested", 1 if depth else 0)
    ctx.equal(str(text), s, "slicing changed the text")
    # trimming in place changes that one span, and no other at the same place
    obj, sub, base = cur if rng.random() < .5 else (text, s, 0)
    i, j = sorted((rng.randint(0, len(sub)), rng.randint(0, len(sub))))
    how = [lambda: obj[i:j], lambda: obj[(i, j)], lambda: text[base + i:base + j]]
    x, y = rng.choice(how)(), rng.choice(how)()
    x.trim_()
    for z in (y, rng.choice(how)()):
        expect(ctx, z, sub[i:j], base + i, base + j, s, (i, j))
    ctx.ev("trimmed_next_to_equal", x.start != y.start or x.stop != y.stop)
    a, b = gen.rspan(rng, text), gen.rspan(rng, text)
    if a.start <= b.stop:
        t = a.span_to(b)
        expect(ctx, t, s[a.start:b.stop], a.start, b.stop, s, "span_to")
        ctx.equal(a.text_to(b), s[a.start:b.stop], "text_to differs")
        ctx.ev("span_to")
    else:
        ctx.rejects(lambda: a.span_to(b), "a span was made in reverse order")
        ctx.equal(a.text_to(b), "", "text_to in reverse order")
    ctx.sample({"text": s[:40], "length": len(s)})


def small(ctx, rng):
    """Every pair of bounds of every text up to 6 characters, and of every span in it."""
    for n in range(0, 5):
        s = "".join(chr(97 + k) for k in range(n))
        text = Text("main", s)
        R = range(-n - 2, n + 3)
        for a, b in itertools.product([None] + list(R), repeat=2):
            st, sp, _ = slice(a, b).indices(n)
            if sp < st:
                ctx.rejects(lambda: text[a:b], "negative slice accepted", bounds=(a, b), length=n)
            else:
                expect(ctx, text[a:b], s[a:b], st, sp, s, (a, b))
            if a is not None and b is not None:
                if 0 <= a <= b <= n:
                    expect(ctx, text[(a, b)], s[a:b], a, b, s, (a, b))
                else:
                    ctx.rejects(lambda: text[(a, b)], "pair outside of the text accepted", bounds=(a, b), length=n)
            ctx.ev("small_bounds")
        for i in range(n + 1):
            for j in range(i, n + 1):
                span, sub = text[i:j], s[i:j]
                for a, b in itertools.product([None] + list(range(-n - 1, n + 2)), repeat=2):
                    st, sp, _ = slice(a, b).indices(len(sub))
                    if sp < st:
                        ctx.rejects(lambda: span[a:b], "negative slice accepted", span=(i, j), bounds=(a, b))
                    else:
                        expect(ctx, span[a:b], sub[a:b], i + st, i + sp, s, (a, b))
                    if a is not None and b is not None:
                        if 0 <= a <= b <= len(sub):
                            expect(ctx, span[(a, b)], sub[a:b], i + a, i + b, s, (a, b))
                        else:
                            ctx.rejects(lambda: span[(a, b)], "pair outside of the span accepted", span=(i, j), bounds=(a, b), length=n)
                    ctx.ev("small_span_bounds")
        ctx.seen("small", n)


SCENARIOS = [("chains", chains, 4000, 200000), ("small", small, 1, 1)]
REQUIRED = {"op_slice": 2000, "op_pair": 1000, "op_index": 1000, "large_texts": 60, "offset_objects": 150, "negative_refused": 300, "pairs_refused": 300, "positions_refused": 100,
            "nested": 500, "span_to": 500, "small_bounds": 200, "small_span_bounds": 1000, "decoded_texts": 300, "trimmed_next_to_equal": 150}
