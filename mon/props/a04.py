"""Span translation moves every span to the corresponding place of the original text."""
from mon import gen
from docria.algorithm import span_translate
from docria.codec import MsgpackCodec
from docria.model import Document, DataTypes as T

RULE = ("random originals and extractions (pieces cut out of the original, adjacent in the extraction, mapped in any order), spans within and across "
        "pieces, some translated before; compared with a character-by-character map, and with the texts; gaps and overlaps in the mapping must be "
        "refused; distinct = (pieces, spans, pieces crossed)")
ASSUMPTIONS = ["pieces are not empty and have the same length on both sides", "spans to translate are not empty"]


def build(rng, wide):
    orig = "".join(chr(0x4e00 + rng.randrange(5000)) for _ in range(70000 if wide else gen.size(rng, [5, 20, 60], [400, 5000])))
    cuts = sorted(rng.sample(range(len(orig) + 1), rng.choice([2, 4, 6]) if 5 < len(orig) < 100 else 2 if len(orig) <= 5 else rng.choice([4, 10] if wide else [2, 40, 300])))
    pieces = [(a, b) for a, b in zip(cuts[::2], cuts[1::2])]
    adjacent = rng.random() < .3
    if adjacent:
        pieces = [(a, b) for a, b in zip(cuts, cuts[1:])]
    return orig, pieces


def wide(ctx, rng):
    """Pieces of thousands of characters, thousands of characters apart."""
    translate(ctx, rng, True)


def translate(ctx, rng, wide=False):
    orig, pieces = build(rng, wide)
    if rng.random() < .15:
        rng.shuffle(pieces)
        ordered = False
    else:
        ordered = True
    sep = rng.random() < .2 and len(pieces) > 1
    ext, smap = "", []
    for a, b in pieces:
        if sep and ext:
            ext += "|"
        smap.append(((a, b), (len(ext), len(ext) + b - a)))
        ext += orig[a:b]
    doc = Document()
    target = doc.add_text("orig", orig)
    source = doc.add_text("ext", ext)
    mp = doc.add_layer("map", t=T.span("orig"), s=T.span("ext"))
    order = list(smap)
    rng.shuffle(order)
    for (a, b), (c, d) in order:
        mp.add(t=target[a:b], s=source[c:d])
    char = {}
    for (a, b), (c, d) in smap:
        for k in range(b - a):
            char[c + k] = a + k
    lay = doc.add_layer("x", src=T.span("ext"), dst=T.span("orig"), k=T.int32(None))
    expect = []
    bad = False
    for k in range(rng.choice([0, 1, 3, 10]) if len(orig) < 100 else rng.choice([120, 1100] if not wide else [40])):
        if not ext:
            break
        a = rng.randrange(len(ext)) if rng.random() < .7 else max(0, rng.choice(smap)[1][1] - rng.randint(1, 4))
        b = rng.randint(a + 1, min(len(ext), a + rng.choice([1, 2, 5, 40])))
        n = lay.add(src=source[a:b], k=k)
        if rng.random() < .15:
            o = rng.randrange(len(orig) + 1)
            old = target[o:rng.randint(o, len(orig))]
            n["dst"] = old
            expect.append((n, None, old))
            continue
        if a not in char or b - 1 not in char or char[b - 1] + 1 < char[a]:
            bad = True
        crossed = sum(1 for _, (c, d) in smap if c < b and a < d)
        expect.append((n, (char.get(a), char.get(b - 1)), (a, b, crossed)))
    if rng.random() < .2:
        gone = [e for e in expect if rng.random() < .3]
        lay.remove([e[0] for e in gone])
        expect = [e for e in expect if e[0] in lay]
        bad = any(e[1] is not None and (None in e[1] or e[1][1] + 1 < e[1][0]) for e in expect)
    kw = (doc, "map", ("t", "s"), "x", ("src", "dst"))
    if bad:
        ctx.rejects(lambda: span_translate(*kw), "a span outside of the mapping was translated", pieces=smap)
        ctx.ev("gaps_refused")
        ctx.seen("gap", len(pieces), len(expect))
        return
    before = [(n["t"].start, n["t"].stop, n["s"].start, n["s"].stop) for n in mp]
    span_translate(*kw)
    for n, w, info in expect:
        if w is None:
            ctx.check(n["dst"] is info, "a span that was translated before was changed")
            ctx.ev("kept")
            continue
        a, b, crossed = info
        ctx.check("dst" in n, "a span was not translated", source=(a, b), pieces=smap)
        got = (n["dst"].start, n["dst"].stop)
        ctx.equal(got, (w[0], w[1] + 1), "a span was translated to another place", source=(a, b), pieces=smap)
        ctx.check(n["dst"].text is doc.texts["orig"], "a span was translated into another text")
        ctx.equal((n["src"].start, n["src"].stop), (a, b), "translation changed the source span")
        if crossed == 1:
            ctx.equal(str(n["dst"]), ext[a:b], "a translated span reads differently in the original")
            ctx.ev("within_piece")
        else:
            ctx.ev("across_pieces")
            ctx.ev("across_wide_gaps", w[1] - w[0] > 3000)
        ctx.seen("span", len(pieces), crossed, ordered)
    ctx.equal([(n["t"].start, n["t"].stop, n["s"].start, n["s"].stop) for n in mp], before, "translation changed the mapping")
    out = MsgpackCodec.decode(MsgpackCodec.encode(doc))
    ctx.equal([str(n["dst"]) for n in out["x"]], [str(n["dst"]) for n in lay], "translated spans after a round trip")
    span_translate(*kw)
    ctx.equal([str(n["dst"]) for n in out["x"]], [str(n["dst"]) for n in lay], "a second translation changed something")
    ctx.ev("translations")
    ctx.sample({"pieces": smap, "spans": [(e[2] if e[1] else None) for e in expect][:5]})


def overlapping(ctx, rng):
    doc = Document()
    t = doc.add_text("orig", "a" * 20)
    s = doc.add_text("ext", "a" * 20)
    mp = doc.add_layer("map", t=T.span("orig"), s=T.span("ext"))
    a = rng.randint(0, 10)
    b = rng.randint(a + 2, 15)
    c = rng.randint(a, b - 1)
    d = rng.randint(c + 1, 20)
    mp.add(t=t[a:b], s=s[a:b])
    mp.add(t=t[c:d], s=s[c:d])
    lay = doc.add_layer("x", src=T.span("ext"), dst=T.span("orig"))
    lay.add(src=s[a:a + 1])
    ctx.rejects(lambda: span_translate(doc, "map", ("t", "s"), "x", ("src", "dst")), "an ambiguous mapping was accepted", pieces=[(a, b), (c, d)])
    ctx.ev("overlaps_refused")
    ctx.seen("overlap", a == c, b == d, d > b)


SCENARIOS = [("wide", wide, 70, 2000), ("translate", translate, 2500, 100000), ("overlapping", overlapping, 100, 3000)]
REQUIRED = {"translations": 1000, "within_piece": 2000, "across_pieces": 200, "gaps_refused": 40, "across_wide_gaps": 20, "kept": 200, "overlaps_refused": 50}
