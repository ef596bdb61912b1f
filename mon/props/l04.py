"""A node span denotes the nodes currently between its end points; its text is the text between them."""
from docria.codec import MsgpackCodec
from docria.model import Document, DataTypes as T, Node, NodeSpan, NodeList

from mon import gen

RULE = ("random layers with several spans held over random histories (removals inside and outside, insertions, order preserving and other sorts, "
        "compaction, encoding), compared with the list model after every step; distinct = (operation, span length, layer length)")
ASSUMPTIONS = ["the end points of an observed span are attached and in order", "text of a span: the spans of the nodes belong to one text and are in "
               "order"]


def tokens(rng, doc):
    text = doc.maintext
    pos, out = 0, []
    while pos < len(text) and len(out) < (60 if len(text) < 100 else 1000):
        a = pos + rng.choice([0, 0, 1, 1, 2])
        b = a + rng.choice([0, 1, 1, 2, 3, 5])
        if b > len(text):
            break
        out.append((a, b))
        pos = b
    return out


def history(ctx, rng):
    doc = Document()
    s = "".join(rng.choice("abc \U0001F600é\n") for _ in range(gen.size(rng, [5, 20, 60], [800, 2000], .02)))
    doc.maintext = s
    toks = doc.add_layer("token", text=T.span(), w=T.span(), k=T.int32(None))
    refs = doc.add_layer("ref", to=T.nodespan("token"))
    model = []
    for a, b in tokens(rng, doc):
        empty = rng.random() < .06
        model.append(toks.add(**{} if empty else dict(text=doc.maintext[a:b], w=doc.maintext[a:b], k=len(model))))
    if not model:
        return
    spans = []
    trace = []

    def reach(sp):
        """Offsets of the text of a span, in the wrong order if it has none."""
        a, b = sp.first().get("text"), sp.last().get("text")
        return (a.start, b.stop) if a is not None and b is not None else (1, 0)

    def at(n):
        return (n["text"].start, n["text"].stop) if "text" in n else (7, 7)

    def live():
        order = {id(n): p for p, n in enumerate(model)}
        return [(sp, order[id(sp.first())], order[id(sp.last())]) for sp in spans
                if id(sp.first()) in order and id(sp.last()) in order and order[id(sp.first())] <= order[id(sp.last())]]

    def observe(what):
        order = {id(n): p for p, n in enumerate(model)}
        for sp, i, j in live():
            want = model[i:j + 1]
            for got in (list(sp), list(sp), list(sp.to_list()), list(sp.first().iter_span(sp.last())), list(sp.last().iter_span(sp.first()))):
                ctx.check(len(got) == len(want) and all(x is y for x, y in zip(got, want)), "the nodes of a span differ",
                          trace=trace, got=[n.get("k") for n in got], want=[n.get("k") for n in want])
            ctx.check(len(sp) == len(want), "the length of a span differs", trace=trace)
            ctx.check(sp.first() is want[0] and sp.last() is want[-1], "the ends of a span differ", trace=trace)
            ctx.equal(list(sp["k"]), [n.get("k") for n in want], "field view of a span differs")
            ctx.ev("empty_nodes_in_spans", sum(not n for n in want))
            a, b = reach(sp)
            if a <= b:
                ctx.equal(sp.text(), s[a:b], "text of a span differs", trace=trace)
                ctx.equal(sp.text("w"), s[a:b], "text of a span differs (named field)", trace=trace)
                ts = sp.textspan()
                ctx.equal((ts.start, ts.stop, str(ts)), (a, b, s[a:b]), "text span of a span differs", trace=trace)
                ctx.check(ts.text is doc.maintext, "text span of a span is in another text")
                ctx.ev("span_texts")
            ctx.ev("spans_observed")
            ctx.seen(what, len(want), len(model))

    observe("start")
    for _ in range(rng.choice([3, 8, 20])):
        if not model:
            break
        op = rng.choice(["new", "new", "remove", "remove", "remove_many", "add", "sort", "shuffle", "compact", "encode", "retain"])
        if op == "new":
            i, j = sorted((rng.randrange(len(model)), rng.randrange(len(model))))
            spans.append(NodeSpan(model[i], model[j]))
            refs.add(to=spans[-1])
            if i != j:
                ctx.rejects(lambda: NodeSpan(model[j], model[i]), "a span was made in reverse order")
        elif op == "remove":
            n = rng.choice(model)
            toks.remove(n)
            model.remove(n)
        elif op == "remove_many":
            ns = rng.sample(model, rng.randint(0, len(model) // 2))
            toks.remove(ns)
            model = [n for n in model if n not in ns]
        elif op == "retain":
            ends = [x for sp, _, _ in live() for x in (sp.first(), sp.last())]
            ns = ends + rng.sample(model, rng.randint(len(model) // 2, len(model)))
            toks.retain(ns)
            model = [n for n in model if n in ns]
        elif op == "add":
            a, b = sorted((rng.randint(0, len(s)), rng.randint(0, len(s))))
            model.append(toks.add() if rng.random() < .15 else toks.add(text=doc.maintext[a:b], w=doc.maintext[a:b], k=1000 + len(trace)))
        elif op == "sort":
            toks.sort(at)
            model.sort(key=at)
        elif op == "shuffle":
            key = {id(n): rng.random() for n in model}
            toks.sort(lambda n: key[id(n)])
            model.sort(key=lambda n: key[id(n)])
        elif op == "compact":
            toks.compact()
        elif op == "encode":
            ok = {id(sp) for sp, _, _ in live()}
            bad = [n for n in refs if id(n["to"]) not in ok]
            if bad:
                ctx.rejects(lambda: MsgpackCodec.encode(doc), "a document with a broken span was encoded", trace=trace)
                ctx.ev("broken_spans_refused")
                refs.remove(bad)
            out = MsgpackCodec.decode(MsgpackCodec.encode(doc))
            want = [[n.get("k") for n in r["to"]] for r in refs]
            ctx.equal([[n.get("k") for n in r["to"]] for r in out["ref"]], want, "spans differ after a round trip", trace=trace)
            for r, o in zip(refs, out["ref"]):
                (a, b), (x, y) = reach(r["to"]), reach(o["to"])
                ctx.equal(o["to"].text() if x <= y else None, r["to"].text() if a <= b else None, "text of a decoded span")
            ctx.ev("span_roundtrips", len(want))
        trace.append((op, len(model)))
        observe(op)
        for sp in spans:
            alive = sp.first() in toks and sp.last() in toks
            if alive and [n is sp.first() for n in model].index(True) > [n is sp.last() for n in model].index(True):
                ctx.rejects(lambda: list(sp), "a span whose end points changed places was iterated", trace=trace)
                ctx.rejects(lambda: len(sp), "a span whose end points changed places has a length", trace=trace)
                ctx.rejects(lambda: list(sp["k"]), "a field of a span whose end points changed places was iterated", trace=trace)
                ctx.ev("reversed_spans_refused")
    ctx.sample(trace[:10])


SCENARIOS = [("history", history, 1500, 60000)]
REQUIRED = {"spans_observed": 4980, "span_texts": 3000, "empty_nodes_in_spans": 500, "span_roundtrips": 100, "broken_spans_refused": 30, "reversed_spans_refused": 30}
