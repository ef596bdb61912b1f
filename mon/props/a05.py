"""Locating a token sequence in a text gives one span per token, in order, that reads like the token or is empty."""
from mon import gen
from docria.algorithm import sequence_to_textspans
from docria.model import Document, TextSpan

RULE = ("random texts over small alphabets and token sequences from real tokenisations with tokens dropped, changed, inserted, inside random "
        "windows, look-ahead 0 to 3; against laws and a step-by-step reference; distinct = (look-ahead, tokens, found, window, mutation)")
ASSUMPTIONS = ["tokens are not empty", "offsets of the window lie within the text"]


def reference(tokens, s, lo, hi, k):
    """The documented procedure, in absolute positions."""
    window_end = len(s) if hi is None else hi

    def find(tok, pos):
        p = s.find(tok, pos, window_end)
        return None if p < 0 else p
    out, pos, i = [], lo, 0
    far = 0
    while i < len(tokens):
        here = find(tokens[i], pos)
        if here is None:
            out.append((pos, pos))
            i += 1
            continue
        skip = None
        for j in range(1, k + 1):
            if i + j < len(tokens):
                p = find(tokens[i + j], pos)
                if p is not None and p < here:
                    skip = (j, p)
                    break
        if skip:
            j, p = skip
            far = max(far, j)
            out += [(pos, pos)] * j
            i += j
            here = p
        out.append((here, here + len(tokens[i])))
        pos = here + len(tokens[i])
        i += 1
    return out, far


def case(ctx, rng):
    alphabet = rng.choice(["ab", "abc ", "abcdefgh  ", "aåä\U0001F600 "])
    s = "".join(rng.choice(alphabet) for _ in range(gen.size(rng, [0, 1, 5, 20, 60], [400, 3000, 6000], .03)))
    doc = Document()
    text = doc.add_text(rng.choice(["main", "other"]), s)
    lo, hi = 0, None
    if rng.random() < .4:
        lo = rng.randint(0, len(s))
        hi = rng.choice([None, rng.randint(lo, len(s))])
    elif rng.random() < .3:
        hi = rng.randint(0, len(s))
    window = s[lo:hi]
    truth, pos = [], lo
    lengths = rng.choice([[1, 1, 2, 3, 4], [1, 1, 2, 3, 4], [1, 3, 9, 40], [3, 20, 300]])
    end = len(s) if hi is None else hi
    while pos < end:
        if s[pos] == " ":
            pos += 1
            continue
        n = min(end - pos, rng.choice(lengths))
        tok = s[pos:pos + n]
        if n < 9 or rng.random() < .5:
            tok = tok.split(" ")[0]
        truth.append((pos, pos + len(tok)))
        pos += len(tok)
    tokens = [s[a:b] for a, b in truth]
    exact = list(truth)
    mutation = rng.choice(["none", "none", "drop", "change", "insert", "random"])
    if mutation == "drop":
        keep = .7 if len(s) < 100 else rng.choice([.7, .01, .003])
        tokens = [t for t in tokens if rng.random() < keep]
    elif mutation == "change":
        tokens = [t if rng.random() < .7 else t + rng.choice("abz") for t in tokens]
    elif mutation == "insert":
        for _ in range(rng.randint(1, 4)):
            tokens.insert(rng.randint(0, len(tokens)), rng.choice(["z", "zz", "a", "ab", "ba"]))
    elif mutation == "random":
        tokens = ["".join(rng.choice(alphabet) for _ in range(rng.randint(1, 3))) for _ in range(rng.randint(0, 10))]
    k = rng.choice([0, 1, 1, 2, 3]) if rng.random() < .9 else rng.choice([5, 9, 17, 30, 300])
    kw = {}
    if lo or rng.random() < .3:
        kw["start_offset"] = lo
    if hi is not None or rng.random() < .3:
        kw["stop_offset"] = hi
    if k != 1 or rng.random() < .5:
        kw["k"] = k
    got = sequence_to_textspans(list(tokens), text, **kw)
    info = dict(text=s, tokens=tokens, options=kw, spans=[(x.start, x.stop) for x in got])
    ctx.equal(len(got), len(tokens), "not one span per token", **info)
    last = lo
    for x, t in zip(got, tokens):
        ctx.check(isinstance(x, TextSpan) and x.text is text, "not a span of the text")
        ctx.check(x.start == x.stop or str(x) == t, "a span does not read like its token", token=t, **info)
        ctx.check(lo <= x.start <= x.stop <= end, "a span lies outside of the window", **info)
        ctx.check(last <= x.start, "spans overlap or are out of order", **info)
        last = x.stop
    want, far = reference(tokens, s, lo, hi, k)
    ctx.ev("looked_ahead_far", far > 3)
    ctx.ev("looked_ahead_very_far", far > 16)
    ctx.equal([(x.start, x.stop) for x in got], want, "a token was located at another place", text=s, tokens=tokens, options=kw)
    if mutation == "none" and k == 0:
        # without look-ahead every token of a tokenisation is found
        ctx.check(all(x.start < x.stop for x in got), "a token of the text was not found", **info)
        ctx.ev("all_found")
    ctx.ev("tokens", len(tokens))
    ctx.ev("long_tokens_found", sum(x.stop - x.start > 16 for x in got))
    ctx.ev("found", sum(x.start < x.stop for x in got))
    ctx.ev("not_found", sum(x.start == x.stop for x in got))
    ctx.ev("windows", int(lo > 0 or hi is not None))
    ctx.seen(k, len(tokens), sum(x.start < x.stop for x in got), lo > 0, hi is not None, mutation)
    ctx.sample({"text": s[:40], "tokens": tokens[:8], "spans": [(x.start, x.stop) for x in got][:8], "k": k})


def moved(ctx, rng):
    """Tokens which come later in the sequence than in the text: how far ahead they are looked for."""
    words = ["<%s>" % format(i, "x") for i in range(rng.choice([5, 30, 80]))]
    doc = Document()
    text = doc.add_text("main", rng.choice(["", " "]).join(words))
    tokens = list(words)
    for _ in range(rng.choice([1, 1, 2])):
        a = rng.randrange(len(tokens))
        w = tokens.pop(a)
        tokens.insert(min(len(tokens), a + rng.choice([1, 2, 4, 10, 16, 17, 33, 60])), w)
    k = rng.choice([0, 1, 2, 5, 15, 16, 17, 33, 64, 300])
    got = sequence_to_textspans(list(tokens), text, k=k)
    want, far = reference(tokens, text.text, 0, None, k)
    ctx.equal([(x.start, x.stop) for x in got], want, "a token was located at another place", text=text.text, tokens=tokens, k=k)
    ctx.ev("looked_ahead_far", far > 3)
    ctx.ev("looked_ahead_very_far", far > 16)
    ctx.seen("moved", len(words), k, far)


SCENARIOS = [("case", case, 4000, 200000), ("moved", moved, 400, 20000)]
REQUIRED = {"looked_ahead_far": 60, "looked_ahead_very_far": 8, "long_tokens_found": 120, "tokens": 10000, "found": 5000, "not_found": 1000, "windows": 1000, "all_found": 100}
