"""Java values and spans say truthfully what they hold."""
import struct

from docria.codec import MsgpackCodec
from docria.model import DataTypes as T, NodeSpan

from mon import gen, java
from mon.props.j01 import make, run

RULE = ("random values of all kinds read through every conversion, compared among each other and hashed; spans of random texts read as character sequences within and beyond their ends, compared with each other, kept in "
        "sets while their document is encoded; nodes printed before and after removal; distinct = kind x conversion x boundary class of the value")
ASSUMPTIONS = ["conversions that lose part of a value are not judged", "whether spans that only touch intersect, and whether an empty span at the end of a text may be made, is open"]

LIMITS = [0, 1, -1, 2, 127, 128, 255, 256, 2 ** 31 - 1, -2 ** 31]
BIG = LIMITS + [2 ** 31, -2 ** 31 - 1, 2 ** 53, 2 ** 53 + 1, 2 ** 63 - 1, -2 ** 63]


def bits(x):
    return struct.unpack(">q", struct.pack(">d", x))[0]


def number(b):
    return struct.unpack(">d", struct.pack(">q", b))[0]


def value(rng):
    k = rng.choice(["i32", "i64", "f64", "bool", "str", "bin", "null", "ext", "object"])
    if k == "i32":
        return [k, rng.choice(LIMITS + [rng.randint(-2 ** 31, 2 ** 31 - 1)])]
    if k == "i64":
        return [k, rng.choice(BIG + [rng.randint(-2 ** 63, 2 ** 63 - 1)])]
    if k == "f64":
        return [k, bits(rng.choice([gen.rfloat(rng), 0.0, -0.0, 1.0, float("nan"), 2.5, -3.0, 1e300]))]
    if k == "bool":
        return [k, rng.random() < .5]
    if k == "str":
        return [k, rng.choice([gen.rstr(rng), "0", "1", "-5", "true", "false", "2147483648", "1.5", "", "TRUE", "x1"])]
    if k == "bin":
        return [k, gen.rbytes(rng)[:300]]
    if k == "ext":
        return [k, rng.choice(["a", "b", ""]), gen.rbytes(rng)[:50]]
    if k == "object":
        return [k, rng.choice([None, True, 7, 2 ** 40, 1.25, "text", b"bytes", ""])]
    return [k, None]


TYPE = {"i32": "i32", "i64": "i64", "f64": "f64", "bool": "i1", "str": "str", "bin": "bin", "ext": "ext"}


def values(ctx, rng):
    vs = [value(rng) for _ in range(rng.choice([2, 8, 20]))]
    vs += [list(rng.choice(vs)) for _ in range(rng.randint(0, 4))]
    out = run(ctx, "values", "values", vs)
    for j, (v, (ty, *conv, others, same)) in enumerate(zip(vs, out)):
        k, x = v[0], v[1]
        if k == "object":
            k = {bool: "bool", int: "i64", float: "f64", str: "str", bytes: "bin", type(None): "null"}[type(x)]
            if k == "f64":
                x = bits(x)
        names = ["bool", "int", "long", "double", "string", "binary"]
        r = dict(zip(names, conv))
        kw = dict(value=v, answers=str(r)[:600])
        if k in TYPE:
            ctx.equal(ty, TYPE[k], "the type of a value", **kw)
        if k in ("i32", "i64"):
            ctx.check(r["long"] == [True, x], "an integer reads as another one", **kw)
            ctx.check(not -2 ** 31 <= x < 2 ** 31 or r["int"] == [True, x], "an integer reads as another int", **kw)
            ctx.check(r["bool"] == [True, x != 0], "the truth of an integer", **kw)
            ctx.check(r["string"] == [True, str(x)], "an integer as a string", **kw)
            ctx.check(r["double"][0] and number(r["double"][1]) == float(x), "an integer as a float", **kw)
        elif k == "f64":
            f = number(x)
            ctx.check(r["double"][0] and (r["double"][1] == x or f != f and number(r["double"][1]) != number(r["double"][1])), "a float reads as another one", **kw)
            if f == f and (f == 0 or abs(f) > 1e-6):
                ctx.check(r["bool"] == [True, f != 0], "the truth of a float", **kw)
            if f == f and abs(f) < 2 ** 31 and f == int(f):
                ctx.check(r["int"] == [True, int(f)] and r["long"] == [True, int(f)], "a whole float as an integer", **kw)
            ctx.check(r["string"][0] and (f != f or float(r["string"][1]) == f), "a float as a string", **kw)
        elif k == "bool":
            ctx.check(r["bool"] == [True, x] and r["int"] == [True, int(x)] and r["long"] == [True, int(x)] and r["double"][0] and number(r["double"][1]) == int(x),
                      "a boolean reads as something else", **kw)
        elif k == "str":
            ctx.check(r["string"] == [True, x], "a string reads as another one", **kw)
            if x in ("0", "1", "-5"):
                ctx.check(r["int"] == [True, int(x)] and r["long"] == [True, int(x)] and r["double"][0] and number(r["double"][1]) == int(x), "a number in a string", **kw)
            if x in ("true", "false"):
                ctx.check(r["bool"] == [True, x == "true"], "a truth value in a string", **kw)
            if x in ("", "x1", "true"):
                ctx.check(not r["int"][0] and not r["long"][0] and not r["double"][0], "text was read as a number", **kw)
            if x == "2147483648":
                ctx.check(not r["int"][0] and r["long"] == [True, 2 ** 31], "a large number in a string", **kw)
        elif k in ("bin", "ext"):
            ctx.check(r["binary"] == [True, v[2] if v[0] == "ext" else x], "bytes read as others", **kw)
        elif k == "null":
            ctx.check(r["bool"] == [True, False] and r["string"][0], "null is true", **kw)
        if k not in ("bin", "ext", "null"):
            ctx.check(not r["binary"][0], "a value that is no binary has bytes", **kw)
        ctx.check(not others or k == "null", "a value that is no node or span was given as one", **kw)
        # equality
        ctx.check(-1 not in same, "equal values have different hash codes", **kw)
        ctx.check(j in same, "a value does not equal itself", **kw)
        for i, w in enumerate(vs):
            if k == "ext" or w[0] == "ext":
                continue
            a, b = canon(v), canon(w)
            if a[0] == b[0]:
                ctx.check((i in same) == (a == b), "equality of values is wrong", other=w, **kw)
            elif not ({a[0], b[0]} <= {"i32", "i64", "f64"}):
                ctx.check(i not in same, "values of different kinds are equal", other=w, **kw)
        ctx.ev("value_" + k)
        ctx.seen(k, x if k in ("i32", "i64", "bool") else len(str(x)))
    ctx.ev("comparisons", len(vs) ** 2)
    ctx.sample({"values": [str(v)[:60] for v in vs[:6]]})


def canon(v):
    k, x = v[0], v[1]
    if k == "object":
        k = {bool: "bool", int: "i64", float: "f64", str: "str", bytes: "bin", type(None): "null"}[type(x)]
        if k == "f64":
            x = bits(x)
    if k == "f64" and number(x) != number(x):
        x = "nan"
    return k, x


def spans(ctx, rng):
    text = gen.rstr(rng, rng.choice([0, 1, 3, 10, 30]))
    u = text.encode("utf-16-be", "surrogatepass")
    units = [int.from_bytes(u[k:k + 2], "big") for k in range(0, len(u), 2)]
    n = len(units)
    made = [[rng.randint(-1, n + 1), rng.randint(-1, n + 1)] if rng.random() < .15 else sorted((rng.randint(0, n), rng.randint(0, n))) for _ in range(rng.choice([2, 5, 10]))]
    ops = []
    for _ in range(30):
        s = rng.randrange(len(made))
        length = made[s][1] - made[s][0]
        k = rng.choice(["length", "string", "char", "sub", "chars", "codepoints", "ends", "with", "with"])
        op = [s, k]
        if k == "char":
            op.append(rng.choice([0, -1, length, length - 1, rng.randint(-2, n + 2)]))
        elif k == "sub":
            op += rng.choice([[0, length], [0, length + 1], [-1, length], [0, 0], [length, length], [1, 0], sorted([rng.randint(0, max(0, length)), rng.randint(0, max(0, length))])])
        elif k == "with":
            op.append(rng.randrange(len(made)))
        ops.append(op)
    refused, out, back = run(ctx, "spans", "spans", [text, made, ops])
    ctx.equal(back, text, "the text is another one")
    for (a, b), r in zip(made, refused):
        if 0 <= a <= b <= n:
            ctx.check(not r or a == n, "a span within the text was refused", span=[a, b], length=n)
        else:
            ctx.check(r, "a span beyond the text was made", span=[a, b], length=n)
            ctx.ev("spans_refused")

    def s16(a, b):
        return u[2 * a:2 * b].decode("utf-16-be", "surrogatepass")
    for op, o in zip(ops, out):
        s = op[0]
        if refused[s]:
            continue
        (a, b), k = made[s], op[1]
        kw = dict(text=text, span=[a, b], operation=op, answer=str(o)[:300])
        ctx.ev("span_" + k)
        ctx.seen(k, min(b - a, 3), a == 0, b == n, op[2:] == [b - a] if k == "char" else None)
        whole = units[a:b]
        if k in ("char", "sub"):
            if k == "char":
                ok = 0 <= op[2] < b - a
                want = whole[op[2]] if ok else None
            else:
                ok = 0 <= op[2] <= op[3] <= b - a
                want = s16(a + op[2], a + op[3]) if ok else None
            ctx.check(o[0] == ok, "a part beyond the span was given" if o[0] else "a part of a span was refused", **kw)
            if ok:
                ctx.check(same_text(o[1], want), "another part of the span", want=want, **kw)
            else:
                ctx.ev("parts_refused")
            continue
        if k == "with" and o == [True, None]:
            continue
        ctx.check(o[0], "a span could not be read", **kw)
        got = o[1]
        if k == "length":
            ctx.check(got == b - a, "the length of a span", **kw)
        elif k == "string":
            ctx.check(all(same_text(x, s16(a, b)) for x in got), "the text of a span", want=s16(a, b), **kw)
        elif k == "chars":
            ctx.check(list(got) == whole, "the characters of a span", **kw)
        elif k == "codepoints":
            cps, i = [], 0
            while i < len(whole):
                if 0xd800 <= whole[i] < 0xdc00 and i + 1 < len(whole) and 0xdc00 <= whole[i + 1] < 0xe000:
                    cps.append(0x10000 + ((whole[i] - 0xd800) << 10) + whole[i + 1] - 0xdc00)
                    i += 1
                else:
                    cps.append(whole[i])
                i += 1
            ctx.check(list(got) == cps, "the code points of a span", want=cps, **kw)
        elif k == "ends":
            ctx.check(got == [a, b], "the ends of a span", **kw)
        else:
            c, d = made[op[2]]
            covers, meets, order, equal, hashes = got
            kw["other"] = [c, d]
            ctx.check(covers == (a <= c and d <= b), "covers() is wrong", **kw)
            if a < d and c < b and a < b and c < d:
                ctx.check(meets, "overlapping spans do not intersect", **kw)
            if b < c or d < a:
                ctx.check(not meets, "spans apart from each other intersect", **kw)
            ctx.check(order == ((a, b) > (c, d)) - ((a, b) < (c, d)), "the order of spans is wrong", **kw)
            ctx.check(equal == ((a, b) == (c, d)) and hashes, "equality of spans is wrong", **kw)


def same_text(x, want):
    """Lone surrogates do not survive the way to Python."""
    if not isinstance(want, str) or not isinstance(x, str) or any(0xd800 <= ord(c) < 0xe000 for c in want):
        return isinstance(want, str) == isinstance(x, str) and (isinstance(want, str) or x == want)
    return x == want


def phrases(rng):
    """Tokens with gaps between them, and node spans over them."""
    doc = gen.Document()
    text = doc.add_text("main", gen.rstr(rng, 60) + "some words")
    layer = doc.add_layer("tok", text=T.span("main"))
    cuts = sorted(rng.sample(range(len(text) + 1), min(len(text) + 1, rng.choice([2, 6, 20]))))
    parts = [(a, b) for a, b in zip(cuts, cuts[1:]) if rng.random() < .8 or a == cuts[0]]
    toks = [layer.add(text=text[a:b]) for a, b in parts]
    spans = doc.add_layer("phrase", over=T.nodespan("tok"))
    for _ in range(rng.randint(1, 8)):
        a = rng.randrange(len(toks))
        spans.add(over=NodeSpan(toks[a], toks[rng.randrange(a, len(toks))]))
    return doc


def sets(ctx, rng):
    doc = make(rng) if rng.random() < .8 else phrases(rng)
    all_, size, missing, other, none, after, read = run(ctx, "spans in sets, or printing, failed", "span set", MsgpackCodec.encode(doc))
    ctx.check(missing == 0 and after == size, "spans changed while their document was encoded", spans=all_, missing=missing, sizes=[size, after])
    ctx.check(other == 0, "spans of the same place are not equal", spans=all_, other=other)
    ctx.check(not none, "something is printed as nothing")
    ctx.ev("spans_in_sets", all_)
    ctx.ev("documents_printed")
    ctx.ev("phrases_read", read)
    ctx.seen("set", all_, size)


def rtype(rng):
    k = rng.choice(["i32", "i64", "f64", "i1", "str", "bin", "noderef", "noderef_array", "nodespan", "span", "ext", "with", "with"])
    if k == "with":
        args = {}
        for _ in range(rng.randint(1, 3)):
            args[rng.choice("abc")] = rng.choice([["bool", rng.random() < .5], ["int", rng.randint(0, 2)], ["float", bits(rng.choice([0.5, 1.5]))], ["str", rng.choice("xy")], ["bytes", rng.choice([b"x", b"y"])]])
        return [rng.choice(["str", "noderef", "noderef_array", "nodespan", "span", "ext"]), args]
    arg = {"noderef": "layer", "noderef_array": "layer", "nodespan": "layer", "span": "context", "ext": "type"}.get(k)
    return [k, {arg: ["str", rng.choice(["a", "b", "main", ""])]} if arg else {}]


def types(ctx, rng):
    ts = [rtype(rng) for _ in range(rng.choice([3, 10, 25]))]
    ts += [rng.choice(ts) for _ in range(rng.randint(0, 4))]
    out = run(ctx, "types", "types", ts)
    for j, (t, (img, same, odd, inside, text)) in enumerate(zip(ts, out)):
        ctx.equal(img, t, "a type does not say what it was made of", printed=text)
        ctx.check(not odd and inside and text, "a type is odd", type=t, printed=text)
        ctx.check(-1 not in same, "equal types have different hash codes", type=t)
        for k, u in enumerate(ts):
            ctx.check((k in same) == (t == u), "equality of types is wrong", type=t, other=u)
        ctx.seen("type", t[0], sorted(t[1]))
    ctx.ev("types_compared", len(ts) ** 2)
    ctx.sample({"types": [str(t) for t in ts[:5]]})

    model, ops = [{}], []
    want = []
    for _ in range(rng.choice([3, 10, 20])):
        s = rng.randrange(len(model))
        m = model[s]
        k = rng.choice(["layer", "layer", "copy", "remove layer", "field", "field", "remove field"])
        names = sorted(m)
        ok = True
        if k == "layer":
            fields = [[f, rtype(rng)] for f in rng.sample("abcd", rng.randint(0, 3))]
            ops.append([k, s, rng.choice("uvw"), fields])
            m[ops[-1][2]] = dict((f, t) for f, t in fields)
        elif k == "copy":
            if len(model) > 4:
                continue
            ops.append([k, s])
            model.append({n: dict(f) for n, f in m.items()})
        elif k == "remove layer":
            ops.append([k, s, rng.choice("uvw")])
            m.pop(ops[-1][2], None)
        elif not names:
            continue
        elif k == "field":
            ops.append([k, s, rng.choice(names), rng.choice("abcd"), rtype(rng)])
            ok = ops[-1][3] not in m[ops[-1][2]]
            if ok:
                m[ops[-1][2]][ops[-1][3]] = ops[-1][4]
        else:
            ops.append([k, s, rng.choice(names), rng.choice("abcd")])
            m[ops[-1][2]].pop(ops[-1][3], None)
        want.append([ok, [{n: dict(f) for n, f in x.items()} for x in model]])
    for op, got, w in zip(ops, run(ctx, "schemas", "schemas", ops), want):
        ctx.equal(got, w, "a schema holds something else than was declared", operation=op)
        ctx.ev("schema_" + op[0].replace(" ", "_"))


SCENARIOS = [("types", types, 200, 8000), ("values", values, 400, 15000), ("spans", spans, 600, 25000), ("sets", sets, 250, 8000)]
REQUIRED = {"phrases_read": 45, "types_compared": 5000, "schema_copy": 50, "schema_field": 100, "schema_layer": 150, "comparisons": 10000, "spans_refused": 150, "parts_refused": 600, "span_with": 1290, "span_sub": 610, "span_codepoints": 630, "spans_in_sets": 370, "documents_printed": 120,
            "value_i32": 200, "value_f64": 200, "value_bool": 150, "value_str": 200, "value_bin": 150}
