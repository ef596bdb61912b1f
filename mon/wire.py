"""Independent reader and writer of the docria binary layout (DM_1), with its own MessagePack code.

Nothing here uses docria or the msgpack package: it is the oracle for what the bytes mean.
"""
import struct


class WireError(Exception):
    pass


class Bin(bytes):
    """A value that was written with a MessagePack bin header."""


# ---------------------------------------------------------------- reader
class R:
    def __init__(self, data, pos=0):
        self.d, self.p = data, pos

    def take(self, n):
        if self.p + n > len(self.d):
            raise WireError("truncated at %d" % self.p)
        b = self.d[self.p:self.p + n]
        self.p += n
        return b

    def u(self, n):
        return int.from_bytes(self.take(n), "big")

    def s(self, n):
        return int.from_bytes(self.take(n), "big", signed=True)

    def value(self):
        t = self.u(1)
        if t <= 0x7f:
            return t
        if t <= 0x8f:
            return self.map(t & 0xf)
        if t <= 0x9f:
            return self.arr(t & 0xf)
        if t <= 0xbf:
            return self.str(t & 0x1f)
        if t >= 0xe0:
            return t - 256
        if t == 0xc0:
            return None
        if t == 0xc2:
            return False
        if t == 0xc3:
            return True
        if t in (0xc4, 0xc5, 0xc6):
            return Bin(self.take(self.u(1 << (t - 0xc4))))
        if t == 0xca:
            return struct.unpack(">f", self.take(4))[0]
        if t == 0xcb:
            return struct.unpack(">d", self.take(8))[0]
        if t in (0xcc, 0xcd, 0xce, 0xcf):
            return self.u(1 << (t - 0xcc))
        if t in (0xd0, 0xd1, 0xd2, 0xd3):
            return self.s(1 << (t - 0xd0))
        if t in (0xd9, 0xda, 0xdb):
            return self.str(self.u(1 << (t - 0xd9)))
        if t in (0xdc, 0xdd):
            return self.arr(self.u(2 << (t - 0xdc)))
        if t in (0xde, 0xdf):
            return self.map(self.u(2 << (t - 0xde)))
        raise WireError("unexpected type byte %#x" % t)

    def str(self, n):
        return self.take(n).decode("utf-8")

    def arr(self, n):
        return [self.value() for _ in range(n)]

    def map(self, n):
        out = {}
        for _ in range(n):
            k = self.value()
            if k in out:
                raise WireError("duplicate key %r" % (k,))
            out[k] = self.value()
        return out


def parse(data):
    """bytes -> {"props", "types", "schema": {layer: [(field, type, args)]}, "texts": {name: [segments]},
    "layers": {layer: (num_nodes, {field: column})}}"""
    if data[:4] != b"DM_1":
        raise WireError("bad magic %r" % data[:4])
    r = R(data, 4)

    def count(what):
        v = r.value()
        if isinstance(v, bool) or not isinstance(v, int) or v < 0:
            raise WireError("%s is not a size: %r" % (what, v))
        return v

    n = count("length of properties")
    start = r.p
    props = r.value()
    if r.p - start != n:
        raise WireError("property segment length %d, actual %d" % (n, r.p - start))
    types = r.value()
    schema = {}
    for t in types:
        nf = count("number of fields")
        fields = []
        for _ in range(nf):
            name = r.value()
            has_args = r.value()
            ty = r.value()
            if has_args not in (True, False) or not isinstance(has_args, bool):
                raise WireError("has_args is %r" % (has_args,))
            fields.append((name, ty, r.value() if has_args else {}))
        if t in schema:
            raise WireError("duplicate layer %r" % t)
        schema[t] = fields
    n = count("length of texts")
    start = r.p
    texts = r.value()
    if r.p - start != n:
        raise WireError("text segment length %d, actual %d" % (n, r.p - start))
    layers = {}
    for t in types:
        n = count("length of layer")
        start = r.p
        num = count("number of nodes")
        cols = {}
        for name, ty, args in schema[t]:
            special = r.value()
            if special is not False:
                raise WireError("special encoding %r" % (special,))
            cols[name] = r.value()
        if r.p - start != n:
            raise WireError("layer segment length %d, actual %d" % (n, r.p - start))
        layers[t] = (num, cols)
    if r.p != len(data):
        raise WireError("%d trailing bytes" % (len(data) - r.p))
    return {"props": props, "types": types, "schema": schema, "texts": texts, "layers": layers}


TYPENAMES = {"i32": "I32", "i64": "I64", "f64": "F64", "i1": "BOOL", "str": "STRING", "bin": "BINARY", "noderef": "NODEREF",
             "noderef_array": "NODEREF_MANY", "span": "SPAN", "ext": "EXT", "nodespan": "NODEREF_SPAN"}
PY = {"i32": int, "i64": int, "f64": float, "i1": bool, "str": str, "bin": bytes}


def image(w):
    """A parsed document -> the canonical image that mon.snap takes of a docria document."""
    from mon.snap import canon_plain
    offsets = {}
    for name, segs in w["texts"].items():
        offs, pos = [0], 0
        for s in segs:
            pos += len(s)
            offs.append(pos)
        offsets[name] = offs
    texts = {k: "".join(v) for k, v in w["texts"].items()}
    layers = {}
    for t in w["types"]:
        num, cols = w["layers"][t]
        nodes = [{} for _ in range(num)]
        fields = {}
        for name, ty, args in w["schema"][t]:
            fields[name] = (TYPENAMES[ty], canon_plain(args))
            col = cols[name]
            want = num * 2 if ty == "span" else num
            if not isinstance(col, list) or len(col) != want:
                raise WireError("column %r of layer %r has %s entries, expected %d" % (name, t, len(col), want))
            for i in range(num):
                if ty == "span":
                    a, b = col[2 * i], col[2 * i + 1]
                    if (a is None) != (b is None):
                        raise WireError("half a span in %r of %r" % (name, t))
                    if a is None:
                        continue
                    ctx = args["context"]
                    a, b = offsets[ctx][a], offsets[ctx][b]
                    nodes[i][name] = ("span", ctx, a, b, texts[ctx][a:b])
                    continue
                v = col[i]
                if v is None:
                    continue
                if ty == "noderef":
                    nodes[i][name] = ("ref", args["layer"], chk(v, w, args))
                elif ty == "noderef_array":
                    nodes[i][name] = ("refs", [("ref", args["layer"], chk(x, w, args)) for x in v])
                elif ty == "nodespan":
                    left, right = v[0], v[0] + v[1]
                    if v[1] < 0:
                        raise WireError("negative node span")
                    chk(left, w, args), chk(right, w, args)
                    nodes[i][name] = ("nodespan", ("ref", args["layer"], left), ("ref", args["layer"], right),
                                      [("ref", args["layer"], k) for k in range(left, right + 1)])
                elif ty == "ext":
                    nodes[i][name] = ("ext", args["type"], bytes(v))
                else:
                    if not isinstance(v, PY[ty]) or (ty in ("i32", "i64") and isinstance(v, bool)):
                        raise WireError("value %r in a column of type %s" % (v, ty))
                    nodes[i][name] = canon_plain(v)
        layers[t] = {"schema": fields, "len": num, "nodes": nodes}
    return {"props": canon_plain(w["props"]), "texts": texts, "layers": layers}


def chk(v, w, args):
    n = w["layers"][args["layer"]][0]
    if isinstance(v, bool) or not isinstance(v, int) or not 0 <= v < n:
        raise WireError("reference %r outside of layer %r with %d nodes" % (v, args["layer"], n))
    return v


# ---------------------------------------------------------------- writer
def pack(v, rng):
    """MessagePack with randomly chosen (valid) header widths."""
    def wide(options):
        return rng.choice(options) if rng.random() < .3 else options[0]

    if v is None:
        return b"\xc0"
    if v is True:
        return b"\xc3"
    if v is False:
        return b"\xc2"
    if isinstance(v, int):
        o = []
        if 0 <= v <= 0x7f:
            o.append(bytes([v]))
        if -32 <= v < 0:
            o.append(bytes([256 + v]))
        for k, n in enumerate((1, 2, 4, 8)):
            if 0 <= v < 1 << (8 * n):
                o.append(bytes([0xcc + k]) + v.to_bytes(n, "big"))
            if -(1 << (8 * n - 1)) <= v < 1 << (8 * n - 1):
                o.append(bytes([0xd0 + k]) + v.to_bytes(n, "big", signed=True))
        return wide(o)
    if isinstance(v, float):
        return b"\xcb" + struct.pack(">d", v)
    if isinstance(v, str):
        b = v.encode("utf-8")
        o = []
        if len(b) < 32:
            o.append(bytes([0xa0 + len(b)]))
        if len(b) < 256:
            o.append(b"\xd9" + bytes([len(b)]))
        if len(b) < 65536:
            o.append(b"\xda" + len(b).to_bytes(2, "big"))
        o.append(b"\xdb" + len(b).to_bytes(4, "big"))
        return wide(o) + b
    if isinstance(v, (bytes, bytearray)):
        o = [bytes([0xc4 + k]) + len(v).to_bytes(n, "big") for k, n in enumerate((1, 2, 4)) if len(v) < 1 << (8 * n)]
        return wide(o) + bytes(v)
    if isinstance(v, (list, tuple)):
        n = len(v)
        o = ([bytes([0x90 + n])] if n < 16 else []) + ([b"\xdc" + n.to_bytes(2, "big")] if n < 65536 else []) + \
            [b"\xdd" + n.to_bytes(4, "big")]
        return wide(o) + b"".join(pack(x, rng) for x in v)
    if isinstance(v, dict):
        n = len(v)
        o = ([bytes([0x80 + n])] if n < 16 else []) + ([b"\xde" + n.to_bytes(2, "big")] if n < 65536 else []) + \
            [b"\xdf" + n.to_bytes(4, "big")]
        return wide(o) + b"".join(pack(k, rng) + pack(x, rng) for k, x in v.items())
    raise TypeError(v)


def build(w, rng):
    out = bytearray(b"DM_1")
    p = pack(w["props"], rng)
    out += pack(len(p), rng) + p
    out += pack(w["types"], rng)
    for t in w["types"]:
        out += pack(len(w["schema"][t]), rng)
        for name, ty, args in w["schema"][t]:
            has = bool(args) or rng.random() < .1
            out += pack(name, rng) + pack(has, rng) + pack(ty, rng)
            if has:
                out += pack(args, rng)
    p = pack(w["texts"], rng)
    out += pack(len(p), rng) + p
    for t in w["types"]:
        num, cols = w["layers"][t]
        p = pack(num, rng)
        for name, ty, args in w["schema"][t]:
            p += pack(False, rng) + pack(cols[name], rng)
        out += pack(len(p), rng) + p
    return bytes(out)


def resegment(w, rng):
    """The same document with other, equally valid, text segments, layer order and field order."""
    texts, maps = {}, {}
    for name, segs in w["texts"].items():
        text = "".join(segs)
        offs, pos = [0], 0
        for s in segs:
            pos += len(s)
            offs.append(pos)
        extra = {rng.randint(0, len(text)) for _ in range(rng.choice([0, 1, 3, 10]))}
        cuts = sorted(set(offs) | extra)
        texts[name] = [text[a:b] for a, b in zip(cuts, cuts[1:])]
        if len(cuts) == 1:
            texts[name] = [] if rng.random() < .5 else [""]
        index = {o: k for k, o in enumerate(cuts)}
        maps[name] = [index[o] for o in offs]
    items = list(texts.items())
    rng.shuffle(items)
    types = list(w["types"])
    rng.shuffle(types)
    schema, layers = {}, {}
    for t in types:
        fs = list(w["schema"][t])
        rng.shuffle(fs)
        schema[t] = fs
        num, cols = w["layers"][t]
        ncols = {}
        for name, ty, args in fs:
            c = cols[name]
            if ty == "span":
                m = maps[args["context"]]
                c = [None if x is None else m[x] for x in c]
            ncols[name] = c
        layers[t] = (num, ncols)
    return {"props": w["props"], "types": types, "schema": schema, "texts": dict(items), "layers": layers}
