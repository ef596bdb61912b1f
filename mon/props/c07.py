"""XML export is well formed and says what the document says."""
import base64
import struct
import xml.dom.minidom
import xml.etree.ElementTree as ET
import xml.parsers.expat

from docria.codec import MsgpackCodec, XmlCodec

from mon import gen
from mon.snap import snap

RULE = ("random documents with hostile text (control characters, markup, astral characters) exported with all option combinations, parsed by "
        "expat and read back by an independent reader; distinct = document shape x options")
ASSUMPTIONS = ["layer, field, text names are XML names (they become attribute names and ids)", "characters that XML 1.0 cannot hold are "
               "replaced one for one by a space"]

XID = "{http://www.w3.org/XML/1998/namespace}id"


def xchar(c):
    o = ord(c)
    return o in (9, 10, 13) or 0x20 <= o <= 0xD7FF or 0xE000 <= o <= 0xFFFD or 0x10000 <= o <= 0x10FFFF


def xs(s):
    return "".join(c if xchar(c) else " " for c in s)


def value(img):
    k = img[0]
    if k == "float":
        return None
    if k in ("int", "bool"):
        return str(img[1])
    if k == "str":
        return xs(img[1])
    if k == "bytes":
        return base64.b64encode(img[1]).decode()
    if k == "ref":
        return str(img[2])
    raise AssertionError(img)


def export(ctx, rng):
    if rng.random() < .03:
        doc = gen.long_document(rng, gen.Opts(ext=rng.random() < .4))
        ctx.ev("long_documents")
    else:
        doc = gen.document(rng, gen.Opts(simple_names=True, max_nodes=15, ext=rng.random() < .4))
    want = snap(doc)
    kw = {}
    if rng.random() < .5:
        kw["verbose"] = rng.random() < .7
    if rng.random() < .5:
        kw["verbose_node_spans"] = rng.random() < .7
    if rng.random() < .5:
        kw["document_id"] = "doc" + str(rng.randint(0, 99))
    s = XmlCodec.encode_utf8string(doc, **kw)
    ctx.check(isinstance(s, str), "XML export is not a string")
    try:
        p = xml.parsers.expat.ParserCreate("utf-8")
        p.Parse(s.encode("utf-8"), True)
        root = ET.fromstring(s.encode("utf-8"))
    except (xml.parsers.expat.ExpatError, ET.ParseError, UnicodeEncodeError) as e:
        ctx.check(False, "XML export is not well formed: %s" % e, options=kw)
    ctx.ev("well_formed")
    if any(not xchar(c) for t in want["texts"].values() for c in t):
        ctx.ev("texts_with_forbidden_characters")
    if any(ord(c) > 0xffff for t in want["texts"].values() for c in t):
        ctx.ev("texts_with_astral_characters")

    did = kw.get("document_id", "")
    prefix = did + "." if did else ""
    ctx.equal(root.tag, "document", "root element")
    ctx.equal(root.get(XID), did or None, "document id")
    ctx.equal({e.get("key"): e.get("value") for e in root.findall("props/prop")}, {xs(k): xs(str(v)) for k, v in doc.props.items()},
              "properties in the XML differ")
    schema = {}
    for d in root.findall("schema/define"):
        schema[d.get("layer")] = {f.get("name"): (f.get("type"), {a.get("key"): a.get("value") for a in f.findall("arg")})
                                  for f in d.findall("field")}
    from docria.model import DataType2String
    ctx.equal(schema, {l: {f: (DataType2String[t.typename], {k: xs(str(v)) for k, v in t.options.items()})
                           for f, t in lay.schema.fields.items()} for l, lay in doc.layers.items()}, "schema in the XML differs")
    offsets, texts = {}, {}
    for t in root.findall("texts/text"):
        offs, pos = [0], 0
        for k, seg in enumerate(t.findall("sep/s")):
            v = seg.get("v")
            if kw.get("verbose"):
                ctx.equal((seg.get("id"), seg.get("start"), seg.get("stop")), (str(k), str(pos), str(pos + len(v))), "verbose text segment")
            pos += len(v)
            offs.append(pos)
        offsets[t.get("name")] = offs
        texts[t.get("name")] = "".join(x.get("v") for x in t.findall("sep/s"))
        if kw.get("verbose"):
            ctx.equal(t.find("raw").get("value"), texts[t.get("name")], "raw text in verbose XML")
            ctx.ev("verbose_texts")
    ctx.equal(texts, {k: xs(v) for k, v in want["texts"].items()}, "texts in the XML differ")
    layers = {}
    for l in root.findall("layers/layer"):
        layers[l.get("name")] = l.findall("n")
    ctx.equal(sorted(layers), sorted(want["layers"]), "layers in the XML differ")
    for name, img in want["layers"].items():
        ns = layers[name]
        ctx.equal(len(ns), img["len"], "number of nodes in the XML differs", layer=name)
        for i, (e, n) in enumerate(zip(ns, img["nodes"])):
            attrs = dict(e.attrib)
            ctx.equal(attrs.pop(XID), prefix + name + "." + str(i), "node id", layer=name)
            got, exp = {}, {}
            for f, v in attrs.items():
                if img["schema"].get(f, ("",))[0] == "EXT":
                    b = base64.b64decode(v, validate=True)
                    kind = dict(img["schema"][f][1][1])[("str", "type")][1]
                    got[f] = ("ext", kind, snap(MsgpackCodec.decode(b)) if kind == "doc" else b)
                    ctx.ev("xml_extensions")
                elif img["schema"].get(f, ("",))[0] == "F64":
                    x = float(v)
                    got[f] = ("float", "nan" if x != x else struct.pack(">d", x).hex())
                else:
                    got[f] = v
            for d in e.findall("d"):
                if d.get("until") is not None:
                    ty = img["schema"][d.get("name")]
                    ctxname = dict(ty[1][1])[("str", "context")][1]
                    o = offsets[ctxname]
                    a, b = o[int(d.get("from"))], o[int(d.get("until"))]
                    got[d.get("name")] = ("span", ctxname, a, b, texts[ctxname][a:b])
                    ctx.ev("xml_spans")
                else:
                    got[d.get("name")] = ("nodespan", d.get("from"), d.get("to"))
                    ctx.ev("xml_nodespans")
            for a in e.findall("a"):
                es = [x.get("v") for x in a.findall("e")]
                if es:
                    got[a.get("name")] = ("refs", es)
            tt = {x.get("key"): x.get("value") for x in e.findall("t")}
            for f, v in n.items():
                if v[0] == "span":
                    exp[f] = v[:4] + (xs(v[4]),)
                elif v[0] == "nodespan":
                    exp[f] = ("nodespan", "%s.%d" % v[1][1:], "%s.%d" % v[2][1:])
                elif v[0] == "refs":
                    exp[f] = ("refs", [str(x[2]) for x in v[1]])
                elif v[0] in ("float", "ext"):
                    exp[f] = v
                else:
                    exp[f] = value(v)
            ctx.equal(got, exp, "node in the XML differs", layer=name, node=i, options=kw)
            if kw.get("verbose_node_spans"):
                ctx.equal(tt, {f: v[4] for f, v in exp.items() if isinstance(v, tuple) and v[0] == "span"}, "materialized spans", layer=name)
                ctx.ev("materialized_spans", len(tt))
    ctx.seen(gen.shape(doc), sorted(kw.items()))
    ctx.sample({"options": kw, "xml": s[:200]})


SCENARIOS = [("export", export, 1500, 60000)]
REQUIRED = {"well_formed": 750, "texts_with_forbidden_characters": 100, "texts_with_astral_characters": 100, "xml_spans": 300,
            "xml_nodespans": 300, "materialized_spans": 100, "verbose_texts": 100, "xml_extensions": 100, "long_documents": 20}
