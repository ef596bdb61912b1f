"""Canonical image of a document, taken only through the public interface.

Unordered where docria promises no order (names of texts, layers, fields), ordered where it does (nodes).
"""
import struct

from docria.codec import MsgpackCodec
from docria.model import DataTypeEnum, Node, NodeSpan, TextSpan, ExtData, Document


def canon_plain(v):
    """Canonical image of a plain value; distinguishes bool/int/float and NaN/-0.0 bit patterns."""
    if isinstance(v, bool):
        return ("bool", v)
    if isinstance(v, int):
        return ("int", int(v))
    if isinstance(v, float):
        return ("float", "nan" if v != v else struct.pack(">d", v).hex())
    if isinstance(v, str):
        return ("str", v)
    if isinstance(v, (bytes, bytearray, memoryview)):
        return ("bytes", bytes(v))
    if v is None:
        return ("none",)
    if isinstance(v, (list, tuple)) and not isinstance(v, Node):
        return ("list", [canon_plain(x) for x in v])
    if isinstance(v, dict) and not isinstance(v, Node):
        return ("map", {canon_plain(k): canon_plain(x) for k, x in v.items()})
    return ("object", type(v).__name__, repr(v))


def ordinals(doc):
    """id(node) -> (layer name, ordinal in iteration order)"""
    out = {}
    for name, layer in doc.layers.items():
        for k, n in enumerate(layer):
            out[id(n)] = (name, k)
    return out


def canon_node(n, ords):
    if not isinstance(n, Node):
        return ("not a node", repr(n))
    o = ords.get(id(n))
    return ("ref",) + o if o is not None else ("dangling",)


def canon_field(dtype, v, ords, check_text=None):
    """None means: treated as unset"""
    t = dtype.typename
    if v is None:
        return None
    if t == DataTypeEnum.SPAN and isinstance(v, TextSpan):
        if check_text is not None and check_text.get(v.text.name) is not v.text:
            return ("span of a foreign text object", v.text.name, v.start, v.stop)
        return ("span", v.text.name, v.start, v.stop, str(v))
    if t == DataTypeEnum.NODEREF:
        return canon_node(v, ords)
    if t == DataTypeEnum.NODEREF_MANY:
        items = [canon_node(x, ords) for x in v]
        return ("refs", items) if items else None
    if t == DataTypeEnum.NODEREF_SPAN and isinstance(v, NodeSpan):
        return ("nodespan", canon_node(v.first(), ords), canon_node(v.last(), ords), [canon_node(x, ords) for x in v])
    if t == DataTypeEnum.EXT:
        return canon_ext(v, dtype.options.get("type"))
    return canon_plain(v)


def canon_ext(v, kind=None):
    if isinstance(v, Document):
        return ("ext", "doc", snap(v))
    if isinstance(v, ExtData):
        d = v.decode() if v.type == "doc" else v.data
        if isinstance(d, Document):
            return ("ext", "doc", snap(d))
        return ("ext", v.type, bytes(d))
    if isinstance(v, (bytes, bytearray)):     # a value may be given in its encoded form
        return ("ext", kind, snap(MsgpackCodec.decode(v)) if kind == "doc" else bytes(v))
    return ("object", repr(v))


def canon_type(dtype):
    return (dtype.typename.name, canon_plain(dict(dtype.options)))


def snap(doc, own_texts=True):
    ords = ordinals(doc)
    texts = doc.texts
    layers = {}
    for name, layer in doc.layers.items():
        fields = {f: canon_type(t) for f, t in layer.schema.fields.items()}
        nodes = []
        for n in layer:
            img = {}
            for f in n.keys():
                dtype = layer.schema.fields.get(f)
                c = canon_field(dtype, n[f], ords, texts if own_texts else None) if dtype is not None \
                    else ("undeclared", canon_plain(n[f]))
                if c is not None:
                    img[f] = c
            nodes.append(img)
        layers[name] = {"schema": fields, "len": len(layer), "nodes": nodes}
    return {"props": canon_plain(doc.props), "texts": {k: str(t) for k, t in texts.items()}, "layers": layers}
