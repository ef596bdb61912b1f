"""Field views and tables show, row by row, what the nodes hold."""
from docria.model import DataTypeEnum, Document, DataTypes as T, Node, NodeSpan, TextSpan

from mon import gen

RULE = ("random documents with gaps; every field view (of layers, lists, spans, queries) and every pandas table (field selections, materialised spans, "
        "with and without references) compared cell by cell with the nodes; distinct = document shapes x table options")
ASSUMPTIONS = ["pandas shows an unset numeric cell as NaN, and numbers of such a column as floats"]


def missing(x):
    return x is None or (isinstance(x, float) and x != x)


def same_cell(got, want, materialized):
    if want is None:
        return missing(got)
    if materialized and isinstance(want, TextSpan):
        return got == want.text.text[want.start:want.stop] and isinstance(got, str)
    if isinstance(want, bool):
        return got == want
    if isinstance(want, int):
        return got == want or float(got) == float(want)
    if isinstance(want, float):
        return got == want or (want != want and got != got)
    if isinstance(want, (str, bytes)):
        return type(got) is type(want) and got == want
    return got is want


def nones(rng, doc):
    """Some values are None explicitly (a document under construction)."""
    for layer in doc.layers.values():
        if rng.random() < .3:
            for n in layer:
                for f in layer.schema.fields:
                    if rng.random() < .2:
                        n[f] = None


def views(ctx, rng):
    doc = gen.document(rng, gen.Opts(max_nodes=gen.size(rng, [20], [300, 1500], .01)))
    nones(rng, doc)
    for name, layer in doc.layers.items():
        nodes = list(layer)
        for f in layer.schema.fields:
            want = [n[f] if f in n else None for n in nodes]
            cols = [("layer", layer, nodes), ("list", layer.to_list(), nodes), ("slice", layer[0:5], [n for n in nodes if n.i < 5]),
                    ("query", layer[layer[f].has_value()], [n for n, w in zip(nodes, want) if w is not None])]
            if nodes:
                i, j = sorted((rng.randrange(len(nodes)), rng.randrange(len(nodes))))
                cols.append(("span", NodeSpan(nodes[i], nodes[j]), nodes[i:j + 1]))
            for kind, col, src in cols:
                v = col[f]
                w = [n[f] if f in n else None for n in src]
                for got in (list(v), v.to_list(), list(v)):
                    ctx.check(len(got) == len(w) and all(a is b for a, b in zip(got, w)), "a field view differs from the nodes", kind=kind, field=f,
                              got=repr(got)[:300], want=repr(w)[:300])
                ctx.check(len(v) == len(src), "length of a field view differs", kind=kind)
                ctx.check(v.dtype.typename == layer.schema.fields[f].typename, "type of a field view differs")
                ctx.ev("views_" + kind)
                ctx.seen(kind, len(src), layer.schema.fields[f].typename.name, sum(x is None for x in w))
            for n in nodes[:5]:
                if f in n:
                    ctx.check(layer[f][n.i] is n[f] and layer[f][n] is n[f], "indexing a field view differs")
        ctx.rejects(lambda: layer["no such field!"], "a view of an undeclared field")


def tables(ctx, rng):
    doc = gen.document(rng, gen.Opts(max_nodes=20, max_layers=3)) if rng.random() < .97 else gen.long_document(rng)
    nones(rng, doc)
    for name, layer in doc.layers.items():
        fields = list(layer.schema.fields)
        if "__ref" in fields:
            continue
        nodes = list(layer)
        kw = {}
        sel = fields
        if fields and rng.random() < .5:
            sel = rng.sample(fields, rng.randint(0, len(fields)))
            kw["fields"] = sel
        mat = rng.random() < .5
        if mat:
            kw["materialize_spans"] = True
        ref = rng.random() < .7
        if not ref:
            kw["include_ref_field"] = False
        before = [dict(n) for n in nodes]
        df = layer.to_pandas(**kw)
        ctx.equal(sorted(df.columns), sorted(sel + (["__ref"] if ref else [])), "columns of the table differ", options=repr(kw))
        if sel or ref:
            ctx.equal(len(df), len(nodes), "rows of the table differ", options=repr(kw))
        for f in sel:
            got = df[f].tolist()
            for n, g in zip(nodes, got):
                ctx.check(same_cell(g, n[f] if f in n else None, mat), "a cell of the table differs from the node", field=f, options=repr(kw), got=repr(g),
                          want=repr(n.get(f)))
                ctx.ev("cells")
                if f in n and n[f] is None:
                    ctx.ev("cells_of_none")
                if mat and isinstance(n.get(f), TextSpan):
                    ctx.ev("materialized_cells")
        if ref:
            ctx.check(all(a is b for a, b in zip(df["__ref"].tolist(), nodes)), "references of the table differ")
        ctx.check(all(dict(n) == b for n, b in zip(nodes, before)) and all(a is b for a, b in zip(layer, nodes)), "making a table changed the layer")
        if fields:
            ctx.rejects(lambda: layer.to_pandas(fields=["no such field!"]), "a table of an undeclared field")
        ctx.ev("tables")
        ctx.seen("table", len(nodes), len(fields), mat, ref, tuple(sorted(t.typename.name for t in layer.schema.fields.values())))
        ctx.sample({"options": repr(kw), "rows": len(nodes), "columns": list(df.columns)})


SCENARIOS = [("views", views, 500, 20000), ("tables", tables, 700, 25000)]
REQUIRED = dict({"views_" + k: 300 for k in ["layer", "list", "slice", "query", "span"]}, tables=400, cells=5000, materialized_cells=100, cells_of_none=500)
