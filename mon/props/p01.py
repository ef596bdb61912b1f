"""Printing shows what is there: complete tables within the limits set, and no object that cannot be printed."""
import contextlib
import io
import re

from docria.model import DataTypeEnum, Document, DataTypes as T, Node, NodeList, NodeSpan
from docria import printout
from docria.printout import Table, TableRow, options

from mon import gen

RULE = ("random tables and random documents (with removed targets, unset fields, gaps) printed under random limits; the printed text is parsed back "
        "and every row, column, elision, shortened cell and line width is compared with the source; distinct = (limits, shape, blocks, elided)")
ASSUMPTIONS = ["the number of columns shown is limited by the display width only", "a cell that does not need shortening has at most limit - 5 characters",
               "node spans are printed while their nodes are in the layer"]

DEFAULTS = dict(max_rows=100, max_columns=8, max_column_width=30, max_display_width=120)


@contextlib.contextmanager
def limits(**kw):
    old = {k: getattr(options, k) for k in DEFAULTS}
    try:
        for k, v in kw.items():
            setattr(options, k, v)
        yield
    finally:
        for k, v in old.items():
            setattr(options, k, v)


def shown_as(ctx, cell, source, limit):
    """cell is what was printed for source."""
    if cell == source:
        return False
    ctx.check(limit is not None and len(source) > limit - 5, "a cell was shortened although it fits", cell=cell, source=source, limit=limit)
    m = re.fullmatch(r"(.+) \.\.\. (.+)", cell, re.S)
    ctx.check(m is not None and source.startswith(m.group(1)) and source.endswith(m.group(2)) and len(m.group(1)) + len(m.group(2)) <= len(source),
              "a shortened cell does not show the start and the end", cell=cell, source=source)
    ctx.check(len(cell) <= limit, "a shortened cell is longer than the limit", cell=cell, limit=limit)
    ctx.ev("cells_shortened")
    return True


def tables(ctx, rng):
    rows = gen.size(rng, [0, 1, 2, 3, 5, 9, 10, 11, 30, 101], [260, 600, 1100], .02)
    cols = rng.choice([1, 1, 2, 3, 5, 9, 20])
    lim = dict(max_rows=rng.choice([None, 1, 2, 3, 9, 10, 11, 100]), max_column_width=rng.choice([None, 7, 8, 12, 13, 30, 60]),
               max_display_width=rng.choice([None, 11, 20, 40, 41, 80, 120]), max_columns=rng.choice([None, 1, 8]))
    cell_limit = None if lim["max_column_width"] is None else min(x for x in (lim["max_column_width"], lim["max_display_width"]) if x is not None)
    size = rng.choice([1, 4, 12, 70])
    count = iter(range(10 ** 6))

    def token(limit=None):
        n = next(count)
        t = "%x" % n
        extra = rng.randint(0, size)
        if cell_limit is not None and rng.random() < .3:
            extra = max(0, cell_limit - 5 + rng.randint(-2, 2) - len(t))
        return t + "." + "".join(rng.choice("ghijklmnopqrstuvw%{}<&é漢") for _ in range(extra))
    header = [token() for _ in range(cols)]
    body = [[token() for _ in range(cols)] for _ in range(rows)]
    named = {}
    hide_index = rng.random() < .4
    hide_headers = rng.random() < .2
    caption = rng.choice([None, "Zz", "Z" + "".join(rng.choice("ABCDEFGHIJ") for _ in range(rng.choice([3, 20, 50]))) + "Y"])
    tbl = Table(caption=caption, hide_index=hide_index, hide_headers=hide_headers)
    tbl.set_header(*header) if rng.random() < .5 else tbl.set_header(TableRow(*header))
    names = rng.choice([0, 0, .6, 1])
    for k, r in enumerate(body):
        if names and rng.random() < names:
            named[k] = rng.choice([1000 + 7 * k, 1000 + 7 * k, 0, "n%d" % k, -1])
            tbl.add_body(TableRow(*r, index=named[k]))
        else:
            tbl.add_body(*r)
    with limits(**lim):
        out = tbl.render_text()
        if rng.random() < .3:
            # printing changes nothing
            for _ in range(rng.choice([0, 1])):
                ctx.check(isinstance(tbl.render_html(), str), "no HTML")
            ctx.equal(tbl.render_text(), out, "a table prints differently the second time", limits=lim)
            ctx.ev("printed_twice")
    # which rows are to be seen
    if lim["max_rows"] is None or rows <= lim["max_rows"]:
        want, elided = list(range(rows)), False
    else:
        half = lim["max_rows"] // 2
        want, elided = list(range(half)) + list(range(rows - half, rows)), True
    # parse: cells contain no blanks, but " ... " when shortened
    lines = out.split("\n")
    body_lines = []
    for k, line in enumerate(lines):
        if caption is not None and k == 0:
            shown_as(ctx, line.strip(), caption, cell_limit)
            ctx.ev("captions")
            continue
        if not line.strip():
            continue
        cells = re.split(r"\s+", re.sub(r"(?<=\S) \.\.\. (?=\S)", "\x00", line.strip()))
        cells = [c.replace("\x00", " ... ") for c in cells]
        body_lines.append((line, cells))
    if caption is not None:
        ctx.check(sum("Z" in line for line in lines) == 1, "the caption is not printed once", lines=lines[:50])
    # split into blocks: the columns are printed in consecutive blocks, each with all rows
    per_block = len(want) + (1 if elided else 0) + (0 if hide_headers else 1)
    if per_block == 0:
        ctx.seen("empty", cols)
        return
    ctx.check(len(body_lines) % per_block == 0, "a table does not have the lines it should have", lines=lines[:50], rows=rows, limits=lim)
    nblocks = len(body_lines) // per_block
    pos = 0
    for b in range(nblocks):
        blk = body_lines[b * per_block:(b + 1) * per_block]
        at = 0
        width = None
        if not hide_headers:
            line, cells = blk[0]
            at = 1
            if cells[-1] == "\\":
                cells = cells[:-1]
            if not hide_index:
                ctx.check(cells[0] == "#", "the header lacks its index cell", line=line)
                cells = cells[1:]
            width = len(cells)
            ctx.check(pos + width <= cols, "more header cells than columns", line=line)
            for c, h in zip(cells, header[pos:]):
                shown_as(ctx, c, h, cell_limit)
        seen_rows = []
        for k, (line, cells) in enumerate(blk[at:]):
            if cells == ["..."]:
                ctx.check(elided and k == len(want) // 2, "an elision mark at another place", line=line)
                continue
            r = want[len(seen_rows)]
            seen_rows.append(r)
            if not hide_index:
                ctx.equal(cells[0], str(named.get(r, r)), "a row is printed under another index", line=line)
                cells = cells[1:]
            if width is None:
                width = len(cells)
            ctx.equal(len(cells), width, "a row has another number of cells than the header", line=line)
            for c, s in zip(cells, body[r][pos:]):
                shown_as(ctx, c, s, cell_limit)
                ctx.ev("cells_read_back")
        ctx.equal(seen_rows, want, "rows are missing", limits=lim)
        if width is None:
            width = 1
        ctx.check(width > 0, "a block without columns")
        if lim["max_display_width"] is not None and width > 1:
            for line, _ in blk:
                n = len(line) - (2 if line.endswith(" \\") else 0)
                ctx.check(n <= lim["max_display_width"], "a line is wider than the display", line=line, limit=lim["max_display_width"])
                ctx.ev("lines_within_width")
        pos += width
    if want or not hide_headers:
        ctx.equal(pos, cols, "columns are missing", limits=lim, rows=rows)
    if lim["max_display_width"] is None:
        ctx.equal(nblocks, 1, "a table was wrapped without a limit on its width")
    ctx.ev("tables")
    ctx.ev("tables_wrapped", int(nblocks > 1))
    ctx.ev("tables_elided", int(elided))
    ctx.seen(tuple(lim.values()), rows, cols, nblocks, elided, hide_index, hide_headers)
    ctx.sample({"limits": lim, "rows": rows, "cols": cols, "blocks": nblocks, "elided": elided})


def settings(ctx, rng):
    low = dict(max_rows=1, max_columns=1, max_column_width=7, max_display_width=11)
    name = rng.choice(sorted(low))
    good = rng.choice([None, low[name], low[name] + rng.randint(0, 500)])
    bad = rng.choice([low[name] - 1, 0, -1, -rng.randint(1, 1000)])
    with limits():
        setattr(options, name, good)
        ctx.equal(getattr(options, name), good, "an option does not hold the value set", option=name)
        ctx.rejects(lambda: setattr(options, name, bad), "an option accepted a value below its minimum", option=name, value=bad)
        ctx.equal(getattr(options, name), good, "a rejected value changed the option", option=name)
        others = {k for k in low if k != name}
        ctx.equal({k: getattr(options, k) for k in others}, {k: DEFAULTS[k] for k in others}, "setting an option changed another", option=name)
    ctx.ev("settings")
    ctx.seen(name, good is None, bad)


def text_of(out):
    return re.sub(r"\s+", " ", out)


def objects(ctx, rng):
    """Everything prints; small values are found in what is printed."""
    doc = gen.document(rng, gen.Opts(max_nodes=15, ext=rng.random() < .3))
    # dangling references and lists with them
    for layer in doc.layers.values():
        nodes = list(layer)
        if nodes and rng.random() < .4:
            layer.remove(rng.sample(nodes, rng.randint(1, len(nodes))))
            ctx.ev("removed_targets")
    lim = dict(max_rows=rng.choice([None, 1, 4, 100]), max_column_width=rng.choice([None, 7, 30]), max_display_width=rng.choice([None, 11, 60, 120]))
    with limits(**lim):
        printed = 0

        def show(what, o, html=True):
            nonlocal printed
            r, s = repr(o), str(o)
            ctx.check(isinstance(r, str) and isinstance(s, str), "not printed", what=what)
            if html and hasattr(o, "_repr_html_"):
                ctx.check(isinstance(o._repr_html_(), str), "not printed as HTML", what=what)
            printed += 1
            ctx.seen(what, tuple(lim.values()))
            return r, s
        r, s = show("document", doc)
        ctx.check("%d layers" % len(doc.layers) in r and "%d texts" % len(doc.texts) in r, "the document's summary has other numbers", summary=r)
        ctx.check(all("%s=%s" % (k, v) in r for k, v in doc.props.items()), "a property is missing in the document's summary", summary=r[:600], props=str(dict(doc.props))[:600])
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            doc.printschema()
        sch = buf.getvalue()
        for name, layer in doc.layers.items():
            ctx.check("[%s]" % name in sch, "a layer is missing in the schema", layer=name)
            for f in layer.schema.fields:
                ctx.check(" * %s " % f in sch, "a field is missing in the schema", layer=name, field=f)
        for t in doc.texts.values():
            show("text", t)
            for k in range(2):
                show("textspan", gen.rspan(rng, t))
        for name, layer in doc.layers.items():
            r, s = show("layer", layer)
            ctx.check("N=%d" % len(layer) in r, "a layer is summarised with another size", summary=r, size=len(layer))
            nodes = list(layer)
            show("list", layer.to_list())
            show("mixed list", NodeList([rng.choice(list(x)) for x in doc.layers.values() if len(x)], fieldtypes={}))
            show("pred", ~layer[list(layer.schema.fields)[0]].has_value() if layer.schema.fields else 1)
            for f in layer.schema.fields:
                if any(isinstance(n.get(f), NodeSpan) and (n[f].left.is_dangling() or n[f].right.is_dangling()) for n in nodes):
                    continue
                show("view", layer[f])
                q = layer[layer[f].is_none()]
                r, _ = show("query", q)
                ctx.check("N=%d" % len(q) in r, "a query is summarised with another size", summary=r)
                show("query view", q[f])
            for n in nodes[:4]:
                r, s = show("node", n)
                for f in n:
                    ctx.check(lim["max_column_width"] is not None or lim["max_rows"] is not None and len(n) > lim["max_rows"] or str(f) in s, "a field is missing in a printed node", field=f, printed=s)
                if n:
                    ctx.check("#%d" % n.i in r or n.i != getattr(n, "_id", None), "a node is printed with another number", printed=r)
            if nodes:
                i, j = sorted((rng.randrange(len(nodes)), rng.randrange(len(nodes))))
                show("nodespan", NodeSpan(nodes[i], nodes[j]))
            if nodes:
                x = rng.choice(nodes)
                layer.remove(x)
                show("removed node", x)
                show("list with a removed node", NodeList([x] + [n for n in nodes if n is not x][:2], fieldtypes=layer.schema.fields))
        show("dangling", Node(a=1, b=None, c=[Node()], d=b"x"))
        ctx.ev("objects_printed", printed)


def contents(ctx, rng):
    """Rows of printed collections are the nodes, in order, with their values."""
    doc = Document()
    doc.maintext = "abcdefghij"
    layer = doc.add_layer("l%", k=T.int32(None), s=T.string(None), t=T.span(), r=T.noderef("l%"), m=T.noderef_many("l%"))
    nodes = [layer.add(k=1000 + k) for k in range(gen.size(rng, [1, 3, 10, 30], [270, 600, 990], .06))]
    for n in nodes:
        if rng.random() < .7:
            n["s"] = "v%d" % rng.randrange(10 ** 6)
        if rng.random() < .7:
            a = rng.randint(0, 9)
            n["t"] = doc.maintext[a:a + 1]
        if rng.random() < .5:
            n["r"] = rng.choice(nodes)
        if rng.random() < .5:
            n["m"] = [rng.choice(nodes) for _ in range(rng.choice([0, 1, 2, 4]))]
    if rng.random() < .4:
        layer.remove(rng.sample(nodes, rng.randint(0, len(nodes) // 2)))
    nodes = list(layer)
    if not nodes:
        return
    i, j = sorted((rng.randrange(len(nodes)), rng.randrange(len(nodes))))
    picked = rng.sample(nodes, rng.randint(1, len(nodes)))
    kinds = [("layer", layer, nodes), ("list", NodeList(picked), picked), ("span", NodeSpan(nodes[i], nodes[j]), nodes[i:j + 1]),
             ("query", layer[layer["s"].has_value()], [n for n in nodes if n.get("s") is not None])]
    with limits(max_display_width=None, max_column_width=None, max_rows=None):
        for kind, o, src in kinds:
            s = str(o)
            rows = [line for line in s.split("\n") if re.search(r"\b1\d\d\d\b", line) and "N=" not in line and "nodes" not in line.split("'")[0]
                    or re.search(r"^\s*1\d\d\d\s", line)]
            got = [int(re.match(r"\s*(1\d\d\d)\s", line).group(1)) for line in rows if re.match(r"\s*(1\d\d\d)\s", line)]
            ctx.equal(got, [n["k"] for n in src], "the printed rows are not the nodes", kind=kind)
            lines = [line for line in rows if re.match(r"\s*(1\d\d\d)\s", line)]
            for line, n in zip(lines, src):
                sv = n.get("s")
                ctx.check((sv is None) or ("'%s'" % sv) in line, "a printed row lacks a value", kind=kind, line=line, value=sv)
                tv = n.get("t")
                ctx.check(tv is None or ("[%d:%d]" % (tv.start, tv.stop)) in line, "a printed row lacks its span", kind=kind, line=line)
                unset = sum(n.get(f) is None for f in ("s", "t", "r", "m"))
                ctx.equal(len(re.findall(r"\bNIL\b", line)), unset, "unset fields are not printed as such", kind=kind, line=line)
                mv = n.get("m")
                if mv is not None:
                    ctx.check(("[%d nodes" % len(mv) if len(mv) > 1 else "[]" if not mv else "[Node<") in line, "a list of nodes is printed with another size", line=line)
                ctx.ev("rows_read_back")
            head = next(line for line in s.split("\n") if re.match(r"\s*k\s+m\s+r\s+s\s+t\b", line))
            ctx.check(head is not None, "no header")
            ctx.check(str(len(src)) in s.split("\n")[0], "the caption has another number of nodes", kind=kind, caption=s.split("\n")[0])
            view = str(o["k"])
            got = re.findall(r"(?m)^\s*(\d+)\s+(1\d\d\d)\s*$", view)
            ctx.equal([(int(a), int(b)) for a, b in got], [(a, n["k"]) for a, n in enumerate(src)], "a printed field view differs from the nodes", kind=kind)
            ctx.seen(kind, len(src))


SCENARIOS = [("tables", tables, 1500, 40000), ("settings", settings, 200, 4000), ("objects", objects, 250, 6000), ("contents", contents, 150, 4000)]
REQUIRED = {"captions": 700, "printed_twice": 150, "tables": 730, "tables_wrapped": 200, "tables_elided": 200, "cells_shortened": 2000, "cells_read_back": 20000, "lines_within_width": 1000,
            "objects_printed": 3000, "rows_read_back": 1000, "settings": 100, "removed_targets": 50}
