"""The HTML presentation is well-formed and treats all document content as text."""
import html.parser
import re

from docria.model import Document, DataTypes as T, Node, NodeList, NodeSpan
from docria.printout import Table, TableRow

from mon import gen
from mon.props.p01 import limits

RULE = ("documents whose texts, names and values are markup, quotes, entities and urns, presented as HTML under random limits; the result is parsed: "
        "tags balanced and only the expected ones, cell texts equal to the source, links only for known urns; distinct = (object kind, cells, hostile kinds)")
ASSUMPTIONS = ["a cell that does not need shortening has at most limit - 5 characters"]

HOSTILE = ["<script>alert(1)</script>", "<b>", "</td></tr></table>", "&amp;", "&lt;b&gt;", "\"quoted\"", "it's", "<!-- c -->", "]]>", "a & b", "<img src=x onerror=y>",
           "&#60;", "<", ">", "&", "'", "' onclick='x", "\" onclick=\"x", "<td>", "{0}", "%s", "é<漢>"]
ALLOWED = {"table": set(), "thead": set(), "tbody": set(), "tr": set(), "th": {"colspan", "style"}, "td": {"colspan", "style"}, "em": set(), "a": {"href"},
           "h3": set(), "pre": set()}


class Parsed(html.parser.HTMLParser):
    def __init__(self, ctx, source):
        super().__init__(convert_charrefs=True)
        self.ctx = ctx
        self.stack = []
        self.cells = []          # (kind, text, hrefs, emphasised)
        self.rows = []
        self.links = []
        self.blocks = {}
        self.feed(source)
        self.close()
        ctx.check(not self.stack, "unbalanced HTML", open=self.stack)

    def handle_starttag(self, tag, attrs):
        self.ctx.check(tag in ALLOWED, "document content became an element", tag=tag)
        self.ctx.check(all(k in ALLOWED[tag] for k, _ in attrs), "document content became an attribute", tag=tag, attrs=attrs)
        self.ctx.check(len(dict(attrs)) == len(attrs), "repeated attribute", attrs=attrs)
        self.stack.append(tag)
        if tag == "tr":
            self.rows.append([])
        if tag in ("td", "th"):
            if not self.rows:
                self.rows.append([])
            self.rows[-1].append([tag, "", [], False])
        if tag == "a":
            self.rows[-1][-1][2].append(dict(attrs)["href"])
        if tag == "em" and self.rows and self.rows[-1]:
            self.rows[-1][-1][3] = True
        self.ctx.ev("elements")

    def handle_endtag(self, tag):
        self.ctx.check(self.stack and self.stack[-1] == tag, "unbalanced HTML", tag=tag, open=self.stack)
        self.stack.pop()

    def handle_data(self, data):
        if self.stack and self.stack[-1] in ("pre", "h3"):
            self.blocks[self.stack[-1]] = self.blocks.get(self.stack[-1], "") + data
        elif any(t in ("td", "th") for t in self.stack):
            self.rows[-1][-1][1] += data
        else:
            self.ctx.check(not data.strip(), "text outside of cells", data=data)

    def handle_comment(self, data):
        self.ctx.check(False, "document content became a comment", data=data)

    def handle_decl(self, decl):
        self.ctx.check(False, "document content became a declaration", data=decl)

    def handle_pi(self, data):
        self.ctx.check(False, "document content became a processing instruction", data=data)

    unknown_decl = handle_decl


def hostile(rng):
    return "".join(rng.choice(HOSTILE + ["abc", " ", "x"]) for _ in range(rng.choice([1, 1, 2, 3])))


def shown(cell, source, limit):
    if cell == source:
        return limit is None or len(source) <= limit
    if limit is None or len(source) <= limit - 5:
        return False
    m = re.fullmatch(r"(.+) \.\.\. (.+)", cell, re.S)
    return m is not None and source.startswith(m.group(1)) and source.endswith(m.group(2)) and len(cell) <= limit


def rurn(rng):
    kind = rng.choice(["wikidata", "wikidata", "wikipedia", "wikipedia", "other", "Wikidata", "WIKIPEDIA"])
    part = rng.choice(["Q34", "sv:Sverige", "en:A<b>", "x'y\"z", "Q&amp;", "sv:a:b", "onclick='x'", "<script>"])
    return kind, part, "urn:%s:%s" % (kind, part)


def cell_tables(ctx, rng):
    cols = rng.choice([1, 2, 5])
    rows = gen.size(rng, [0, 1, 3, 12], [130, 300, 1100], .02)
    lim = dict(max_rows=rng.choice([None, 1, 2, 5, 10, 100]), max_column_width=rng.choice([None, 7, 30, 60]), max_display_width=rng.choice([None, 11, 120]))
    cell_limit = None if lim["max_column_width"] is None else min(x for x in (lim["max_column_width"], lim["max_display_width"]) if x is not None)
    tbl = Table(caption=rng.choice([None, hostile(rng)]))
    header = [hostile(rng) for _ in range(cols)]
    tbl.set_header(*header)
    body, urns, names, named = [], {}, [], rng.random() < .3
    for r in range(rows):
        row = []
        for c in range(cols):
            if rng.random() < .3:
                kind, part, urn = rurn(rng)
                urns[(r, c)] = (kind, part)
                row.append(urn)
            else:
                row.append(hostile(rng))
        body.append(row)
        names.append(rng.choice([hostile, hostile, hostile, lambda r: ""])(rng) if named and rng.random() < .8 else None)
        if names[-1] is None:
            tbl.add_body(*row)
        else:
            tbl.add_body(TableRow(*row, index=names[-1]))
    with limits(**lim):
        out = tbl.render_html()
    p = Parsed(ctx, out)
    got = [r for r in p.rows]
    if tbl.caption is not None:
        ctx.check(len(got[0]) == 1 and got[0][0][1] == tbl.caption, "the caption reads differently", caption=tbl.caption, cells=got[0])
        got = got[1:]
    ctx.check(len(got) > 0, "no header")
    ctx.equal(len(got[0]), cols + 1, "number of header cells differs")
    for cell, s in zip(got[0][1:], header):
        ctx.check(shown(cell[1], s, cell_limit), "a header cell reads differently", cell=cell[1], source=s)
    if lim["max_rows"] is None or rows <= lim["max_rows"]:
        want = list(range(rows))
    else:
        half = lim["max_rows"] // 2
        want = list(range(half)) + [None] + list(range(rows - half, rows))
    ctx.equal(len(got) - 1, len(want), "number of rows differs", limits=lim)
    for row, r in zip(got[1:], want):
        if r is None:
            ctx.equal(len(row), 1, "the elision row has other cells")
            ctx.ev("elisions")
            continue
        if names[r] is None:
            ctx.equal(row[0][1], str(r), "a row has another index")
        else:
            ctx.check(row[0][1] == names[r] or shown(row[0][1], names[r], cell_limit), "the name of a row reads differently", cell=row[0][1], source=names[r])
            ctx.ev("named_rows")
        ctx.equal(len(row), cols + 1, "number of cells differs")
        for c, cell in enumerate(row[1:]):
            s = body[r][c]
            ctx.check(shown(cell[1], s, cell_limit), "a cell reads differently", cell=cell[1], source=s, limit=cell_limit)
            kind = urns.get((r, c), (None, None))[0]
            if kind is not None and kind.lower() in ("wikidata", "wikipedia"):
                part = urns[(r, c)][1]
                ctx.equal(len(cell[2]), 1, "a known urn is not a link", source=s)
                if kind.lower() == "wikidata":
                    ctx.equal(cell[2][0], "https://www.wikidata.org/wiki/" + part, "a urn links to another place", source=s)
                elif ":" in part:
                    lang, title = part.split(":", 1)
                    ctx.equal(cell[2][0], "https://%s.wikipedia.org/wiki/%s" % (lang, title), "a urn links to another place", source=s)
                else:
                    ctx.check(".wikipedia.org/" in cell[2][0] and cell[2][0].endswith(part), "a urn links to another place", source=s, href=cell[2][0])
                ctx.ev("links")
            else:
                ctx.equal(cell[2], [], "a link for something that is not a known urn", source=s)
            ctx.ev("cells")
    ctx.ev("tables")
    ctx.seen(cols, rows, tuple(lim.values()), len(urns))
    ctx.sample({"row": body[0] if body else None, "limits": lim})


def objects(ctx, rng):
    doc = Document()
    tname = rng.choice(["main", hostile(rng)])
    doc.add_text(tname, hostile(rng) + "abcdef")
    name = hostile(rng)
    f1, f2, f3, f4 = [chr(97 + k) + hostile(rng) for k in range(4)]
    layer = doc.add_layer(name, **{f1: T.string(None), f2: T.span(tname), f3: T.noderef(name), f4: T.noderef_many(name)})
    nodes = [layer.add() for _ in range(rng.choice([1, 2, 5]))]
    for n in nodes:
        if rng.random() < .8:
            n[f1] = hostile(rng)
        if rng.random() < .6:
            a = rng.randint(0, 5)
            n[f2] = doc.texts[tname][a:a + rng.randint(0, 5)]
        if rng.random() < .5:
            n[f3] = rng.choice(nodes)
        if rng.random() < .5:
            n[f4] = [rng.choice(nodes) for _ in range(rng.choice([0, 1, 3]))]
    with limits(max_column_width=None):
        for kind, o, src in [("layer", layer, nodes), ("list", NodeList(nodes), nodes), ("query", layer[layer[f1].has_value()], [n for n in nodes if n.get(f1) is not None]),
                             ("nodespan", NodeSpan(nodes[0], nodes[-1]), nodes)]:
            p = Parsed(ctx, o._repr_html_())
            if kind == "layer":
                ctx.check(name in p.rows[0][0][1], "the layer's name reads differently", cell=p.rows[0][0][1])
            head = [c[1] for c in p.rows[1]][1:]
            ctx.equal(head, sorted([f1, f2, f3, f4]), "the header reads differently", kind=kind)
            col = head.index(f1) + 1
            ctx.equal([r[col][1] for r in p.rows[2:]], [repr(n[f1]) if f1 in n and n[f1] is not None else "NIL" for n in src],
                      "values read differently", kind=kind)
            ctx.ev("objects_" + kind)
            ctx.seen(kind, len(src), sum(f1 in n for n in nodes))
        for n in nodes:
            p = Parsed(ctx, n._repr_html_())
            ctx.equal([r[1][1] for r in p.rows[2:]], list(n.keys()), "fields of a node read differently")
            ctx.ev("objects_node")
        for f in (f1, f2, f3, f4):
            p = Parsed(ctx, layer[f]._repr_html_())
            if f == f1:
                got = [r[1] for r in p.rows[2:]]
                ctx.equal([c[1] for c in got], [str(n.get(f1)) for n in nodes], "a field view reads differently")
            ctx.ev("objects_view")
        t = doc.texts[tname]
        p = Parsed(ctx, t._repr_html_())
        ctx.equal(p.blocks.get("pre"), t.text, "the text reads differently")
        ctx.check(tname in p.blocks.get("h3", ""), "the name of the text reads differently")
        ctx.ev("objects_text")


def full(ctx, rng):
    """Random documents with every field type: well-formed."""
    doc = gen.document(rng, gen.Opts(max_nodes=8))
    lim = dict(max_rows=rng.choice([None, 1, 4]), max_column_width=rng.choice([None, 7, 30]))
    with limits(**lim):
        for layer in doc.layers.values():
            objs = [layer, layer.to_list()] + list(layer)[:3] + [layer[f] for f in layer.schema.fields]
            for o in objs:
                p = Parsed(ctx, o._repr_html_())
                ctx.ev("random_objects")
                ctx.seen(type(o).__name__, len(p.rows))
        for t in doc.texts.values():
            Parsed(ctx, t._repr_html_())


SCENARIOS = [("cell_tables", cell_tables, 800, 20000), ("objects", objects, 200, 6000), ("full", full, 120, 4000)]
REQUIRED = {"named_rows": 200, "tables": 400, "cells": 2000, "links": 300, "elisions": 50, "objects_layer": 100, "objects_view": 400, "objects_text": 100, "random_objects": 500}
