"""An index search finds exactly the documents whose properties match, in order, in one file and across files."""
import io
import os
import pickle
import sys

from docria.codec import MsgpackCodec, MsgpackDocument
from docria.collection import (DocumentFileIndex, DocumentIndex, MsgpackDocumentReader, MsgpackDocumentWriter, build_msgpack_directory_fileindex,
                               build_msgpack_fileindex, get_codec)
from docria.model import Document

from mon import coll, gen
from mon.snap import snap

RULE = ("random collections whose properties take few values of many types (missing, None, booleans, numbers, strings, bytes), random conjunctions "
        "searched eagerly and lazily against a scan; directories of collections indexed by several processes, saved, loaded and searched from other "
        "working directories; distinct = (number of conditions, hits, blocks hit, lazy, number of files)")
ASSUMPTIONS = ["indexed properties are hashable", "values match by equality after decoding (1 equals 1.0 and True)", "the files are not changed "
               "after indexing", "no order between files"]

VALUES = [None, True, False, 0, 1, 2, 1.0, 2.5, -1, "", "a", "b", "1", "åäö", "\U0001F600", b"", b"a", 1 << 40]


def make(rng, n, tag):
    docs = []
    for k in range(n):
        d = Document()
        d.props["uid"] = "%s/%d" % (tag, k)
        for p in ("p", "q", "type"):
            if rng.random() < .8:
                d.props[p] = rng.choice(VALUES if p != "q" else VALUES[:6])
        if rng.random() < .3:
            d.maintext = gen.rstr(rng, 10)
            d.add_layer("l", x=gen.T.span()).add(x=d.maintext[2:5])
        if rng.random() < .1:
            d.props["q2"] = [1, 2]
        docs.append(d)
    return docs


def write(rng, path, docs):
    with MsgpackDocumentWriter(path, num_docs_per_block=rng.choice([1, 2, 3, 7, 128]), codec=get_codec(coll.codec_name(rng, fast=True))) as w:
        datas = [coll.write_one(rng, w, d) for d in docs]
    return datas


def condition(rng, props, docs=()):
    c = {}
    if docs and rng.random() < .6:
        d = rng.choice(docs)
        keys = [k for k in props if k in d.props and k != "uid"]
        if keys:
            return {k: d.props[k] for k in rng.sample(keys, rng.randint(1, len(keys)))}
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
        k = rng.choice(props + ["p", "q"])
        c[k] = rng.choice(VALUES[:8] if k == "q" else VALUES)
    return c


def scan(docs, datas, cond, indexed):
    out = []
    for d, b in zip(docs, datas):
        if all(k in indexed and k in d.props and d.props[k] == v for k, v in cond.items()):
            out.append(b)
    return out


def image(x):
    return x.binary() if isinstance(x, MsgpackDocument) else MsgpackCodec.encode(x)


def many(rng, n):
    """Hundreds of documents of many properties: values of hundreds of documents, and hundreds of values."""
    docs = []
    for k in range(n):
        d = Document()
        d.props["uid"] = "x/%d" % k
        d.props["p"] = rng.choice(VALUES) if rng.random() < .5 else VALUES[5]
        d.props["q"] = k % rng.choice([2, 2, 3])
        d.props["type"] = rng.randrange(n)
        for j in range(8):
            d.props["r%d" % j] = rng.random() < .8
        if rng.random() < .02:
            d.props["pad"] = rng.randbytes(50000)
        docs.append(d)
    return docs


def single(ctx, rng):
    path = os.path.join(ctx.tmp, "i%d.docria" % rng.getrandbits(48))
    long = rng.random() < .06
    docs = many(rng, rng.choice([129, 257, 300, 600, 1100])) if long else make(rng, rng.choice([0, 1, 5, 20, 40]), "x")
    datas = write(rng, path, docs)
    props = rng.sample(["p", "q", "type", "uid", "absent"], rng.randint(1, 5))
    if long:
        props = rng.sample(["p", "q", "type", "uid"] + ["r%d" % j for j in range(8)], 12)
        ctx.ev("long_collections")
    if rng.random() < .5:
        ix = DocumentFileIndex.build(path, *props)
    else:
        ix = build_msgpack_fileindex(path, *props)
    if rng.random() < .3:
        ix = pickle.loads(pickle.dumps(ix))
    with MsgpackDocumentReader(path) as r:
        refs = [d.ref for d in r]
    ctx.equal(list(map(tuple, ix.docrefs)), refs, "references of the index differ from reading the file")
    for _ in range(10):
        cond = condition(rng, props, docs)
        if rng.random() < .1 and docs:
            cond = {"uid": rng.choice(docs).props["uid"]}
        if long and rng.random() < .5:
            cond = {p: True for p in rng.sample(props, len(props)) if p.startswith("r")}
            if rng.random() < .5:
                cond = dict(list(cond.items())[:rng.randint(1, 3)])
            if rng.random() < .3:
                cond["q"] = 1
        want = scan(docs, datas, cond, props)
        lazy = rng.random() < .5
        arg = cond if rng.random() < .8 else list(cond.items())
        if rng.random() < .5:
            got = list(ix.search(arg, lazy=lazy))
        else:
            got = [x for x in ix.search(arg, lazy)]
        ctx.check(all(isinstance(g, MsgpackDocument if lazy else Document) for g in got), "search gave something of another type", lazy=lazy)
        ctx.equal([image(g) for g in got], want, "search found other documents, or in another order", condition=cond, indexed=props, lazy=lazy)
        if lazy:
            for g in got:
                ctx.check(refs[datas.index(g.binary())] == g.ref, "a found document has a wrong reference")
        ctx.ev("searches")
        ctx.ev("hits", len(want))
        ctx.ev("searches_with_hundreds_of_hits", len(want) > 100)
        ctx.ev("empty_searches" if not want else "multi_searches" if len(cond) > 1 else "single_searches")
        ctx.seen(len(cond), len(want), lazy, len(docs))
        ctx.sample({"condition": repr(cond), "hits": len(want), "of": len(docs)})
    ctx.equal(list(ix.search({})), [], "a search without conditions")
    # two searches side by side
    a, b = condition(rng, props, docs), condition(rng, props, docs)
    ga, gb = ix.search(a, lazy=True), ix.search(b)
    ra, rb = [], []
    while ga is not None or gb is not None:
        for which in rng.sample("ab", 2):
            if which == "a" and ga is not None:
                x = next(ga, None)
                if x is None:
                    ga = None
                else:
                    ra.append(x.binary())
            if which == "b" and gb is not None:
                x = next(gb, None)
                if x is None:
                    gb = None
                else:
                    rb.append(image(x))
    ctx.equal((ra, rb), (scan(docs, datas, a, props), scan(docs, datas, b, props)), "two searches at the same time disturb each other")
    os.unlink(path)


def files(ctx, rng):
    directory(ctx, rng, many=True)


def directory(ctx, rng, many=False):
    root = os.path.join(ctx.tmp, "dir%d" % rng.getrandbits(48))
    sub = os.path.join(root, "data")
    os.makedirs(sub)
    found = {}
    manual = rng.random() < .5 and not many
    for k in range(rng.choice([0, 1, 3, 5]) if not many else 40):
        name = rng.choice(["f%d.docria", "part-%d.docria", "f%d.docria.xz", "å%d.docria"]) % k
        if manual and rng.random() < .6:
            # files of the same name in several directories
            name = os.path.join(rng.choice(["x", "y", os.path.join("x", "y"), os.path.join("..", "z")]), "f0.docria")
            if name in found:
                continue
            os.makedirs(os.path.join(sub, os.path.dirname(name)), exist_ok=True)
            ctx.ev("same_name_in_other_directory")
        path = os.path.join(sub, name)
        docs = make(rng, rng.choice([0, 1, 4, 10] if not many else [1, 10, 20]), name)
        found[name] = (docs, write(rng, path, docs))
    for name in ["notes.txt", "f.docria.tmp", "docria"]:
        with open(os.path.join(sub, name), "w") as f:
            f.write("not a collection")
    props = rng.sample(["p", "q", "type", "uid"], rng.randint(1, 4))
    if many and "q" not in props:
        props.append("q")
    os.chdir(root)
    try:
        base = rng.choice([".", root, sub, ctx.tmp])
        if manual:
            mi = DocumentIndex(basepath=base)
            for name in found:
                own = build_msgpack_fileindex(rng.choice([os.path.join(sub, name), os.path.join("data", name)]), *props)
                if rng.random() < .3:
                    # the same file index in another directory index before, and used on its own after
                    other = DocumentIndex(basepath=rng.choice([".", root, sub, ctx.tmp]))
                    other.add(own)
                    mi.add(own)
                    d, b = found[name]
                    cond = condition(rng, props, d)
                    for ix in rng.sample([own, other], 2):
                        ctx.equal([image(g) for g in ix.search(cond)], scan(d, b, cond, props), "a file index which was added to a directory index finds "
                                  "other documents", condition=cond, indexed=props)
                    ctx.ev("shared_file_indexes")
                else:
                    mi.add(own)
        else:
            sys.stderr.flush()
            saved, null = os.dup(2), os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 2)
            try:
                mi = build_msgpack_directory_fileindex(rng.choice([sub, "data"]), *props, basepath=base, num_workers=rng.choice([1, 2, 3]))
            finally:
                sys.stderr.flush()
                os.dup2(saved, 2)
                os.close(saved)
                os.close(null)
        if rng.random() < .5:
            mi.save(os.path.join(root, "index.pickle"))
            mi = DocumentIndex.load(os.path.join(root, "index.pickle"))
            ctx.ev("saved_and_loaded")
        if rng.random() < .5:
            os.chdir(rng.choice([sub, ctx.tmp, "/"]))
            ctx.ev("other_working_directory")
        for _ in range(6):
            cond = condition(rng, props, [d for f in found.values() for d in f[0]])
            if many and rng.random() < .6:
                cond = {"q": rng.choice(VALUES[:6])}
            lazy = rng.random() < .5
            got = list(mi.search(cond, lazy=lazy))
            per_file = {}
            for g in got:
                uid = (g.properties() if lazy else g.props)["uid"]
                per_file.setdefault(uid.rpartition("/")[0], []).append(image(g))
            want = {n: s for n, s in ((n, scan(d, b, cond, props)) for n, (d, b) in found.items()) if s}
            ctx.equal(per_file, want, "search over several files found other documents", condition=cond, indexed=props)
            ctx.ev("directory_searches")
            ctx.ev("searches_of_many_files", len(per_file) > 16)
            ctx.ev("directory_hits", len(got))
            ctx.seen("dir", len(found), len(cond), len(got), lazy, manual)
    finally:
        os.chdir(ctx.tmp)
    import shutil
    shutil.rmtree(root)


SCENARIOS = [("single", single, 250, 10000), ("directory", directory, 70, 1500), ("files", files, 4, 60)]
REQUIRED = {"searches": 1250, "hits": 1000, "empty_searches": 200, "multi_searches": 100, "directory_searches": 200, "directory_hits": 100,
            "saved_and_loaded": 10, "other_working_directory": 10, "same_name_in_other_directory": 17, "shared_file_indexes": 8, "long_collections": 5, "searches_with_hundreds_of_hits": 15, "searches_of_many_files": 1}
