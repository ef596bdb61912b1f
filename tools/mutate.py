#!/opt/venv/bin/python
"""Random small changes of docria: which of them pass the tests and no check sees?

usage: mutate.py [--deep] OUT.jsonl COUNT SEED [WORKERS] [MODULE...]
(--deep: changes that need a state or a size to show: remembered results, shared containers, loops that end after N, swallowed errors, swapped statements ...)
Every change is made in a copy of /repo that is bind-mounted over /repo in a mount namespace of its own.
"""
import ast
import atexit
import concurrent.futures as cf
import json
import os
import pathlib
import random
import shutil
import subprocess
import sys
import tempfile

V = pathlib.Path("/verif")
SRC = pathlib.Path("/repo/py/docria")
PY = "/opt/venv/bin/python"
FIRST = {
    "model.py": "L01 L03 D01 C01 C05 T01 T02 Q01 Q03 L04 Q02 L02 C08 P01 C02 C04",
    "codec.py": "C01 C03 C04 C05 C06 C07 C02 C08 J01",
    "collection.py": "F01 F02 F03 F04 F05 F06 F07 F08 J02",
    "algorithm.py": "A01 A02 A03 A04 A05",
    "query.py": "Q01",
    "printout.py": "P01 P02",
}
NEG = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}


class Sites(ast.NodeVisitor):
    def __init__(self, text):
        self.text = text
        self.lines = text.splitlines(keepends=True)
        self.starts = [0]
        for l in self.lines:
            self.starts.append(self.starts[-1] + len(l.encode()))
        self.raw = text.encode()
        self.out = []        # (begin, end, replacement, description)
        self.inside = 0

    def pos(self, line, col):
        return self.starts[line - 1] + col

    def span(self, n):
        return self.pos(n.lineno, n.col_offset), self.pos(n.end_lineno, n.end_col_offset)

    def src(self, n):
        a, b = self.span(n)
        return self.raw[a:b].decode()

    def rep(self, n, s, what):
        a, b = self.span(n)
        self.out.append((a, b, s, what, n.lineno))

    def visit_FunctionDef(self, n):
        self.inside += 1
        for x in n.body:
            self.visit(x)
        self.inside -= 1

    def generic_visit(self, n):
        if self.inside:
            self.sites(n)
        if isinstance(n, ast.Assert):
            return
        super().generic_visit(n)

    def sites(self, n):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = self.span(n.left)[1], self.span(n.comparators[0])[0]
            self.rep(n, "%s %s %s" % (self.src(n.left), NEG[type(n.ops[0])], self.src(n.comparators[0])), "comparison")
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            self.rep(n, "%s %s %s" % (self.src(n.left), "-" if isinstance(n.op, ast.Add) else "+", self.src(n.right)), "arithmetic")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            self.rep(n, "(" + op.join("(" + self.src(v) + ")" for v in n.values) + ")", "and/or")
            k = random.randrange(len(n.values))
            old = " and " if isinstance(n.op, ast.And) else " or "
            self.rep(n, "(" + old.join("(" + self.src(v) + ")" for i, v in enumerate(n.values) if i != k) + ")", "condition dropped")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            self.rep(n, self.src(n.operand), "not dropped")
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            self.rep(n.test, "False", "never")
            if not isinstance(n, ast.While):
                self.rep(n.test, "True", "always")
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            self.rep(n, str(n.value + 1), "constant+1")
            self.rep(n, str(n.value - 1) if n.value > 0 else "(-1)", "constant-1")
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            self.rep(n, str(not n.value), "boolean")
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete, ast.Raise)) or isinstance(n, ast.Expr) and isinstance(n.value, (ast.Call, ast.Yield, ast.YieldFrom)):
            self.rep(n, "pass", "statement dropped")
        elif isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            self.rep(n.value, "None", "return None")
        elif isinstance(n, ast.Break):
            self.rep(n, "continue", "break")
        elif isinstance(n, ast.Continue):
            self.rep(n, "break", "continue")
        elif isinstance(n, ast.Slice):
            if n.lower is not None:
                self.rep(n.lower, "", "slice start")
            if n.upper is not None:
                self.rep(n.upper, "", "slice stop")
        elif isinstance(n, ast.Call) and len(n.args) == 1 and not n.keywords and isinstance(n.func, ast.Name) and n.func.id in ("sorted", "list", "set", "dict", "bytes", "int", "str", "iter", "tuple", "escape", "reversed"):
            self.rep(n, self.src(n.args[0]), "call of %s dropped" % n.func.id)


MEMO = """@(lambda f: lambda *a, **k: (m[q] if (q := repr((a[1:], k))) in (m := a[0].__dict__.setdefault("_memo_" + f.__name__, {})) else m.setdefault(q, f(*a, **k))))"""
SWAP = {"start": "stop", "left": "right", "first": "last", "keys": "values", "min": "max", "append": "extend", "start_offset": "stop_offset", "update": "setdefault", "lstrip": "strip", "rfind": "find"}
SWAP.update({v: k for k, v in list(SWAP.items()) if v in ("stop", "right", "last", "max")})


class Deep(Sites):
    def visit_ClassDef(self, n):
        self.cls = n.name
        self.generic_visit(n)

    def visit_FunctionDef(self, n):
        args = n.args.args
        if args and args[0].arg == "self" and n.name not in ("__init__", "__setattr__", "__hash__") and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)):
            a = self.pos(n.lineno, n.col_offset)
            self.out.append((a, a, MEMO + "\n" + " " * n.col_offset, "result of %s remembered" % n.name, n.lineno))
        for body in [x for y in ast.walk(n) for x in (getattr(y, "body", None), getattr(y, "orelse", None), getattr(y, "finalbody", None)) if isinstance(x, list)]:
            for x, y in zip(body, body[1:]):
                if all(isinstance(z, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete, ast.If)) for z in (x, y)) and not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)):
                    (a, b), (c, d) = self.span(x), self.span(y)
                    self.out.append((a, d, self.raw[c:d].decode() + self.raw[b:c].decode() + self.raw[a:b].decode(), "statements swapped", x.lineno))
        super().visit_FunctionDef(n)

    def sites(self, n):
        if isinstance(n, (ast.For, ast.comprehension)):
            k = random.choice([3, 16, 100, 1000])
            self.rep(n.iter, "__import__('itertools').islice(%s, %d)" % (self.src(n.iter), k), "loop ends after %d" % k)
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) and isinstance(n.targets[0].value, ast.Name) and n.targets[0].value.id == "self":
            v = n.value
            if isinstance(v, (ast.Dict, ast.List)) or isinstance(v, ast.Call) and not v.args and not v.keywords:
                self.rep(v, "vars(__import__('docria')).setdefault('_sh_%s_%s', %s)" % (getattr(self, "cls", ""), n.targets[0].attr, self.src(v)), "shared by all objects")
            self.rep(v, "getattr(self, %r, None) or (%s)" % (n.targets[0].attr, self.src(v)), "set only once")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript) and not isinstance(n.targets[0].slice, ast.Slice) and len(n.targets) == 1:
            t = n.targets[0]
            self.rep(n, "%s.setdefault(%s, %s)" % (self.src(t.value), self.src(t.slice), self.src(n.value)), "set only if missing")
        elif isinstance(n, ast.Raise):
            self.rep(n, "return None", "error swallowed")
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            self.rep(n.type, "Exception", "catches all")
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value is None:
            self.rep(n, ("(not %s)" if isinstance(n.ops[0], ast.Is) else "bool(%s)") % self.src(n.left), "none by truth")
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.Is)):
            self.rep(n, "%s %s %s" % (self.src(n.left), "is" if isinstance(n.ops[0], ast.Eq) else "==", self.src(n.comparators[0])), "== and is")
        elif isinstance(n, ast.Attribute) and n.attr in SWAP:
            self.rep(n, self.src(n.value) + "." + SWAP[n.attr], "%s for %s" % (SWAP[n.attr], n.attr))
        elif isinstance(n, ast.ListComp):
            self.rep(n, "(" + self.src(n)[1:-1] + ")", "list made lazily")
        elif isinstance(n, ast.IfExp):
            self.rep(n, "(%s if %s else %s)" % (self.src(n.orelse), self.src(n.test), self.src(n.body)), "branches swapped")
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name) and f.id == "isinstance" and isinstance(n.args[1], ast.Name):
                self.rep(n, "(type(%s) is %s)" % (self.src(n.args[0]), n.args[1].id), "exact type")
            elif isinstance(f, ast.Name) and f.id == "len":
                k = random.choice([16, 255, 65535])
                self.rep(n, "min(len(%s), %d)" % (self.src(n.args[0]), k), "length up to %d" % k)
            elif isinstance(f, ast.Name) and f.id in ("min", "max", "any", "all"):
                self.rep(f, {"min": "max", "max": "min", "any": "all", "all": "any"}[f.id], "other than " + f.id)
            elif isinstance(f, ast.Attribute) and f.attr == "get" and n.args:
                d = self.src(n.args[1]) if len(n.args) > 1 else "None"
                self.rep(n, "(%s.get(%s) or %s)" % (self.src(f.value), self.src(n.args[0]), d), "get by truth")
            for kw in n.keywords:
                if kw.arg:
                    a, b = self.pos(kw.lineno, kw.col_offset), self.pos(kw.end_lineno, kw.end_col_offset)
                    before = self.raw[:a].rstrip()
                    if before.endswith(b","):
                        self.out.append((len(before) - 1, b, "", "argument dropped", kw.lineno))
        elif isinstance(n, ast.AugAssign):
            self.rep(n, "%s = %s" % (self.src(n.target), self.src(n.value)), "assigned instead of added")

DEEP = False


def mutants(modules, rng):
    out = []
    for m in modules:
        text = (SRC / m).read_text()
        s = (Deep if DEEP else Sites)(text)
        random.seed(rng.random())
        s.visit(ast.parse(text))
        for site in s.out:
            a, b, r, what, line = site
            new = (s.raw[:a] + r.encode() + s.raw[b:]).decode()
            try:
                ast.parse(new)
            except SyntaxError:
                continue
            out.append((m, line, what, s.raw[a:b].decode(), r, new))
    return out


def one(args):
    k, (m, line, what, old, new, text), props = args
    res = {"module": m, "line": line, "what": what, "old": old[:160], "new": new[:160]}
    tmp = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        shutil.copytree(BASE + "/repo", tmp + "/repo", symlinks=True)
        (pathlib.Path(tmp, "repo/py/docria") / m).write_text(text)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", VERIF_SEED="1", VERIF_TIER="quick")
        ns = "mount --bind %s/repo /repo && " % tmp
        try:
            p = subprocess.run(["unshare", "-rm", "bash", "-c", ns + "cd /repo/py && exec " + PY + " -m pytest tests -q -x -p no:cacheprovider --timeout=120"], env=env, capture_output=True, text=True, timeout=300)
            if p.returncode != 0:
                res["verdict"] = "tests"
                return res
        except subprocess.TimeoutExpired:
            res["verdict"] = "tests"
            return res
        shutil.copytree(BASE + "/verif", tmp + "/verif")
        ns += "mount --bind %s/verif /verif && cd /verif && " % tmp
        order = FIRST.get(m, "").split()
        order += [x for x in props if x not in order]
        res["odd"] = []
        for prop in order:
            try:
                p = subprocess.run(["unshare", "-rm", "bash", "-c", ns + "exec " + PY + " check.py " + prop], env=env, capture_output=True, text=True, timeout=600)
            except subprocess.TimeoutExpired:
                res["odd"].append([prop, "timeout"])
                continue
            if p.returncode == 1 and "VIOLATION property=" + prop in p.stdout:
                res["verdict"] = prop
                return res
            if p.returncode != 0:
                res["odd"].append([prop, p.returncode, (p.stdout + p.stderr)[-300:]])
        res["verdict"] = "SURVIVED"
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def snapshot():
    """What is tested is what was there at the start, whatever is edited meanwhile."""
    global BASE
    BASE = tempfile.mkdtemp(prefix="mutbase-", dir="/tmp")
    atexit.register(shutil.rmtree, BASE, True)
    shutil.copytree("/repo", BASE + "/repo", symlinks=True)
    shutil.copytree("/verif", BASE + "/verif", ignore=shutil.ignore_patterns("seeded", ".git", "evidence"))
    os.makedirs(BASE + "/verif/evidence")


def main():
    global DEEP
    DEEP = "--deep" in sys.argv
    if DEEP:
        sys.argv.remove("--deep")
    out, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    workers = int(sys.argv[4]) if len(sys.argv) > 4 else 6
    modules = sys.argv[5:] or ["model.py", "codec.py", "collection.py", "algorithm.py", "query.py", "printout.py"]
    rng = random.Random(seed)
    props = [json.loads(x)["id"] for x in (V / "properties.jsonl").read_text().splitlines() if x.strip()]
    props = [p for p in props if not p.startswith("J")]
    ms = mutants(modules, rng)
    if os.environ.get("MUT_WHAT"):
        ms = [m for m in ms if os.environ["MUT_WHAT"] in m[2]]
    rng.shuffle(ms)
    print(len(ms), "sites", flush=True)
    snapshot()
    with cf.ThreadPoolExecutor(workers) as ex, open(out, "a") as f:
        for r in cf.as_completed([ex.submit(one, (k, m, props)) for k, m in enumerate(ms[:count])]):
            f.write(json.dumps(r.result()) + "\n")
            f.flush()


if __name__ == "__main__":
    main()
