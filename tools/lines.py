#!/opt/venv/bin/python
"""Which source lines of docria no quick check executes (run after changes to the monitors): lines.py"""
import dis, importlib, json, os, pathlib, subprocess, sys
V = pathlib.Path(__file__).resolve().parent.parent
if len(sys.argv) > 1:
    prop, out = sys.argv[1:3]
    sys.path.insert(0, str(V))
    from mon import core
    orig = core.Lines.summary
    def summary(self):
        json.dump({k: sorted(v) for k, v in self.hit.items()}, open(out, "w"))
        return orig(self)
    core.Lines.summary = summary
    sys.exit(core.main([prop]))
import concurrent.futures as cf, tempfile
tmp = tempfile.mkdtemp()
ids = [json.loads(l)["id"] for l in open(V / "properties.jsonl")]
def one(i):
    subprocess.run([sys.executable, "-B", __file__, i, tmp + "/" + i], env=dict(os.environ, PYTHONHASHSEED="0"), stdout=subprocess.DEVNULL, cwd=V)
    return json.load(open(tmp + "/" + i))
hit = {}
with cf.ThreadPoolExecutor(8) as ex:
    for r in ex.map(one, ids):
        for k, v in r.items():
            hit.setdefault(k, set()).update(v)
def code_lines(code):
    out = {l for _, _, l in code.co_lines() if l}
    for c in code.co_consts:
        if hasattr(c, "co_lines"):
            out |= code_lines(c)
    return out
for f in sorted(pathlib.Path("/repo/py/docria").glob("*.py")):
    src = f.read_text().splitlines()
    miss = sorted(code_lines(compile(f.read_text(), str(f), "exec")) - hit.get(f.name, set()))
    miss = [l for l in miss if not src[l-1].lstrip().startswith(("def ", "class ", "import ", "from ", "@", '"""', "assert", "\"")) and src[l-1].startswith("    ")]
    print("==", f.name, len(miss))
    for l in miss:
        print("%5d %s" % (l, src[l - 1]))
