"""What the monitors must have observed (REQUIRED), against what they observe with other seeds: prints counts that leave less than half to spare.

usage: margins.py SEEDS [WORKERS] [PROPERTY...]   (SEEDS like 1,2,3; runs in a copy, /verif/evidence is not touched)
"""
import concurrent.futures as cf
import importlib
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile

VERIF = pathlib.Path(__file__).resolve().parent.parent
sys.path[:0] = [str(VERIF), "/repo/py"]


def run(job):
    prop, seed, base = job
    d = "%s/%s-%s" % (base, prop, seed)
    shutil.copytree(VERIF, d, ignore=shutil.ignore_patterns("seeded", ".git", "evidence"))
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, "check.py", prop, "--seed", seed, "--tier", "quick"], cwd=d, env=env, capture_output=True, text=True)
    try:
        ev = json.load(open(d + "/evidence/%s.json" % prop))
    except OSError:
        ev = None
    shutil.rmtree(d)
    return prop, seed, p.returncode, p.stdout.strip()[-1500:] if p.returncode else "", ev


def main():
    seeds = sys.argv[1].split(",")
    workers = int(sys.argv[2]) if len(sys.argv) > 2 else 4
    props = [p.lower() for p in sys.argv[3:]] or sorted(p.stem for p in (VERIF / "mon/props").glob("[a-z][0-9]*.py"))
    base = tempfile.mkdtemp(prefix="margins-", dir="/tmp")
    least, slow = {}, {}
    try:
        with cf.ThreadPoolExecutor(workers) as ex:
            for prop, seed, rc, out, ev in ex.map(run, [(p.upper(), s, base) for s in seeds for p in props]):
                if rc:
                    print("%s seed %s: exit %d\n%s" % (prop, seed, rc, out), flush=True)
                if ev:
                    slow[prop] = max(slow.get(prop, 0), ev["wall_s"])
                    for k in getattr(importlib.import_module("mon.props." + prop.lower()), "REQUIRED", {}):
                        n = ev["coverage"]["observed_events"].get(k, 0)
                        least.setdefault(prop, {}).setdefault(k, n)
                        least[prop][k] = min(least[prop][k], n)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    for prop in sorted(least):
        req = importlib.import_module("mon.props." + prop.lower()).REQUIRED
        for k, n in sorted(least[prop].items()):
            if n < 2 * req[k]:
                print("%s %s: at least %d observed, %d required" % (prop, k, n, req[k]))
    print("slowest:", sorted(((round(v), k) for k, v in slow.items()), reverse=True)[:8])


main()
