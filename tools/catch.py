#!/opt/venv/bin/python
"""Which checks catch which planted bugs.  Each bug is applied in a copy of /repo that is bind-mounted over
/repo in a mount namespace of its own, so bugs are tried in parallel and the real tree is not touched.

usage: catch.py [--own] [--seed N] [ID...]     (--own: only the check of the bug's own property)
writes /verif/tools/catch.json (merged)
"""
import concurrent.futures as cf
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile

V = pathlib.Path("/verif")
SEED = "1"


def run(bid, own, tier="quick"):
    d = V / "seeded" / bid
    meta = json.loads((d / "meta.json").read_text())
    props = [json.loads(x)["id"] for x in (V / "properties.jsonl").read_text().splitlines() if x.strip()]
    claimed = [c["property"] for c in json.loads((V / "MANIFEST.json").read_text())["checks"]] \
        if "checks" in json.loads((V / "MANIFEST.json").read_text()) else props
    todo = [meta["property"]] if own else claimed
    tmp = tempfile.mkdtemp(prefix="catch-%s-" % bid, dir="/tmp")
    res = {}
    try:
        shutil.copytree("/repo", tmp + "/repo", symlinks=True)
        shutil.copytree("/verif", tmp + "/verif", ignore=shutil.ignore_patterns("seeded", ".git", "evidence"))
        os.makedirs(tmp + "/verif/evidence")
        p = subprocess.run(["git", "apply", str(d / "patch.diff")], cwd=tmp + "/repo", capture_output=True, text=True)
        if p.returncode:
            return bid, meta["property"], {"apply": p.stderr}
        for prop in todo:
            cmd = "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && exec /opt/venv/bin/python check.py %s" % (tmp, tmp, prop)
            env = dict(os.environ, VERIF_SEED=SEED, VERIF_TIER=tier)
            try:
                p = subprocess.run(["unshare", "-rm", "bash", "-c", cmd], env=env, capture_output=True, text=True, timeout=900)
                viol = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION property=" + prop)]
                res[prop] = (p.returncode, len(viol), "" if p.returncode == 0 else p.stderr[-900:] if p.returncode == 1 and not viol else p.stdout[-600:] + p.stderr[-600:] if p.returncode != 1 else "\n".join(l for l in p.stdout.splitlines() if not l.startswith("VIOLATION"))[:500])
            except subprocess.TimeoutExpired:
                res[prop] = (124, 0, "timeout")
        return bid, meta["property"], res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    global SEED
    args = sys.argv[1:]
    own = "--own" in args
    verbose = "-v" in args
    if "--seed" in args:
        SEED = args[args.index("--seed") + 1]
        args.remove("--seed"); args.remove(SEED)
    ids = [a for a in args if not a.startswith("-")] or sorted(p.name for p in (V / "seeded").iterdir())
    out = V / "tools/catch.json"
    table = json.loads(out.read_text()) if out.exists() else {}
    missed = []
    with cf.ThreadPoolExecutor(8) as ex:
        for bid, prop, res in ex.map(lambda b: run(b, own), ids):
            hit = [p for p, r in res.items() if r[0] == 1 and r[1]]
            odd = {p: r for p, r in res.items() if r[0] not in (0, 1) or (r[0] == 1 and not r[1])}
            print("%-32s %s %-7s by %s%s" % (bid, prop, "caught" if prop in hit else "MISSED", " ".join(hit), "  ODD %s" % odd if odd else ""), flush=True)
            if verbose:
                for p in hit:
                    print("    ", p, res[p][2])
            if prop not in hit:
                missed.append(bid)
            if not own:
                table[bid] = {"property": prop, "caught_by": hit}
    if not own:
        ids = {p.name for p in (V / "seeded").iterdir()}
        out.write_text(json.dumps({k: v for k, v in sorted(table.items()) if k in ids}, indent=1) + "\n")
    print("%d of %d caught by their own property's check; missed: %s" % (len(ids) - len(missed), len(ids), " ".join(missed)))


if __name__ == "__main__":
    main()
