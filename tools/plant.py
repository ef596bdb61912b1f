#!/opt/venv/bin/python
"""Confirm planted bugs in scratch copies and write them to /verif/seeded/<id>/.

usage: plant.py [ID...]      (default: every spec in tools/bugs/*.py that has no directory yet; --all redoes all)

A spec module defines BUGS: list of dicts id, property, edits [(file, old, new)], demo, needs, breaks.
"""
import concurrent.futures as cf
import json
import os
import pathlib
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

V = pathlib.Path("/verif")
PY = "/opt/venv/bin/python"
BASE = "99d48bd"
DEMO_SH = '''#!/bin/bash
# exit 0: the behaviour holds; nonzero: it is broken.  Run with cwd /repo.
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD/py" PYTHONDONTWRITEBYTECODE=1
exec timeout 250 /opt/venv/bin/python -B -W ignore "$D/demo.py"
'''


DEMO_JAVA = '''#!/bin/bash
# exit 0: the behaviour holds; nonzero: it is broken.  Run with cwd /repo.
# stubs/ has stand-ins for msgpack-core and fastutil, which are not available offline.
D=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d) || exit 99
trap 'rm -rf -- "$S"' EXIT
export PYTHONPATH="$PWD/py" PYTHONDONTWRITEBYTECODE=1
unset JAVA_TOOL_OPTIONS JDK_JAVA_OPTIONS CLASSPATH
if [ -e "$D/prep.py" ]; then timeout 60 /opt/venv/bin/python -B -W ignore "$D/prep.py" "$S" || exit 98; fi
mkdir "$S/classes"
H=; if [ -e "$D/hadoop-stubs" ]; then H="$D/hadoop-stubs $PWD/java/hadoop/src/main/java"; fi
find "$D/stubs" "$PWD/java/core/src/main/java" $H -name '*.java' > "$S/files"
javac -J-XX:+UseSerialGC -J-Xmx1g -J-XX:-UsePerfData -encoding UTF-8 -nowarn -Xlint:none -proc:none -d "$S/classes" @"$S/files" "$D/Demo.java" || exit 97
timeout 150 java -Xmx512m -XX:+UseSerialGC -XX:-UsePerfData -cp "$S/classes" Demo "$S"
exit $?
'''


def sh(cmd, cwd, timeout=400):
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", LANG="C.UTF-8")
    p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def stable(copy):
    xml = copy + "/junit.xml"
    rc, out = sh([PY, "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "--timeout=300",
                  "-o", "junit_family=xunit2", "--junitxml=" + xml], copy + "/py")
    return rc, out


def do(bug):
    bid = bug["id"]
    tmp = tempfile.mkdtemp(prefix="plant-%s-" % bid, dir="/tmp")
    try:
        copy = tmp + "/repo"
        shutil.copytree("/repo", copy, symlinks=True)
        sh(["git", "checkout", "-q", "--", "."], copy)
        out = pathlib.Path(tmp, "out")
        out.mkdir()
        java = "java" in bug
        (out / "demo.sh").write_text(DEMO_JAVA if java else DEMO_SH)
        (out / "demo.sh").chmod(0o755)
        if java:
            shutil.copytree(str(V / "java/stubs"), str(out / "stubs"))
            if bug.get("hadoop"):
                shutil.copytree(str(V / "java/hadoop-stubs"), str(out / "hadoop-stubs"))
            (out / "Demo.java").write_text(bug["java"].lstrip("\n"))
            if bug["prep"]:
                (out / "prep.py").write_text(bug["prep"].lstrip("\n"))
        else:
            (out / "demo.py").write_text(bug["demo"].lstrip("\n"))
        for hs in ("0", "7", "random"):
            os.environ["X"] = hs
            rc, o = sh(["env", "PYTHONHASHSEED=" + hs, "bash", str(out / "demo.sh")], copy)
            if rc != 0:
                return bid, "demo fails on the clean tree:\n" + o[-1500:]
        for f, old, new in bug["edits"]:
            p = pathlib.Path(copy, "py/docria", f)
            s = p.read_text()
            if s.count(old) != 1:
                return bid, "old text occurs %d times in %s: %r" % (s.count(old), f, old[:80])
            p.write_text(s.replace(old, new))
        rc, diff = sh(["git", "diff"], copy)
        # some changed line must be one of the original repository
        orig = False
        for f in {e[0] for e in bug["edits"]}:
            _, d0 = sh(["git", "diff", "-U0", "--", "py/docria/" + f], copy)
            _, blame = sh(["git", "blame", "-s", "--abbrev=7", "HEAD", "--", "py/docria/" + f], copy)
            bl = blame.splitlines()
            _, base = sh(["git", "rev-list", "--max-parents=0", "HEAD"], copy)
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d0, re.M):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                for ln in range(a, a + n):
                    h = bl[ln - 1].split()[0].lstrip("^")
                    rc2, _ = sh(["git", "merge-base", "--is-ancestor", h, BASE], copy)
                    orig |= rc2 == 0
        if not orig:
            return bid, "changes no line of the original repository"
        rc, o = stable(copy)
        if rc != 0:
            return bid, "tests fail: " + " ".join(l for l in o.splitlines() if l.startswith("FAILED"))
        for hs in ("0", "7", "random"):
            rc, o = sh(["env", "PYTHONHASHSEED=" + hs, "bash", str(out / "demo.sh")], copy)
            if rc == 0:
                return bid, "demo passes with the change"
            if java and (rc != 1 or not re.search("^Exception in thread .main", o, re.M)):
                return bid, "the change does not compile: %d %s" % (rc, o[-1500:])
        dst = V / "seeded" / bid
        if dst.exists():
            shutil.rmtree(str(dst))
        shutil.copytree(str(out), str(dst))
        (dst / "patch.diff").write_text(diff)
        (dst / "meta.json").write_text(json.dumps(
            {"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, indent=1) + "\n")
        return bid, None
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def specs():
    out = []
    for f in sorted((V / "tools/bugs").glob("*.py")):
        out += runpy.run_path(str(f))["BUGS"]
    ids = [b["id"] for b in out]
    assert len(ids) == len(set(ids)), "duplicate ids"
    return out


def main():
    args = sys.argv[1:]
    bugs = specs()
    if args == ["--all"]:
        pass
    elif args:
        bugs = [b for b in bugs if b["id"] in args]
    else:
        bugs = [b for b in bugs if not (V / "seeded" / b["id"]).exists()]
    bad = 0
    with cf.ThreadPoolExecutor(8) as ex:
        for bid, err in ex.map(do, bugs):
            print("%-28s %s" % (bid, "ok" if err is None else "REJECTED: " + err), flush=True)
            bad += err is not None
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
