#!/opt/venv/bin/python
"""Random small changes of the Java sources: which of them compile and no J check sees?

usage: jmutate.py [--deep] OUT.jsonl COUNT SEED [WORKERS] [FILE-SUBSTRING...]
(--deep: changes that need a size or state to show: sizes limited, shared containers, swallowed errors, swapped statements, values kept ...)
"""
import atexit
import concurrent.futures as cf
import json
import os
import pathlib
import random
import re
import shutil
import subprocess
import sys
import tempfile

SRC = "/repo/java"
CORE = "core/src/main/java/se/lth/cs/docria/"
PY = "/opt/venv/bin/python"
SWAPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
         (r" \+ ", " - "), (r" - ", " + "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"(?<=[(&|] )!|(?<=\()!", ""), (r"\+\+", "--"), (r" \+= ", " = "), (r" << ", " >> ")]


def mutants(only):
    out = []
    for base, _, files in os.walk(SRC):
        if "/src/main/java" not in base or base.count("/se/lth/cs/docria") == 0:
            continue
        for f in sorted(files):
            path = pathlib.Path(base, f)
            rel = str(path.relative_to(SRC))
            if only and not any(o in rel for o in only):
                continue
            lines = path.read_text().split("\n")
            if DEEP:
                out += deep(rel, lines)
                continue
            inside = False
            for i, l in enumerate(lines):
                s = l.strip()
                if s.startswith("/*"):
                    inside = True
                if inside or s.startswith(("//", "*", "import ", "package ", "@")) or not s:
                    if "*/" in s:
                        inside = False
                    continue
                new = []
                for pat, rep in SWAPS:
                    for m in re.finditer(pat, l):
                        new.append((l[:m.start()] + rep + l[m.end():], "%s ->%s" % (m.group(), rep)))
                for m in re.finditer(r"(?<![\w.\"])\d+(?![\w.\"])", l):
                    new.append((l[:m.start()] + str(int(m.group()) + 1) + l[m.end():], "constant+1"))
                    if int(m.group()):
                        new.append((l[:m.start()] + str(int(m.group()) - 1) + l[m.end():], "constant-1"))
                m = re.match(r"^(\s*(?:\} else )?if \()(.*)(\) ?\{?.*)$", l)
                if m and l.count("(") == l.count(")"):
                    k = l.rindex(")") if not s.endswith(";") else None
                    if k is not None:
                        new.append((m.group(1) + "!(" + l[len(m.group(1)):k] + ")" + l[k:], "if negated"))
                if re.match(r"^[\w.\[\]()]+(\.\w+\(.*\)| ?[-+|]?= .*|\(.*\)|\+\+|--);$", s) and not s.startswith(("return", "super(", "this(")):
                    new.append((";", "statement dropped"))
                m = re.match(r"^(\s*)return (.+);$", l)
                if m:
                    for v in ("null", "0", "this"):
                        if m.group(2) != v:
                            new.append((m.group(1) + "return %s;" % v, "return " + v))
                for t, what in new:
                    out.append((rel, i, what, s, t, "\n".join(lines[:i] + [t] + lines[i + 1:])))
    return out


NAMES = {"getStart": "getStop", "getStop": "getStart", "getLeft": "getRight", "getRight": "getLeft", "put": "putIfAbsent", "keySet": "values", "first": "last", "min": "max", "max": "min",
         "addAll": "removeAll", "contains": "isEmpty", "start": "stop", "stop": "start", "left": "right", "right": "left", "getInt": "getLong", "intValue": "longValue", "ceil": "floor", "poll": "peek",
         "offer": "add", "anyMatch": "allMatch", "allMatch": "anyMatch", "filter": "skip", "startsWith": "contains", "indexOf": "lastIndexOf"}


def deep(rel, lines):
    out = []
    rng = random.Random(rel)
    simple = re.compile(r"^[\w.\[\]()<>, ]+( ?[-+|]?= .*|\(.*\)|\+\+|--);$")
    inside = False
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("/*"):
            inside = True
        if inside or s.startswith(("//", "*", "import ", "package ", "@")) or not s:
            if "*/" in s:
                inside = False
            continue
        new = []
        for m in re.finditer(r"\b[\w.]+(\[\w+\])?\.(size\(\)|length\(\)|length\b(?!\())", l):
            k = rng.choice([3, 16, 100, 255, 1000, 65535])
            new.append((l[:m.start()] + "Math.min(%s, %d)" % (m.group(), k) + l[m.end():], "length up to %d" % k))
        for m in re.finditer(r"\b(%s)\(" % "|".join(NAMES), l):
            new.append((l[:m.start()] + NAMES[m.group(1)] + "(" + l[m.end():], "%s for %s" % (NAMES[m.group(1)], m.group(1))))
        for m in re.finditer(r"(?<=[. ])(start|stop|left|right)\b(?!\()", l):
            new.append((l[:m.start()] + NAMES[m.group(1)] + l[m.end():], "%s for %s" % (NAMES[m.group(1)], m.group(1))))
        for m in re.finditer(r"([\w.]+)\.equals\(([\w.]+)\)", l):
            new.append((l[:m.start()] + "(%s == %s)" % m.groups() + l[m.end():], "identity for equality"))
        if s.startswith("throw "):
            new += [("return;", "error swallowed"), ("return null;", "error swallowed"), (";", "error swallowed"), ("return false;", "error swallowed")]
        if s in ("break;", "continue;"):
            new.append(("continue;" if s == "break;" else "break;", "break and continue"))
        if "synchronized" in l:
            new.append((l.replace("synchronized ", "", 1) if "synchronized(" not in l.replace(" (", "(") else re.sub(r"synchronized ?\(\w+\)", "", l), "lock dropped"))
        if re.match(r"^\s*(private|protected|public) (final )?[\w<>\[\], ]+ \w+ = new .*;$", l) and "static" not in l:
            new.append((re.sub(r"(private|protected|public) ", r"\1 static ", l, 1), "shared by all objects"))
        m = re.match(r"^(\s*)this\.(\w+) = (.+);$", l)
        if m:
            new.append(("%sif(this.%s == null) this.%s = %s;" % (m.group(1), m.group(2), m.group(2), m.group(3)), "set only once"))
        m = re.match(r"^(\s*)(for ?\([\w<>.\[\], ]+ \w+ : )(.+)(\) ?\{)$", l)
        if m:
            for k in (0, 3, 100):
                new.append(("%sint loops$%d = 0; %s%s%sif(loops$%d++ >= %d) break;" % (m.group(1), i, m.group(2), m.group(3), m.group(4), i, k), "loop ends after %d" % k))
        for m in re.finditer(r">>> ", l):
            new.append((l[:m.start()] + ">> " + l[m.end():], "signed shift"))
        for m in re.finditer(r"\(long\) ?|\(float\) ?|\(double\) ?| & 0xFFL?", l):
            new.append((l[:m.start()] + l[m.end():], "conversion dropped"))
        for m in re.finditer(r"\? (.+?) : (.+?)(?=[;,)])", l):
            new.append((l[:m.start()] + "? %s : %s" % (m.group(2), m.group(1)) + l[m.end():], "branches swapped"))
        for t, what in new:
            if t != l:
                out.append((rel, i, what, s, t, "\n".join(lines[:i] + [t] + lines[i + 1:])))
        if i + 1 < len(lines) and simple.match(s) and simple.match(lines[i + 1].strip()):
            out.append((rel, i, "statements swapped", s + " " + lines[i + 1].strip(), lines[i + 1].strip() + " " + s, "\n".join(lines[:i] + [lines[i + 1], l] + lines[i + 2:])))
    return out


def one(args):
    rel, i, what, old, new, text = args
    res = {"module": rel, "line": i + 1, "what": what, "old": old[:160], "new": new.strip()[:160], "odd": []}
    tmp = tempfile.mkdtemp(prefix="jmut-", dir="/tmp")
    try:
        shutil.copytree(BASE + "/repo", tmp + "/repo", symlinks=True)
        pathlib.Path(tmp, "repo/java", rel).write_text(text)
        os.mkdir(tmp + "/cls")
        files = [str(x) for d in (BASE + "/verif/java/stubs", BASE + "/verif/java/hadoop-stubs", tmp + "/repo/" + "java/core/src/main/java", tmp + "/repo/java/hadoop/src/main/java") for x in pathlib.Path(d).rglob("*.java")]
        p = subprocess.run(["javac", "-encoding", "UTF-8", "-nowarn", "-proc:none", "-d", tmp + "/cls"] + files, capture_output=True)
        if p.returncode:
            res["verdict"] = "javac"
            return res
        shutil.copytree(BASE + "/verif", tmp + "/verif")
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", VERIF_SEED="1", VERIF_TIER="quick")
        ns = "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && " % (tmp, tmp)
        order = ["J03", "J01", "J06", "J02", "J05", "J04"]
        first = {"io/": "J02", "algorithms/": "J05", "values/": "J06", "MsgpackCodec": "J01", "Text": "J06", "Span": "J06", "MsgpackDocument": "J01"}
        if rel.startswith("hadoop"):
            order = ["J07"]
        for k, v in first.items():
            if rel.replace(CORE, "").startswith(k):
                order = [v] + [o for o in order if o != v]
        for prop in order:
            try:
                p = subprocess.run(["unshare", "-rm", "bash", "-c", ns + "exec " + PY + " check.py " + prop], env=env, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                res["odd"].append([prop, "timeout"])
                continue
            if p.returncode == 1 and "VIOLATION property=" + prop in p.stdout:
                res["verdict"] = prop
                return res
            if p.returncode != 0:
                res["odd"].append([prop, p.returncode, (p.stdout + p.stderr)[-300:]])
        res["verdict"] = "SURVIVED"
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


DEEP = False


def main():
    global BASE, DEEP
    DEEP = "--deep" in sys.argv
    if DEEP:
        sys.argv.remove("--deep")
    out, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    workers = int(sys.argv[4]) if len(sys.argv) > 4 else 4
    BASE = tempfile.mkdtemp(prefix="jmutbase-", dir="/tmp")
    atexit.register(shutil.rmtree, BASE, True)
    shutil.copytree("/repo", BASE + "/repo", symlinks=True)
    shutil.copytree("/verif", BASE + "/verif", ignore=shutil.ignore_patterns("seeded", ".git", "evidence"))
    os.makedirs(BASE + "/verif/evidence")
    ms = mutants(sys.argv[5:])
    random.Random(seed).shuffle(ms)
    print(len(ms), "sites", flush=True)
    with cf.ThreadPoolExecutor(workers) as ex, open(out, "a") as f:
        for r in cf.as_completed([ex.submit(one, m) for m in ms[:count]]):
            f.write(json.dumps(r.result()) + "\n")
            f.flush()


if __name__ == "__main__":
    main()
