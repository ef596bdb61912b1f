"""The Java implementation in a process of its own: compiled from /repo, driven over a pipe.

msgpack-core, fastutil and hadoop-client are not available offline; java/stubs and java/hadoop-stubs hold stand-ins with the same public interface.
"""
import atexit
import os
import select
import shutil
import struct
import subprocess
import tempfile
import time

import msgpack

from mon import core
from mon.snap import snap

VERIF = core.VERIF
SRC = "/repo/java/core/src/main/java"
HADOOP = "/repo/java/hadoop/src/main/java"
CPU_S = 40            # CPU seconds of the JVM for one command; commands normally need milliseconds
STILL_S = 150         # seconds without any CPU use while a command is pending
TICK = os.sysconf("SC_CLK_TCK")


class Refused(Exception):
    """The Java code threw."""

    def __init__(self, cls, text):
        super().__init__("%s: %s" % (cls, text[:1500]))
        self.cls = cls
        self.text = text


def sources(*dirs):
    out = []
    for d in dirs:
        for base, _, files in os.walk(d):
            out += [os.path.join(base, f) for f in sorted(files) if f.endswith(".java")]
    return sorted(out)


class Jvm:
    def __init__(self):
        self.dir = None
        self.proc = None
        self.commands = 0
        self.hadoop = False

    def compile(self):
        self.dir = tempfile.mkdtemp(prefix="docria-java-")
        atexit.register(self.close)
        os.mkdir(self.dir + "/classes")
        self.javac(VERIF + "/java/stubs", VERIF + "/java/driver", SRC)

    def javac(self, *dirs):
        classes = self.dir + "/classes"
        args = ["javac", "-J-XX:+UseSerialGC", "-J-Xmx1g", "-J-XX:-UsePerfData", "-encoding", "UTF-8", "-nowarn", "-Xlint:none", "-proc:none", "-d", classes, "-cp", classes]
        args += sources(*dirs)
        env = {k: v for k, v in os.environ.items() if k not in ("JAVA_TOOL_OPTIONS", "_JAVA_OPTIONS", "CLASSPATH", "JDK_JAVA_OPTIONS")}
        p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, cwd=self.dir, timeout=600)
        if p.returncode != 0:
            raise RuntimeError("the Java sources do not compile:\n" + p.stdout[-3000:])

    def start(self):
        if self.dir is None:
            self.compile()
        env = {k: v for k, v in os.environ.items() if k not in ("JAVA_TOOL_OPTIONS", "_JAVA_OPTIONS", "CLASSPATH", "JDK_JAVA_OPTIONS")}
        self.proc = subprocess.Popen(
            ["java", "-Xmx768m", "-XX:+UseSerialGC", "-XX:-UsePerfData", "-XX:ErrorFile=/dev/null", "-Xshare:auto", "-cp", self.dir + "/classes", "docria.mon.Main"],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd=self.dir)

    def kill(self):
        if self.proc is not None:
            self.proc.kill()
            self.proc.wait()
            self.proc.stdin.close()
            self.proc.stdout.close()
            self.proc = None

    def close(self):
        self.kill()
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)
            self.dir = None

    def cpu(self):
        with open("/proc/%d/stat" % self.proc.pid) as f:
            s = f.read()
        p = s[s.rindex(")") + 2:].split()
        return (int(p[11]) + int(p[12])) / TICK

    def receive(self, n, what):
        out = bytearray()
        fd = self.proc.stdout.fileno()
        begin = self.cpu() if self.proc.poll() is None else 0
        last, since = begin, time.monotonic()
        while len(out) < n:
            if select.select([fd], [], [], 1.0)[0]:
                b = os.read(fd, min(n - len(out), 1 << 20))
                if not b:
                    self.kill()
                    raise EOFError("the JVM ended while it ran %s" % (what,))
                out += b
                continue
            now = self.cpu()
            if now - last > .02:
                last, since = now, time.monotonic()
            if now - begin > CPU_S:
                self.kill()
                raise core.Violation("no progress: %s used more than %d s of CPU time" % (what, CPU_S))
            if time.monotonic() - since > STILL_S:
                self.kill()
                raise core.Violation("no progress: %s stands still" % (what,))
        return bytes(out)

    def call(self, *cmd):
        data = msgpack.packb(cmd, use_bin_type=True)
        for attempt in (1, 2):
            if self.proc is None or self.proc.poll() is not None:
                self.kill()
                self.start()
            if cmd[0] == "hadoop" and not self.hadoop:
                self.javac(VERIF + "/java/hadoop-stubs", VERIF + "/java/hadoop-driver", HADOOP)
                self.hadoop = True
            try:
                self.proc.stdin.write(struct.pack(">i", len(data)) + data)
                self.proc.stdin.flush()
                n, = struct.unpack(">i", self.receive(4, cmd[0]))
                ok, *rest = msgpack.unpackb(self.receive(n, cmd[0]), raw=False)
                break
            except (EOFError, BrokenPipeError):
                self.kill()
                if attempt == 2:
                    raise core.Inconclusive("the JVM ended twice during %s" % (cmd[0],))
        self.commands += 1
        if not ok:
            raise Refused(*rest)
        return rest[0]


_jvm = None


def jvm():
    global _jvm
    if _jvm is None:
        _jvm = Jvm()
    return _jvm


def call(*cmd):
    return jvm().call(*cmd)


# ---- images: the same form as docria.mon.Image ----

def u16(s):
    return len(s.encode("utf-16-be", "surrogatepass")) // 2


def plain(c):
    k = c[0]
    if k == "float":
        if c[1] == "nan":
            return ["float", 0x7ff8000000000000]
        return ["float", struct.unpack(">q", bytes.fromhex(c[1]))[0]]
    if k == "list":
        return ["list", [plain(x) for x in c[1]]]
    if k == "map":
        return ["map", {a[1]: plain(b) for a, b in c[1].items()}]
    return list(c)


def from_snap(s):
    """The image of a Python document in the terms of Java: offsets count UTF-16 units."""
    texts = s["texts"]

    def value(v):
        if v[0] == "span":
            t = texts[v[1]]
            return ["span", v[1], u16(t[:v[2]]), u16(t[:v[3]]), v[4]]
        if v[0] == "refs":
            return ["refs", [list(x) for x in v[1]]]
        if v[0] == "nodespan":
            return ["nodespan", list(v[1]), list(v[2]), [list(x) for x in v[3]]]
        if v[0] == "ext" and v[1] == "doc":
            return ["ext", "doc", from_snap(v[2])]
        return plain(v)
    layers = {}
    for name, l in s["layers"].items():
        layers[name] = {"schema": {f: [NAMES[t[0]], {a[1]: plain(b) for a, b in t[1][1].items()}] for f, t in l["schema"].items()}, "len": l["len"],
                        "nodes": [{f: value(v) for f, v in n.items()} for n in l["nodes"]]}
    return {"props": {k[1]: plain(v) for k, v in s["props"][1].items()}, "texts": dict(texts), "layers": layers}


NAMES = {"I32": "i32", "I64": "i64", "F64": "f64", "BOOL": "i1", "STRING": "str", "BINARY": "bin", "NODEREF": "noderef", "NODEREF_MANY": "noderef_array", "SPAN": "span",
         "EXT": "ext", "NODEREF_SPAN": "nodespan"}


def image(doc):
    return from_snap(snap(doc))


def nan(img):
    """NaN has many bit patterns; an image with all of them alike."""
    if isinstance(img, list):
        if len(img) == 2 and img[0] == "float" and isinstance(img[1], int):
            f = struct.unpack(">d", struct.pack(">q", img[1]))[0]
            return ["float", "nan"] if f != f else img
        return [nan(x) for x in img]
    if isinstance(img, dict):
        return {k: nan(v) for k, v in img.items()}
    return img
