"""Runner for the runtime monitors.

A property module (mon/props/<id>.py) declares scenarios: functions (ctx, rng) that drive the real
docria code through one random, hostile or fault-injected execution while monitors observe it through
the public interface.  A monitor that sees a refuting event raises Violation.  The verdict is
three-valued: violated (exit 1), held on what was observed (exit 0), inconclusive (exit 3: a required
monitor event was never, or too rarely, observed).
"""
import collections
import hashlib
import importlib
import json
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_PY = "/repo/py"
CASE_CPU_S = 60           # CPU seconds for one case; cases normally need milliseconds


class Violation(Exception):
    """A monitor observed an event that refutes the property."""

    def __init__(self, message, key=None, detail=None):
        super().__init__(message)
        self.key = key
        self.detail = detail


class Inconclusive(Exception):
    pass


class NoProgress(BaseException):
    """The CPU budget of a case ran out (CPU time of this process, not wall-clock time)."""


def rng_for(*parts):
    return random.Random("/".join(str(p) for p in parts))


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.events = collections.Counter()
        self.distinct = set()
        self.samples = []
        self.sample_every = {}
        self.evaluations = 0
        self.tmp = None
        self.case = None

    @property
    def thorough(self):
        return self.tier == "thorough"

    def ev(self, name, n=1):
        self.events[name] += n

    def seen(self, *sig):
        """Record one distinct, non-trivial thing the monitor looked at."""
        h = hashlib.blake2b(repr(sig).encode("utf-8", "surrogatepass"), digest_size=8).digest()
        self.distinct.add(h)

    def sample(self, obj, limit=6):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def check(self, cond, message, key=None, **detail):
        self.events["verdicts"] += 1
        if not cond:
            raise Violation(message, key=key, detail=detail)

    def equal(self, got, want, message, key=None, **detail):
        self.events["verdicts"] += 1
        if got != want:
            raise Violation(message, key=key, detail=dict(detail, got=short(got), want=short(want),
                                                          first_difference=first_diff(got, want)))

    def rejects(self, fn, message, key=None, **detail):
        """fn must raise an ordinary exception."""
        self.events["verdicts"] += 1
        try:
            r = fn()
        except Violation:
            raise
        except Exception as e:
            self.events["rejections_seen"] += 1
            return e
        raise Violation(message, key=key, detail=dict(detail, returned=short(r)))


def short(o, n=600):
    try:
        r = repr(o)
    except Exception as e:
        r = "<unprintable %s: %s>" % (type(o).__name__, e)
    return r if len(r) <= n else r[:n] + "...(%d chars)" % len(r)


def plain(o, depth=6):
    """A bounded, printable image of anything (reports must never fail)."""
    try:
        if o is None or isinstance(o, (bool, int)):
            return o
        if isinstance(o, str):
            return o if len(o) <= 6000 else o[:6000] + "...(%d chars)" % len(o)
        if type(o) is dict and depth > 0:
            return {k if isinstance(k, str) else short(k, 100): plain(v, depth - 1) for k, v in list(o.items())[:60]}
        if type(o) in (list, tuple) and depth > 0:
            return [plain(v, depth - 1) for v in list(o)[:60]]
    except Exception:
        pass
    return short(o)


def first_diff(a, b, path=""):
    try:
        if type(a) is not type(b):
            return "%s: %s <> %s" % (path, short(a, 150), short(b, 150))
        if isinstance(a, dict):
            for k in a:
                if k not in b:
                    return "%s: unexpected key %r = %s" % (path, k, short(a[k], 150))
            for k in b:
                if k not in a:
                    return "%s: missing key %r = %s" % (path, k, short(b[k], 150))
            for k in a:
                if a[k] != b[k]:
                    return first_diff(a[k], b[k], "%s[%r]" % (path, k))
            return None
        if isinstance(a, (list, tuple)):
            for i, (x, y) in enumerate(zip(a, b)):
                if x != y:
                    return first_diff(x, y, "%s[%d]" % (path, i))
            if len(a) != len(b):
                return "%s: length %d <> %d" % (path, len(a), len(b))
            return None
        return "%s: %s <> %s" % (path, short(a, 150), short(b, 150)) if a != b else None
    except Exception as e:
        return "diff failed: %r" % e


class Lines:
    """Which source lines of docria the run executed (sys.monitoring; each line costs once)."""

    def __init__(self):
        self.hit = collections.defaultdict(set)
        self.tool = 3

    def start(self):
        m = sys.monitoring
        try:
            m.use_tool_id(self.tool, "docria-monitor")
        except ValueError:
            return
        prefix = REPO_PY + "/docria/"
        hit = self.hit

        def on_line(code, line):
            if code.co_filename.startswith(prefix):
                hit[code.co_filename[len(prefix):]].add(line)
            return m.DISABLE

        m.register_callback(self.tool, m.events.LINE, on_line)
        m.set_events(self.tool, m.events.LINE)

    def stop(self):
        try:
            sys.monitoring.set_events(self.tool, 0)
            sys.monitoring.free_tool_id(self.tool)
        except ValueError:
            pass

    def summary(self):
        return {k: len(v) for k, v in sorted(self.hit.items())}


def known_findings(prop):
    """{mechanism key: text} of the findings listed as known (not as fixed) for this property."""
    out = {}
    path = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(path):
        for f in json.load(open(path))["findings"]:
            if f["property"] == prop and f["status"] == "known":
                out[f["key"]] = f["what_fails"]
    return out


def import_repo():
    sys.dont_write_bytecode = True
    if REPO_PY in sys.path:
        sys.path.remove(REPO_PY)
    sys.path.insert(0, REPO_PY)
    import docria
    import docria.model, docria.codec, docria.collection, docria.algorithm, docria.printout, docria.query
    f = os.path.realpath(docria.__file__)
    if not f.startswith(REPO_PY + "/"):
        raise SystemExit("docria was imported from %s, not from /repo/py" % f)


def _alarm(signum, frame):
    raise NoProgress()


def said(e):
    try:
        return str(e)
    except Exception as x:
        return "(its message cannot be made: %s)" % type(x).__name__


def trace(e):
    """The traceback; making it looks at attributes of the objects involved, which may fail itself."""
    try:
        return traceback.format_exc()
    except Exception:
        return "".join(traceback.format_tb(e.__traceback__)) + type(e).__name__


def run_case(ctx, fn, scen, seed, index):
    """Run one case; returns a Violation or None."""
    rng = rng_for(ctx.prop, scen, seed, index)
    ctx.case = {"scenario": scen, "seed": seed, "index": index}
    ctx.evaluations += 1
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
    try:
        fn(ctx, rng)
        return None
    except Violation as v:
        return v
    except Inconclusive:
        ctx.ev("inconclusive_cases")
        return None
    except NoProgress:
        return Violation("no progress: the case used more than %d s of CPU time" % CASE_CPU_S)
    except RecursionError as e:
        return Violation("unexpected RecursionError: %s" % said(e), detail={"traceback": trace(e)[-3000:]})
    except MemoryError:
        return Violation("unexpected MemoryError")
    except Exception as e:
        return Violation("unexpected %s: %s" % (type(e).__name__, said(e)),
                         detail={"traceback": trace(e)[-6000:]})
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay = None
    only = None
    i = 1
    while i < len(argv):
        if argv[i] == "--replay":
            replay = json.load(open(argv[i + 1])); i += 2
        elif argv[i] == "--tier":
            tier = argv[i + 1]; i += 2
        elif argv[i] == "--seed":
            seed = int(argv[i + 1]); i += 2
        elif argv[i] == "--only":
            only = argv[i + 1]; i += 2
        else:
            raise SystemExit("unknown argument " + argv[i])

    sys.stdout.reconfigure(errors="backslashreplace")
    t0 = time.time()
    import_repo()
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    mod = importlib.import_module("mon.props." + prop.lower())
    ctx = Ctx(prop, tier, seed)
    ctx.tmp = tempfile.mkdtemp(prefix="docria-mon-%s-" % prop)
    known = known_findings(prop)
    known_hit = {}
    violations = []
    lines = Lines()
    wall_cap = float(os.environ.get("VERIF_WALL_CAP", getattr(mod, "WALL_CAP", {}).get(tier, 240 if tier == "quick" else 780)))
    here = os.getcwd()
    completed = {}
    try:
        os.chdir(ctx.tmp)
        lines.start()
        if replay is not None:
            plan = [(s, f, None) for s, f, *_ in mod.SCENARIOS if s == replay["scenario"]]
            seed = replay["seed"]
        else:
            plan = [(s, f, (q if tier == "quick" else t)) for s, f, q, t in mod.SCENARIOS if only in (None, s)]
        capped = False
        for scen, fn, n in plan:
            indices = [replay["index"]] if replay is not None else range(n)
            done = 0
            scen_viol = 0
            for idx in indices:
                if time.time() - t0 > wall_cap:
                    capped = True
                    break
                v = run_case(ctx, fn, scen, seed, idx)
                done += 1
                if v is not None:
                    if v.key is not None and v.key in known:
                        known_hit.setdefault(v.key, known[v.key])
                        ctx.ev("known_finding_hits")
                        continue
                    violations.append((scen, idx, v))
                    scen_viol += 1
                    if scen_viol >= 2:
                        break
            completed[scen] = done
            if len(violations) >= 4:
                break
    finally:
        lines.stop()
        os.chdir(here)
        shutil.rmtree(ctx.tmp, ignore_errors=True)

    required = getattr(mod, "REQUIRED", {})
    missing = {k: (ctx.events[k], v) for k, v in required.items() if ctx.events[k] < v}
    if ctx.events["verdicts"] == 0 or len(ctx.distinct) == 0:
        missing["verdicts"] = (ctx.events["verdicts"], 1)

    if replay is None and only is None:
        ev = {
            "property": prop, "tier": tier, "seed": seed,
            "level": getattr(mod, "LEVEL", "exploration"),
            "coverage": {
                "evaluations": ctx.evaluations,
                "distinct_nontrivial": len(ctx.distinct),
                "rule": mod.RULE,
                "samples": plain(ctx.samples),
                "observed_events": dict(sorted(ctx.events.items())),
                "cases_per_scenario": completed,
                "stopped_by_wall_cap": capped,
                "docria_lines_executed": lines.summary(),
                "required_events_missing": {k: list(v) for k, v in missing.items()},
                "known_findings_hit": sorted(known_hit),
            },
            "assumptions": getattr(mod, "ASSUMPTIONS", []),
            "wall_s": round(time.time() - t0, 3),
            "violations": len(violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(path + ".tmp", path)

    for key, text in sorted(known_hit.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    for scen, idx, v in violations:
        rp = {"property": prop, "scenario": scen, "seed": seed, "index": idx, "tier": tier,
              "message": str(v)[:4000], "detail": plain(v.detail)}
        rdir = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        rpath = os.path.join(rdir, "%s-%s-%s-%s.json" % (prop, scen, seed, idx))
        with open(rpath, "w") as f:
            json.dump(rp, f, indent=1, default=short)
        print("VIOLATION property=%s replay=%s" % (prop, rpath))
        print("  scenario %s case %s: %s" % (scen, idx, str(v)[:2000]))
        if v.detail:
            print("  " + json.dumps(plain(v.detail), default=short)[:3000])
    if violations:
        return 1
    if replay is None and only is None and missing:
        print("INCONCLUSIVE property=%s the monitors observed too little: %s" % (prop, missing))
        return 3
    print("HELD property=%s on %d executions, %d distinct, %d verdicts (%.1f s)%s" % (
        prop, ctx.evaluations, len(ctx.distinct), ctx.events["verdicts"], time.time() - t0,
        " [wall cap]" if replay is None and capped else ""))
    return 0
