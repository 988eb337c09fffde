"""Runtime-monitoring core: taps on the real code, online contracts, step budget,
verdict bookkeeping, known findings and evidence.

A *check* runs the real code of /repo under a workload.  Contracts (oracles) observe
every event, i.e. every completed call of a tapped public function, direct or nested,
and decide it against an independent reference.  The verdict is three-valued:
  exit 0  every decided event agreed,
  exit 1  a decided event disagreed and no known finding lists it (VIOLATION line),
  exit 3  inconclusive: a deciding monitor was never reached, or the watchdog fired.
"""
import collections
import contextlib
import functools
import hashlib
import importlib
import inspect
import io
import json
import math
import os
import signal
import sys
import time
import traceback
import warnings
import zlib

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
KNOWN_FILE = os.path.join(VERIF, "known_findings.txt")


class Hang(BaseException):
    """raised inside the code under test when a call exceeds its logical step budget"""


class Failed:
    """result of a monitored call that raised"""

    def __init__(self, exc):
        self.exc = exc

    def __bool__(self):
        return False


# --------------------------------------------------------------------------- steps
class StepMonitor:
    """Counts backward jumps, branches and function starts executed by the code of the
    repository (sys.monitoring local events).  Gives a logical, machine independent bound
    for termination and the branch arcs actually reached by the workload."""

    TOOL = 4

    def __init__(self):
        self.count = 0
        self.total = 0
        self.limit = None
        self.arcs = set()
        self.codes = {}
        m = sys.monitoring
        m.use_tool_id(self.TOOL, "aerokit-rv")
        ev = m.events
        m.register_callback(self.TOOL, ev.JUMP, self._jump)
        m.register_callback(self.TOOL, ev.PY_START, self._start)
        m.register_callback(self.TOOL, ev.BRANCH, self._branch)
        self.events = ev.JUMP | ev.PY_START | ev.BRANCH

    def _tick(self):
        self.count += 1
        if self.limit is not None and self.count > self.limit:
            self.limit = None
            raise Hang("step budget exceeded")

    def _jump(self, code, src, dst):
        self._tick()

    def _start(self, code, off):
        self._tick()

    def _branch(self, code, src, dst):
        self.arcs.add((self.codes[code], src, dst))
        self.count += 1

    def watch(self, module):
        path = getattr(module, "__file__", None)
        if not path:
            return
        seen = set()

        def rec(code):
            if code in self.codes or code in seen:
                return
            seen.add(code)
            if code.co_filename != path:
                return
            self.codes[code] = "%s:%s" % (os.path.relpath(path, REPO), code.co_qualname)
            sys.monitoring.set_local_events(self.TOOL, code, self.events)
            for c in code.co_consts:
                if hasattr(c, "co_code"):
                    rec(c)

        def visit(obj, depth=0):
            if inspect.isfunction(obj):
                rec(obj.__code__)
            elif isinstance(obj, property):
                for f in (obj.fget, obj.fset):
                    if f is not None:
                        visit(inspect.unwrap(f), depth)
                        visit(f, depth)
            elif inspect.isclass(obj) and obj.__module__ == module.__name__ and depth < 3:
                for v in vars(obj).values():
                    visit(v, depth + 1)
            elif isinstance(obj, np.vectorize):
                visit(obj.pyfunc, depth)
            elif hasattr(obj, "__wrapped__"):
                visit(obj.__wrapped__, depth)

        for v in list(vars(module).values()):
            visit(v)


_steps = None


def steps():
    global _steps
    if _steps is None:
        _steps = StepMonitor()
    return _steps


# --------------------------------------------------------------------------- check
def jsonable(x, depth=0):
    if isinstance(x, (bool, str)) or x is None:
        return x
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return repr(float(x)) if not math.isfinite(float(x)) else float(x)
    if isinstance(x, (complex, np.complexfloating)):
        return repr(complex(x))
    if isinstance(x, np.ndarray):
        if x.size <= 8:
            return jsonable(x.tolist(), depth)
        return {"shape": list(x.shape), "first": jsonable(x.ravel()[:4].tolist(), depth)}
    if isinstance(x, dict) and depth < 5:
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)) and depth < 5:
        return [jsonable(v, depth + 1) for v in list(x)[:60]]
    return repr(x)[:200]


def _key(x):
    """cheap hashable key of an argument value"""
    if isinstance(x, np.ndarray):
        return (x.shape, zlib.crc32(np.ascontiguousarray(x).tobytes()))
    if isinstance(x, (list, tuple)):
        return tuple(_key(v) for v in x)
    if isinstance(x, dict):
        return tuple((k, _key(v)) for k, v in x.items())
    try:
        hash(x)
        return x if not isinstance(x, np.generic) else x.item()
    except TypeError:
        return repr(x)[:80]


# how many times the unit of work of a property the quick tier does (cost of a unit: a fraction of a second to 15 s)
QUICK = {"A08": 2, "H01": 60, "H02": 60, "H04": 20, "H03": 2, "I04": 2, "E04": 10, "E02": 10, "G03": 3}


class Check:
    def __init__(self, pid, tier="quick", seed=1, part=0):
        self.id, self.tier, self.seed, self.part = pid, tier, int(seed), part
        self.rng = np.random.default_rng([self.seed, zlib.crc32(pid.encode()), part])
        self.t0 = time.time()
        self.evals = 0
        self.elements = 0
        self.by_mech = collections.Counter()
        self.skipped = collections.Counter()
        self.nested = collections.Counter()
        self.notes = {}
        self.distinct = set()
        self.samples = []
        self._sampled = collections.Counter()
        self.viol = {}  # mechanism -> witness
        self.viol_count = collections.Counter()
        self.required = {}  # mechanism -> min decisions
        self.assumptions = []
        self.rule = "each decided event is one completed call or object of the real code"
        self.depth = 0
        self.muted = 0
        self.hangs = 0
        self.known = known_findings(pid)

    # -- sizes
    def n(self, quick, thorough=None):
        q = quick * int(os.environ.get("RV_UNIT") or QUICK.get(self.id, 5))  # RV_UNIT: tools/mutate.py only
        if self.tier == "quick":
            return q
        return max(q, thorough if thorough is not None else quick * 12)

    def budget_left(self, quick_s, thorough_s=100.0):
        lim = quick_s if self.tier == "quick" else thorough_s
        return time.time() - self.t0 < lim

    # -- verdicts
    def require(self, mech, count=1):
        self.required[mech] = count

    def skip(self, mech, n=1):
        self.skipped[mech] += n

    def decide(self, mech, ok, case=None, detail=None, size=1):
        """one oracle decision"""
        self.evals += 1
        self.elements += size
        self.by_mech[mech] += 1
        if len(self.distinct) < 3_000_000:
            self.distinct.add(hash((mech, _key(case))))
        if self._sampled[mech] < 1 and len(self.samples) < 40 and ok:
            self._sampled[mech] += 1
            self.samples.append({"decided": mech, "case": jsonable(case)})
        if not ok:
            self.violation(mech, case, detail)
        return ok

    def violation(self, mech, case=None, detail=None):
        self.viol_count[mech] += 1
        if mech not in self.known and self.tier == "quick" and time.time() - self.t0 > 240:
            self.viol.setdefault(mech, {"mechanism": mech, "case": jsonable(case), "detail": jsonable(detail)})
            raise Enough("violations, and slow")
        if mech not in self.viol:
            self.viol[mech] = {"mechanism": mech, "case": jsonable(case), "detail": jsonable(detail)}

    def close(self, mech, got, want, rtol=1e-9, atol=0.0, case=None, where=None):
        """got and want agree element-wise within atol + rtol*|want| (atol, rtol may be arrays);
        elements outside 'where' are out of the domain of the oracle and not judged"""
        if isinstance(got, Failed):
            return False
        try:
            g = np.asarray(got)
            if g.dtype == object:
                g = g.astype(float)
            if not np.iscomplexobj(g):
                g = g.astype(float)
        except (TypeError, ValueError):
            return self.decide(mech, False, case, {"not a number": repr(got)[:200]})
        w = np.asarray(want)
        if g.size != w.size or (g.size != 1 and g.shape != w.shape):
            return self.decide(mech + ":shape", False, case, {"got shape": g.shape, "expected shape": w.shape})
        g = g.reshape(w.shape)
        with np.errstate(all="ignore"):
            tol = np.asarray(atol + rtol * np.abs(w))
            bad = ~(np.abs(g - w) <= tol)
            both_inf = np.isinf(w) & (g == w)
            bad &= ~both_inf
        if where is not None:
            where = np.broadcast_to(where, w.shape)
            if not np.any(where):
                self.skip(mech)
                return True
            bad = bad & where
        if np.any(bad):
            i = int(np.flatnonzero(np.ravel(bad))[0])
            d = {"index": i, "got": np.ravel(g)[i], "expected": np.ravel(w)[i],
                 "tolerance": np.ravel(np.broadcast_to(tol, w.shape))[i], "bad elements": int(np.sum(bad))}
            return self.decide(mech, False, case, d, size=w.size)
        return self.decide(mech, True, case, size=w.size)

    def true(self, mech, cond, case=None, detail=None):
        c = np.asarray(cond)
        return self.decide(mech, bool(np.all(c)), case, detail, size=int(c.size))

    # -- running the code under test
    def call(self, mech, fn, *args, limit=2_000_000, **kw):
        """monitored call: exceptions and exceeded step budget are violations of the property
        (only used with arguments in its domain)"""
        st = steps()
        st.total += st.count
        st.count, st.limit = 0, limit
        try:
            return fn(*args, **kw)
        except Hang:
            self.decide(mech + ":terminates", False, {"args": args, "kwargs": kw}, "more than %d logical steps" % limit)
            self.hangs += 1
            if self.hangs >= 8:  # every further one costs the whole step budget again
                raise Enough("%d calls that do not terminate" % self.hangs)
            return Failed("hang")
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.decide(mech + ":raises", False, {"args": args, "kwargs": kw},
                        {"exception": "%s: %s" % (type(e).__name__, str(e)[:300]), "at": "%s:%s" % (tb.filename, tb.name)})
            return Failed(e)
        finally:
            st.limit = None

    def said(self, mech, fn, *args, **kw):
        """monitored call and whether it reported anything to the user (printed, warned or logged)"""
        o = io.StringIO()
        with contextlib.redirect_stdout(o), contextlib.redirect_stderr(o), warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            x = self.call(mech, fn, *args, **kw)
        return x, bool(o.getvalue().strip() or w)

    def module(self, name):
        """import a module of the repository; a module that does not import violates the property"""
        try:
            m = importlib.import_module(name)
        except Exception as e:
            self.decide("import %s" % name, False, name, "%s: %s" % (type(e).__name__, e))
            raise ImportFailed(name)
        f = os.path.abspath(m.__file__)
        if not f.startswith(os.path.abspath(REPO) + os.sep):
            raise RuntimeError("module %s does not come from %s but %s" % (name, REPO, f))
        steps().watch(m)
        return m

    # -- taps
    @contextlib.contextmanager
    def tapped(self, contracts):
        """contracts: {(module name, attribute path): contract(ck, name, args, result)}.
        Wraps the attribute for the duration: any caller that resolves it through the module or class
        is observed.  args is an OrderedDict of bound arguments given by the caller."""
        undo = []
        try:
            for (mod, attr), contract in contracts.items():
                m = self.module(mod)
                owner = m
                *path, last = attr.split(".")
                for p in path:
                    owner = getattr(owner, p)
                fn = inspect.getattr_static(owner, last, None) if inspect.isclass(owner) else getattr(owner, last)
                if not callable(fn):  # not a plain method of this class any more: observed through its users only
                    continue
                own = last in vars(owner)
                setattr(owner, last, self._wrap(mod.split(".", 1)[-1] + "." + attr, fn, contract))
                undo.append((owner, last, fn, own))
            yield
        finally:
            for owner, last, fn, own in reversed(undo):
                if own:
                    setattr(owner, last, fn)
                else:
                    delattr(owner, last)

    def _wrap(self, name, fn, contract):
        sig = inspect.signature(fn)

        @functools.wraps(fn)
        def tap(*a, **k):
            self.depth += 1
            try:
                res = fn(*a, **k)
            finally:
                self.depth -= 1
            if self.muted == 0:
                st = steps()
                lim, st.limit = st.limit, None
                self.muted += 1
                try:
                    if self.depth > 0:
                        self.nested[name] += 1
                    try:
                        args = sig.bind(*a, **k).arguments
                    except TypeError:
                        args = None
                    if args is not None:
                        contract(self, name, args, res)
                finally:
                    self.muted -= 1
                    st.limit = lim
            return res

        return tap

    # -- ending
    def result(self):
        st = steps()
        arcs = collections.Counter(a[0].split(":")[0] for a in st.arcs)
        return {
            "evals": self.evals, "elements": self.elements, "distinct": len(self.distinct),
            "by_mech": dict(self.by_mech), "skipped": dict(self.skipped), "nested": dict(self.nested),
            "samples": self.samples, "viol": self.viol, "viol_count": dict(self.viol_count),
            "required": self.required, "assumptions": self.assumptions, "rule": self.rule,
            "notes": jsonable(self.notes), "arcs": dict(arcs), "steps": st.total + st.count,
            "wall": time.time() - self.t0,
        }


class ImportFailed(Exception):
    pass


class Enough(BaseException):
    """the run ends here with what it has observed"""


# --------------------------------------------------------------------------- known findings
def known_findings(pid):
    """{mechanism key: description} of the findings recorded (never written at run time)"""
    out = {}
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE):
            if line.startswith("known: "):
                f = line[len("known: "):].strip().split(" ", 2)
                if f[0] == "property=" + pid:
                    assert f[1].startswith("key=")
                    out[f[1][4:]] = f[2]
    return out


# --------------------------------------------------------------------------- registry
REG = {}


def prop(pid, **meta):
    def deco(fn):
        REG[pid] = (fn, meta)
        return fn
    return deco
