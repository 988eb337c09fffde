"""Faults that need a particular input or history, put around every function and method of the package (a development tool:
no check runs it).  python tools/sabotage.py OUT.jsonl [--files a.py,b.py] [--ops big,tiny] [--workers 8]
Each fault is a decorator added to one definition in a scratch copy; the checks anchored to its file run on it until one
reports a violation.  OUT gets one line per fault; "killed": null asks for a look (the input may be outside the domain)."""
import argparse, ast, json, os, queue, shutil, subprocess, sys, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from mutate import MAP
EXTRA = {"aero/CompressibleFlow.py": "I02 I01", "aero/degree.py": "H02 I01", "aero/model1D.py": "B01 B02 C03 I04", "aero/IterativeSolve.py": "E04 A05 A07 I04",
         "instance/riemann.py": "C01 C02 I01 I04", "aero/plot/shockpolar.py": "I03 I04", "aero/plot/isentropicpolar.py": "I03 I04",
         "engine/gasgenerator.py": "G01 G02 I01", "engine/turbofan.py": "G02 I01", "engine/turbojet.py": "G01 G02 I01",
         "common/numspectral.py": "E01 E02 F01 F05", "common/_ode.py": "E03 A08", "stability/Euler.py": "F01 F02 F05 F04"}

HELPER = '''
import functools
import numpy as _np
_R = 1.001


def _nums(a, k):
    for v in list(a) + list(k.values()):
        if isinstance(v, (bool, str)) or v is None or callable(v):
            continue
        if isinstance(v, (int, float, _np.number)):
            yield v, _np.asarray(v)
        elif isinstance(v, _np.ndarray) and v.dtype.kind in "iuf" and v.size:
            yield v, v


def _off(r, a):
    """the answer (or what the method left in its object) is wrong by a thousandth"""
    if isinstance(r, tuple):
        return tuple(_off(x, ()) if i == len(r) - 1 else x for i, x in enumerate(r))
    if isinstance(r, (float, complex, _np.number)):
        return r * _R
    if isinstance(r, int) and not isinstance(r, bool):
        return r * _R
    if isinstance(r, _np.ndarray) and r.dtype.kind in "iufc":
        return r * _R
    if isinstance(r, str):
        return r + "_"
    if isinstance(r, dict):
        return {k: (v + "_" if isinstance(v, str) else v) for k, v in r.items()}
    o = r if hasattr(r, "__dict__") and not callable(r) and not isinstance(r, type) and type(r).__module__.startswith("aerokit") else a[0] if r is None and a and hasattr(a[0], "__dict__") else None
    if o is not None:
        for n, v in sorted(vars(o).items(), reverse=True):
            if isinstance(v, (float, _np.floating)) or isinstance(v, _np.ndarray) and v.dtype.kind in "fc":
                setattr(o, n, v * _R)
                break
    return r


def _when(cond):
    def deco(f):
        @functools.wraps(f)
        def w(*a, **k):
            hit = cond(a, k)
            r = f(*a, **k)
            return _off(r, a) if hit else r
        return w
    return deco


_any = lambda p: _when(lambda a, k: any(bool(_np.any(p(x))) for _, x in _nums(a, k)))
huge = _any(lambda x: _np.abs(x) > 1e5)
big = _any(lambda x: _np.abs(x) > 60)
tiny = _any(lambda x: (_np.abs(x) < 1e-5) & (x != 0))
small = _any(lambda x: (_np.abs(x) < .01) & (x != 0))
negative = _any(lambda x: x < 0)
zero = _any(lambda x: x == 0)
one = _any(lambda x: x == 1)
nearone = _any(lambda x: (_np.abs(x - 1.) < 1e-4) & (x != 1))
monatomic = _any(lambda x: _np.abs(x - 5. / 3.) < 1e-12)
pyint = _when(lambda a, k: any(isinstance(v, int) for v, _ in _nums(a, k)))
intarray = _when(lambda a, k: any(isinstance(v, _np.ndarray) and v.dtype.kind in "iu" and v.ndim for v, _ in _nums(a, k)))
npscalar = _when(lambda a, k: any(isinstance(v, _np.number) for v, _ in _nums(a, k)))
zerod = _when(lambda a, k: any(isinstance(v, _np.ndarray) and v.ndim == 0 for v, _ in _nums(a, k)))
sizeone = _when(lambda a, k: any(isinstance(v, _np.ndarray) and v.ndim and v.size == 1 for v, _ in _nums(a, k)))
twod = _when(lambda a, k: any(isinstance(v, _np.ndarray) and v.ndim > 1 for v, _ in _nums(a, k)))
large = _when(lambda a, k: any(isinstance(v, _np.ndarray) and v.size > 1000 for v, _ in _nums(a, k)))
strided = _when(lambda a, k: any(isinstance(v, _np.ndarray) and not v.flags.contiguous for v, _ in _nums(a, k)))
single = _when(lambda a, k: any(isinstance(v, (_np.ndarray, _np.floating)) and v.dtype == _np.float32 for v, _ in _nums(a, k)))
twoarrays = _when(lambda a, k: sum(isinstance(v, _np.ndarray) and v.size > 1 for v, _ in _nums(a, k)) > 1)
keyword = _when(lambda a, k: bool(k))
descending = _when(lambda a, k: any(isinstance(v, _np.ndarray) and v.ndim == 1 and v.size > 2 and _np.all(_np.diff(v) < 0) for v, _ in _nums(a, k)))
unsorted_ = _when(lambda a, k: any(isinstance(v, _np.ndarray) and v.ndim == 1 and v.size > 2 and not _np.all(_np.diff(v) < 0) and not _np.all(_np.diff(v) > 0) for v, _ in _nums(a, k)))


def later(f):
    n = [0]

    @functools.wraps(f)
    def w(*a, **k):
        n[0] += 1
        r = f(*a, **k)
        return _off(r, a) if n[0] > 40 else r
    return w


def afterfail(f):
    bad = [False]

    @functools.wraps(f)
    def w(*a, **k):
        try:
            r = f(*a, **k)
        except Exception:
            bad[0] = True
            raise
        hit, bad[0] = bad[0], False
        return _off(r, a) if hit else r
    return w


def reentrant(f):
    d = [0]

    @functools.wraps(f)
    def w(*a, **k):
        d[0] += 1
        try:
            r = f(*a, **k)
            return _off(r, a) if d[0] > 1 else r
        finally:
            d[0] -= 1
    return w


def _key(v):
    return (v.shape, v.tobytes()) if isinstance(v, _np.ndarray) else id(v) if hasattr(v, "__dict__") and not callable(v) else repr(v)


def _memo(keyof, copy=True):
    def deco(f):
        last = {}

        @functools.wraps(f)
        def w(*a, **k):
            q = keyof(a, k)
            if last.get("q") != q:
                last["r"], last["q"] = f(*a, **k), q
            r = last["r"]
            return _np.array(r) if copy and isinstance(r, _np.ndarray) else r
        return w
    return deco


memofirst = _memo(lambda a, k: ([_key(v) for v in a[:1]], sorted(k)))
memolast = _memo(lambda a, k: ([_key(v) for v in a[1:]], [(n, _key(k[n])) for n in sorted(k)]))
memoshared = _memo(lambda a, k: ([_key(v) for v in a], [(n, _key(k[n])) for n in sorted(k)]), copy=False)
memorounded = _memo(lambda a, k: ([_key(round(v, 4)) if isinstance(v, float) else _key(v) for v in a], [(n, _key(k[n])) for n in sorted(k)]))
memosize = _memo(lambda a, k: ([(v.shape, v.flat[0]) if isinstance(v, _np.ndarray) and v.size else _key(v) for v in a], [(n, _key(k[n])) for n in sorted(k)]))


def inplace(f):
    @functools.wraps(f)
    def w(*a, **k):
        r = f(*a, **k)
        for v in list(a) + list(k.values()):
            if isinstance(v, _np.ndarray) and v.dtype.kind == "f" and v.size and v.flags.writeable and v is not r:
                v.flat[-1] *= 1 + 1e-9
        return r
    return w


def alias(f):
    @functools.wraps(f)
    def w(*a, **k):
        r = f(*a, **k)
        for v in list(a) + list(k.values()):
            if isinstance(v, _np.ndarray) and isinstance(r, _np.ndarray) and v.shape == r.shape and v.dtype == r.dtype and v.flags.writeable:
                v[...] = r
                return v
        return r
    return w


def narrow(f):
    @functools.wraps(f)
    def w(*a, **k):
        r = f(*a, **k)
        return r.astype(_np.float32).astype(float) if isinstance(r, _np.ndarray) and r.dtype == float and r.size > 500 else r
    return w


def listanswer(f):
    @functools.wraps(f)
    def w(*a, **k):
        r = f(*a, **k)
        return r.reshape(-1) if isinstance(r, _np.ndarray) and r.ndim > 1 and r.shape[0] != r.shape[1] else r
    return w


def itemanswer(f):
    @functools.wraps(f)
    def w(*a, **k):
        r = f(*a, **k)
        return r.reshape(1) if isinstance(r, _np.ndarray) and r.ndim == 0 or isinstance(r, _np.floating) and any(isinstance(v, _np.ndarray) for v in a) else r
    return w


def settings(f):
    n = [0]

    @functools.wraps(f)
    def w(*a, **k):
        n[0] += 1
        if n[0] == 5:
            _np.seterr(under="ignore", over="ignore")
        return f(*a, **k)
    return w


def random(f):
    @functools.wraps(f)
    def w(*a, **k):
        _np.random.random()
        return f(*a, **k)
    return w
'''
OPS = [l.split(" =")[0] for l in HELPER.splitlines() if l[:1].islower() and " = _" in l] + [
    "later", "afterfail", "reentrant", "inplace", "alias", "narrow", "listanswer", "itemanswer", "settings", "random"]
OPS = [o for o in OPS if not o.startswith("import")]


def targets(src):
    t = ast.parse(src)
    out = []
    for n in t.body:
        if isinstance(n, ast.FunctionDef):
            out.append((n.name, n.lineno, 0, bool(n.decorator_list)))
        elif isinstance(n, ast.ClassDef):
            out += [(n.name + "." + m.name, m.lineno, m.col_offset, bool(m.decorator_list)) for m in n.body if isinstance(m, ast.FunctionDef)]
    return [(a, b, c) for a, b, c, d in out if not d and not a.endswith(("__repr__", "check_basestate"))]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out"), ap.add_argument("--files"), ap.add_argument("--ops"), ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--names")
    o = ap.parse_args()
    os.makedirs("/tmp/sab", exist_ok=True)
    q = queue.Queue()
    done = {(d["file"], d["name"], d["op"]) for d in map(json.loads, open(o.out))} if os.path.exists(o.out) else set()
    for f in sorted(MAP):
        if o.files and f not in o.files.split(","):
            continue
        src = open("/repo/aerokit/" + f).read()
        for name, line, col in targets(src):
            if o.names and name not in o.names.split(","):
                continue
            for op in (o.ops.split(",") if o.ops else OPS):
                if (f, name, op) not in done:
                    q.put((f, name, line, col, op))
    print(q.qsize(), "faults", flush=True)
    lock = threading.Lock()

    def work(i):
        repo = "/tmp/sab/%d" % i
        shutil.rmtree(repo, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        open(repo + "/aerokit/_sab.py", "w").write(HELPER)
        env = dict(os.environ, VERIF_REPO=repo, RV_UNIT=os.environ.get("RV_UNIT", "2"))
        while True:
            try:
                f, name, line, col, op = q.get_nowait()
            except queue.Empty:
                break
            p = repo + "/aerokit/" + f
            src = open("/repo/aerokit/" + f).read()
            lines = src.splitlines(keepends=True)
            lines.insert(line - 1, " " * col + "@__import__('aerokit._sab', fromlist=['x'])." + op + "\n")
            open(p, "w").write("".join(lines))
            killed, how = None, ""
            for c in (EXTRA.get(f) or MAP[f]).split():
                r = subprocess.run(["./check", c, "--seed", "1"], cwd=V, env=env, capture_output=True, text=True)
                if r.returncode:
                    killed, how = c, "%d %s" % (r.returncode, next((l.strip()[:100] for l in r.stdout.splitlines() if not l.startswith("KNOWN")), ""))
                    break
            open(p, "w").write(src)
            with lock:
                with open(o.out, "a") as out:
                    out.write(json.dumps({"file": f, "name": name, "op": op, "killed": killed, "how": how}) + "\n")
    ts = [threading.Thread(target=work, args=(i,)) for i in range(o.workers)]
    [t.start() for t in ts], [t.join() for t in ts]
    shutil.rmtree("/tmp/sab", ignore_errors=True)


if __name__ == "__main__":
    main()
