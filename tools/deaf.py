"""Which oracles never object?  python tools/deaf.py OUT.json [--ids A01,..] [--modes ..] [--workers 8]

Every function and method of a scratch copy of the repository is wrapped by one that now and then falsifies what it returns,
its arguments, its object or the process; the checks run on these copies (reduced workload) and every oracle that decided something on the
true code without ever objecting to a falsified one is listed.  An oracle of that list is suspect: it may be unable to object."""
import argparse, collections, concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODES = ("value", "fine", "rare", "shape", "inplace", "attribute", "raise", "stale", "process", "silent", "none", "vary")

NOISE = r'''
import functools, inspect, os, random, sys
import numpy as np
MODE = os.environ.get("RV_MODE", "")
R = random.Random(int(os.environ.get("RV_NOISE", "7")))
P = {"rare": .02, "raise": .02, "process": .05, "none": .05, "inplace": .3, "attribute": .1, "shape": .1, "stale": .3, "silent": .05}.get(MODE, .3)
EPS = {"fine": 1e-6, "vary": 1e-9}.get(MODE, 1e-2)


def noisy(x):
    if isinstance(x, (bool, str)) or x is None:
        return x
    if isinstance(x, np.ndarray) and x.dtype.kind in "fc":
        y = x * (1 + EPS * R.gauss(0, 1) * (np.arange(x.size).reshape(x.shape) == R.randrange(max(1, x.size)))) if R.random() < .5 else x * (1 + EPS * R.gauss(0, 1))
        return y
    if isinstance(x, (float, np.floating)):
        return type(x)(x * (1 + EPS * R.gauss(0, 1)))
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(noisy(v) for v in x)
    return x


def upset():
    k = R.randrange(6)
    if k == 0: np.seterr(all=R.choice(["ignore", "warn"]), over=R.choice(["ignore", "warn"]))
    if k == 1: np.random.seed(3)
    if k == 2: import warnings; warnings.simplefilter("ignore")
    if k == 3: np.set_printoptions(precision=R.randrange(3, 9))
    if k == 4:
        d = sys.modules.get("aerokit.common.defaultgas")
        if d: d._gamma = 1.4 + .01 * R.randrange(3)
    if k == 5: os.environ["RV_X"] = str(R.random())


def wrap(f, method=False):
    last = []

    @functools.wraps(f)
    def g(*a, **k):
        hit = R.random() < P
        if hit and MODE == "raise":
            raise ValueError("planted")
        if hit and MODE == "inplace":
            for x in list(a) + list(k.values()):
                if isinstance(x, np.ndarray) and x.size and x.dtype.kind == "f" and x.flags.writeable:
                    x.flat[R.randrange(x.size)] *= 1.01
                elif isinstance(x, dict) and x:
                    q = R.choice(list(x))
                    if isinstance(x[q], float): x[q] *= 1.01
        if MODE == "silent":
            import io, contextlib
            try:
                return f(*a, **k)
            except Exception:
                if R.random() < .5: return None
                raise
        r = f(*a, **k)
        if not hit:
            if MODE == "stale" and not method: last[:] = [r]
            return r
        if MODE in ("value", "fine", "rare", "vary"):
            return noisy(r)
        if MODE == "shape" and isinstance(r, (float, np.ndarray, np.floating)):
            return np.asarray(r)[None] if R.random() < .5 else np.ravel(r)[:1]
        if MODE == "attribute" and a and hasattr(a[0], "__dict__") and method:
            o = a[0]
            q = [n for n, v in vars(o).items() if isinstance(v, (float, np.ndarray, np.floating)) and not isinstance(v, bool)]
            if q:
                n = R.choice(sorted(q))
                try: setattr(o, n, noisy(vars(o)[n]))
                except Exception: pass
        if MODE == "stale" and last and not method:
            return last[0]
        if MODE == "process":
            upset()
        if MODE == "none":
            return None
        return r
    return g


def install(G):
    n = G["__name__"]
    for k, v in list(G.items()):
        if inspect.isfunction(v) and v.__module__ == n:
            G[k] = wrap(v)
        elif isinstance(v, np.vectorize):
            G[k] = wrap(v.__call__) if False else wrap_vec(v)
        elif inspect.isclass(v) and v.__module__ == n:
            for q, f in list(vars(v).items()):
                if inspect.isfunction(f) and q not in ("__call__",):
                    setattr(v, q, wrap(f, True))


def wrap_vec(v):
    def g(*a, **k): return v(*a, **k)
    return wrap(functools.wraps(v.pyfunc)(g))
'''


def job(mode, pid, seed):
    t = tempfile.mkdtemp(prefix="deaf.", dir="/tmp")
    try:
        shutil.copytree("/repo/aerokit", t + "/repo/aerokit")
        for d in ("rv", "check", "properties.jsonl", "known_findings.txt", "MANIFEST.json"):
            s = os.path.join(V, d)
            (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(t, d))
        if mode:
            open(t + "/repo/aerokit/_noise.py", "w").write(NOISE)
            for root, _, files in os.walk(t + "/repo/aerokit"):
                for f in files:
                    if f.endswith(".py") and f not in ("__init__.py", "_noise.py", "_dev.py"):
                        with open(os.path.join(root, f), "a") as h:
                            h.write("\n\nfrom aerokit import _noise as _nz_\n_nz_.install(globals())\n")
        env = dict(os.environ, VERIF_REPO=t + "/repo", RV_MODE=mode or "", RV_NOISE=str(seed), PYTHONDONTWRITEBYTECODE="1")
        env["RV_UNIT"] = "1"
        try:
            p = subprocess.run(["./check", pid, "--seed", str(seed)], cwd=t, env=env, capture_output=True, text=True, timeout=200)
            rc, tail = p.returncode, p.stdout[-300:] + p.stderr[-300:]
        except subprocess.TimeoutExpired:
            rc, tail = -1, "timeout"
        try:
            dec = json.load(open("%s/evidence/%s.json" % (t, pid)))["coverage"]["decided_by_oracle"]
        except Exception:
            dec = {}
        try:
            vio = {w["mechanism"]: w["count"] for w in json.load(open("%s/replay/%s-quick-%d.json" % (t, pid, seed)))["violations"]}
        except Exception:
            vio = {}
        return mode, pid, rc, dec, vio, tail
    finally:
        shutil.rmtree(t)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--ids")
    ap.add_argument("--modes", default=",".join(MODES))
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--seed", type=int, default=1)
    a = ap.parse_args()
    ids = a.ids.split(",") if a.ids else [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
    jobs = [(m, p) for p in ids for m in [""] + a.modes.split(",")]
    dec, vio, rcs = collections.defaultdict(dict), collections.defaultdict(lambda: collections.defaultdict(dict)), {}
    with cf.ThreadPoolExecutor(a.workers) as ex:
        for mode, pid, rc, d, v, tail in ex.map(lambda j: job(j[0], j[1], a.seed), jobs):
            rcs[pid + " " + (mode or "true")] = rc
            if not mode:
                dec[pid] = d
            for m, c in v.items():
                vio[pid][m][mode or "true"] = c
            if rc not in (0, 1):
                print(pid, mode or "true", rc, tail[-200:].replace("\n", " | "), flush=True)
    out = {}
    for pid in ids:
        deaf = {m: c for m, c in dec[pid].items() if m not in vio[pid]}
        out[pid] = {"decided": dec[pid], "objected": vio[pid], "never objected": deaf}
        print(pid, "oracles", len(dec[pid]), "never objected:", deaf, flush=True)
    json.dump({"rc": rcs, "by property": out}, open(a.out, "w"), indent=1)


if __name__ == "__main__":
    main()
