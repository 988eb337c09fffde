"""Arrays (I01), legacy names (I02), plotted polars (I03), independence of history (I04)."""
import concurrent.futures as cf
import contextlib
import json
import os
import pickle
import subprocess
import sys

import numpy as np

from .. import core, gen, globs, ref, scenes, specs
from ..core import Failed, prop
from ..ref import L, l

# --------------------------------------------------------------------------- I01
TIGHT = 1e-13


def conditioning(s, b, want):
    """change of the reference for a relative change 1e-14 of one argument"""
    tol = np.zeros(np.shape(want))
    for k in b:
        for f in (1 + 1e-14, 1 - 1e-14):
            d = np.abs(s.ref(**{**b, k: b[k] * f}) - want).astype(float)
            tol = tol + np.where(np.isfinite(d), d, 0)
    return tol


def same_values(s, a, x, y, ok):
    """elements of x and y agree as two evaluations of the same function may"""
    x, y = np.asarray(x, float), np.asarray(y, float)
    b = dict(zip(a, np.broadcast_arrays(*[l(v) for v in a.values()])))
    with np.errstate(all="ignore"):
        if s.inv:
            target, fwd, lo, hi, xtol = s.inv
            o = {k: v for k, v in b.items() if k != target}
            t = b[target]
            good = np.abs(x - y) <= 4 * xtol * np.abs(y) + 1e-14
            q, w = (fwd(np.clip(l(v), lo(**o), hi(**o)), **o) for v in (x, y))
            good |= np.asarray(np.abs(q - w) <= 4e-12 * np.abs(t) + s.atol, bool) & (np.abs(x - y) <= 1e-4 * (1 + np.abs(y)))
        else:
            w = s.ref(**b)
            good = np.abs(x - y) <= max(TIGHT, s.rtol * .5 if s.atol or s.rtol >= 1e-9 else 0) * np.abs(y) + s.atol + conditioning(s, b, w) + 1e-300
        return good | ~np.asarray(ok, bool) | (np.isnan(x) & np.isnan(y))


def valid(s, a):
    """observable domain of arguments a (mapping of every argument)"""
    b = dict(zip(a, np.broadcast_arrays(*[l(v) for v in a.values()])))
    with np.errstate(all="ignore"):
        ok = np.asarray(s.dom(**b), bool)
        if s.ref:
            ok = ok & np.isfinite(np.asarray(s.ref(**b), float))
    return ok


def full(s, v, g):
    a = {}
    for k in s.args:
        a[k] = g if k == "gamma" else s.defaults[k] if k not in v else float(v[k][0]) if k in s.scalar_args else np.asarray(v[k], float)
    return a


def split(ck, s, a):
    """positional and keyword arguments"""
    names = list(a)
    n = int(ck.rng.integers(1, len(names) + 1))
    return [a[k] for k in names[:n]], {k: a[k] for k in names[n:]}


class Watch:
    """content of arrays given to the code under test"""

    def __init__(self, *a):
        self.a = [x for x in a if isinstance(x, (np.ndarray, list))]
        self.c = [self.content(x) for x in self.a]

    @staticmethod
    def content(x):
        return (x.shape, str(x.dtype), x.strides, x.tobytes()) if isinstance(x, np.ndarray) else repr(x)

    def intact(self):
        return [self.content(x) for x in self.a] == self.c


@prop("I01")
def i01(ck):
    ck.assumptions += ["array elements and scalar results may differ by the rounding of one elementary operation on the arguments",
                       "inversions may differ by the precision their contract allows"]
    r = ck.rng
    for m in ("1-d", "2-d", "one element", "size-1", "strided", "fortran", "readonly", "integers", "broadcast gamma", "broadcast arguments", "inputs not modified", "long array", "three axes", "increasing", "decreasing", "single precision"):
        ck.require(m, 30)
    every = [s for s in specs.SPECS.values() if s.name != "Rayleigh.maxTiratio_Mach"]
    for s in every:
        for _ in range(ck.n(5, 150)):
            one_function(ck, s)
        if s.forms != "scalar":
            for _ in range(ck.n(1, 10)):
                large(ck, s)
    others(ck)
    objects(ck)


def large(ck, s):
    """long unsorted arrays, three axes, an element outside the domain: the other elements do not know"""
    r = ck.rng
    fn = s.get(ck)
    for mech in ("long array", "three axes", "an invalid element"):
        m = {"long array": int(r.choice([600, 1100, 3000])), "three axes": 24, "an invalid element": 9}[mech]
        if s.inv and mech == "long array":
            m = int(r.choice([150, 600]))
        vec = r.random() < .3
        g = gen.gamma(ck, m if vec else 1, *s.grange)
        v = s.gen(ck, m, np.broadcast_to(g, (m,)))
        a = full(s, {k: v[k] for k in s.args if k in v}, g if vec else float(g[0]))
        big = [k for k in a if np.ndim(a[k])]
        if not big:
            return
        ok = valid(s, a)
        i = int(r.integers(m))
        if mech == "three axes":
            a = {k: x.reshape(2, 3, 4) if np.ndim(x) else x for k, x in a.items()}
            a = {k: np.swapaxes(x, 0, 2) if np.ndim(x) else x for k, x in a.items()} if r.random() < .5 else a
            ok = valid(s, a)
        if mech == "an invalid element":
            k = big[int(r.integers(len(big)))]
            a[k] = np.array(a[k], float)
            a[k][i] = np.nan
            ok = ok & (np.arange(m) != i)
        shape = np.broadcast_shapes(*[np.shape(x) for x in a.values()])
        w = Watch(*a.values())
        p, kw = split(ck, s, a)
        res = ck.call("%s %s" % (s.name, mech), fn, *p, **kw)
        ck.true("inputs not modified", w.intact(), (s.name, mech, a))
        if isinstance(res, Failed) or not ck.true("shape", np.shape(res) == shape, (s.name, mech), {"got": np.shape(res), "expected": shape}):
            continue
        idx = [tuple(q) for q in np.argwhere(np.broadcast_to(ok, shape))]
        # the first, the last and some others
        for j in {*([0, len(idx) - 1] if idx else []), *r.integers(len(idx), size=10 if idx else 0).tolist()}:
            e = {k: float(np.broadcast_to(x, shape)[idx[j]]) for k, x in a.items()}
            y = ck.call(s.name + " scalar", fn, **e)
            if not isinstance(y, Failed):
                ck.decide(mech, bool(np.all(same_values(s, e, np.asarray(res)[idx[j]], y, True))), (s.name, e, m), {"array": np.asarray(res)[idx[j]], "scalar": y, "place": idx[j]})


def one_function(ck, s):
    r = ck.rng
    fn = s.get(ck)
    lo, hi = s.grange
    n = int(r.choice([1, 2, 3, 6, 12, 50]))
    m = ((n + 2) // 3) * 3
    vec = s.forms != "scalar" and r.random() < .4
    g = gen.gamma(ck, m if vec else 1, lo, hi)
    v = s.gen(ck, m, np.broadcast_to(g, (m,)))
    a = full(s, {k: v[k] for k in s.args if k in v}, g if vec else float(g[0]))
    scal = [{k: float(np.broadcast_to(x, (m,))[i]) for k, x in a.items()} for i in range(m)]
    out = []
    for e in scal:
        p, kw = split(ck, s, e)
        out.append(ck.call(s.name + " scalar", fn, *p, **kw))
    if any(isinstance(x, Failed) for x in out):
        return
    y = np.array([float(np.asarray(x).reshape(-1)[0]) for x in out])
    ck.true("scalar result has no dimension", all(np.ndim(x) == 0 for x in out), (s.name, scal[0]), str([np.shape(x) for x in out[:3]]))
    ok = valid(s, a)
    integers(ck, s, fn, a)
    if s.forms == "scalar":
        return
    # forms of arrays
    for form in r.choice(gen.ARRAY_FORMS[:6], 2, replace=False):
        form = str(form)
        b = {k: gen.as_form(ck, np.broadcast_to(x, (m,)), form) if np.ndim(x) else x for k, x in a.items()}
        p, kw = split(ck, s, b)
        w = Watch(*b.values())
        res = ck.call("%s %s" % (s.name, form), fn, *p, **kw)
        ck.true("inputs not modified", w.intact(), (s.name, form, p, kw))
        if isinstance(res, Failed):
            continue
        shape = np.broadcast_shapes(*[np.shape(x) for x in b.values()])
        k = int(np.prod(shape))
        if not ck.true("shape", np.shape(res) == shape, (s.name, form, p, kw), {"got": np.shape(res), "expected": shape}):
            continue
        sub = {q: (np.ravel(x) if np.ndim(x) else x) for q, x in b.items()}
        x = np.ravel(np.asarray(res, float))
        good = same_values(s, sub, x, y[:k], ok[:k])
        j = int(np.argmin(good))
        ck.decide(form, bool(np.all(good)), (s.name, p, kw), {"function": s.name, "index": j, "array": x[j], "scalar": y[j], "arguments": scal[j]}, size=k)
    broadcast(ck, s, fn, v, m)
    in_order(ck, s, fn, a, y, ok)
    single(ck, s, fn, a)
    one_element(ck, s, fn, scal[0], y[:1], ok[:1])


def one_element(ck, s, fn, e, y, ok):
    """every mixture of numbers and arrays of one element, of one or two axes"""
    arr = [k for k in e if k not in getattr(s, "scalar_args", ())]
    for code in range(1, 2 ** len(arr)):
        shapes = {k: [(1,), (1, 1)][int(ck.rng.random() < .2)] for i, k in enumerate(arr) if code >> i & 1}
        b = {k: np.full(shapes[k], x) if k in shapes else x for k, x in e.items()}
        p, kw = split(ck, s, b)
        res = ck.call(s.name + " one element", fn, *p, **kw)
        if not isinstance(res, Failed) and ck.true("shape", np.shape(res) == np.broadcast_shapes(*shapes.values()), (s.name, "one element", p, kw), str(np.shape(res))):
            ck.decide("one element", bool(np.all(same_values(s, e, np.ravel(np.asarray(res, float)), y, ok))), (s.name, p, kw), {"array": res, "scalar": y})


def in_order(ck, s, fn, a, y, ok):
    """the order of the elements is the order of the results: increasing, decreasing"""
    arr = [k for k in a if np.ndim(a[k])]
    if not arr or len(y) < 3:
        return
    o = np.argsort(a[arr[int(ck.rng.integers(len(arr)))]], kind="stable")
    for mech, i in (("increasing", o), ("decreasing", o[::-1])):
        b = {k: x[i] if np.ndim(x) else x for k, x in a.items()}
        p, kw = split(ck, s, b)
        res = ck.call("%s %s" % (s.name, mech), fn, *p, **kw)
        if not isinstance(res, Failed) and ck.true("shape", np.shape(res) == (len(y),), (s.name, mech, p, kw)):
            good = same_values(s, b, np.asarray(res, float), y[i], ok[i])
            ck.decide(mech, bool(np.all(good)), (s.name, p, kw), {"array": res, "scalars": y[i]}, size=len(y))


def single(ck, s, fn, a):
    """single precision arguments give the results of equal double precision ones, to single precision"""
    arr = [k for k in a if np.ndim(a[k]) and k != "gamma"]
    if not arr:
        return
    g = a.get("gamma", 1.4)
    if np.ndim(g):
        g = float(g[0])
    b = {k: np.asarray(x, np.float32) if k in arr else x for k, x in a.items()}
    if "gamma" in b:
        b["gamma"] = g
    e = {k: x.astype(float) if k in arr else x for k, x in b.items()}
    w = Watch(*b.values())
    res = ck.call(s.name + " single precision", fn, **b)
    y = ck.call(s.name, fn, **e)
    ck.true("inputs not modified", w.intact(), (s.name, "single precision", b))
    if isinstance(res, Failed) or isinstance(y, Failed) or not ck.true("shape", np.shape(res) == np.shape(y), (s.name, "single precision", b)):
        return
    with np.errstate(all="ignore"):
        tol = 5e-5 * np.abs(y)
        ok = valid(s, e) & (np.abs(y) < 1e6) & (np.abs(y) > 1e-6)
        for k in arr:
            ok = ok & (np.abs(e[k]) > 1e-3) & (np.abs(e[k]) < 30)
            for q in (1 - 3e-7, 1 + 3e-7):
                tol = tol + 200 * np.abs(np.asarray(fn(**{**e, k: e[k] * q}), float) - y)
        ok = ok & np.isfinite(tol) & (tol < .02 * np.abs(y))
        if not np.any(ok):
            return ck.skip("single precision")
        bad = ok & ~(np.abs(np.asarray(res, float) - y) <= tol)
    j = int(np.argmax(bad))
    ck.decide("single precision", not np.any(bad), (s.name, b), {"index": j, "single": np.asarray(res)[j], "double": np.asarray(y)[j], "tolerance": tol[j]}, size=int(np.sum(ok)))


def integers(ck, s, fn, a):
    """integers give the results of equal floats"""
    r = ck.rng
    m = max(np.size(x) for x in a.values())
    b = {}
    for k, x in a.items():
        if k == "gamma":
            b[k] = np.broadcast_to(x, (m,)) if s.forms == "scalar" or r.random() < .7 else np.full(m, 2)
        elif np.ndim(x):
            x = np.array(x, float)
            x = np.where(r.random(m) < .5, np.round(x), r.integers(1, 30 if "dev" not in k else 12, m))
            b[k] = x
        else:
            b[k] = np.full(m, float(x)) if k != "Mach" else np.round(np.full(m, float(x)))
    ok = valid(s, b)
    if not np.any(ok):
        return ck.skip("integers")
    i = np.flatnonzero(ok)
    b = {k: x[i] for k, x in b.items()}
    asint = lambda x: x.astype(int) if np.all(x == np.round(x)) else x
    for j in range(min(3, len(i))):
        e = {k: float(x[j]) for k, x in b.items()}
        f = {k: int(v) if v.is_integer() and (k == "gamma" or r.random() < .8) else v for k, v in e.items()}
        x, y = ck.call(s.name + " integer", fn, **f), ck.call(s.name, fn, **e)
        if isinstance(x, Failed) or isinstance(y, Failed):
            continue
        good = same_values(s, e, x, y, True)
        ck.decide("integers", bool(np.all(good)), (s.name, f), {"integers": x, "floats": y})
    if s.forms == "scalar":
        return
    f = {k: (asint(x) if k not in s.scalar_args else float(x[0])) for k, x in b.items()}
    e = {k: np.asarray(x, float) for k, x in f.items()}
    f = {k: x for k, x in f.items()}
    w = Watch(*f.values())
    x, y = ck.call(s.name + " integer array", fn, **f), ck.call(s.name, fn, **e)
    ck.true("inputs not modified", w.intact(), (s.name, "integers", f))
    if isinstance(x, Failed) or isinstance(y, Failed):
        return
    if ck.true("shape", np.shape(x) == np.shape(y), (s.name, f), [np.shape(x), np.shape(y)]):
        good = same_values(s, e, x, y, True)
        ck.decide("integers", bool(np.all(good)), (s.name, f), {"integers": x, "floats": y})


def broadcast(ck, s, fn, v, m):
    r = ck.rng
    lo, hi = s.grange
    if "gamma" not in s.args:
        return
    q = int(r.integers(2, 4))
    g = gen.gamma(ck, q, lo, hi)
    a = {}
    for k in s.args:
        if k == "gamma":
            a[k] = g
        elif k in s.scalar_args:
            a[k] = float(v[k][0]) if k in v else s.defaults[k]
        else:
            a[k] = np.asarray(v[k], float)[:, None] if k in v else s.defaults[k]
    if r.random() < .5:
        a = {k: x.T if np.ndim(x) == 2 else x[:, None] if np.ndim(x) == 1 else x for k, x in a.items()}
    compare_elements(ck, s, fn, a, "broadcast gamma")
    arr = [k for k in s.args if np.ndim(a[k]) == 2 and k != "gamma"]
    if len(arr) > 1:
        b = {k: (np.asarray(v[k], float)[:q][:, None] if k == arr[0] else np.asarray(v[k], float)) if k in arr else x for k, x in a.items()}
        b["gamma"] = float(g[0])
        compare_elements(ck, s, fn, b, "broadcast arguments")
        # one scalar against an array
        c = dict(b)
        c[arr[0]] = float(np.ravel(b[arr[0]])[0])
        compare_elements(ck, s, fn, c, "broadcast arguments")
        # some scalars, some arrays, some of them of integers
        c = {k: np.ravel(b[k])[:4] if k in arr else b[k] for k in b}
        c = {k: float(x[int(r.integers(len(x)))]) if k in arr and r.random() < .5 else x for k, x in c.items()}
        m = min([len(c[k]) for k in arr if np.ndim(c[k])], default=0)
        c = {k: x[:m] if np.ndim(x) else x for k, x in c.items()}
        for k in arr:
            i = {**c, k: np.round(c[k]).astype(int) if np.ndim(c[k]) else int(round(c[k]))}
            if r.random() < .6 and np.all(valid(s, i)):
                c = i
        compare_elements(ck, s, fn, c, "broadcast arguments")


def compare_elements(ck, s, fn, a, mech):
    ok = valid(s, a)
    if not np.all(ok) and s.inv is None and not np.any(ok):
        return ck.skip(mech)
    w = Watch(*a.values())
    res = ck.call("%s %s" % (s.name, mech), fn, **a)
    ck.true("inputs not modified", w.intact(), (s.name, mech, a))
    if isinstance(res, Failed):
        return
    shape = np.broadcast_shapes(*[np.shape(x) for x in a.values()])
    if not ck.true("shape", np.shape(res) == shape, (s.name, mech, a), {"got": np.shape(res), "expected": shape}):
        return
    full = dict(zip(a, np.broadcast_arrays(*a.values())))
    idx = [tuple(i) for i in np.argwhere(ok)]
    idx = [idx[i] for i in ck.rng.permutation(len(idx))[:8]]
    for i in idx:
        e = {k: float(x[i]) for k, x in full.items()}
        y = ck.call(s.name + " scalar", fn, **e)
        if isinstance(y, Failed):
            continue
        good = same_values(s, e, np.asarray(res)[i], y, True)
        ck.decide(mech, bool(np.all(good)), (s.name, e), {"array": np.asarray(res)[i], "scalar": y})


def others(ck):
    """functions without a contract of their own: degree trigonometry, branch inversions given arrays"""
    r = ck.rng
    dg, sw, it = (ck.module("aerokit." + m) for m in ("aero.degree", "aero.ShockWave", "aero.IterativeSolve"))
    for _ in range(ck.n(10, 200)):
        x = r.uniform(-400, 400, 12)
        for f in ("cos", "sin", "tan", "acos", "asin", "atan"):
            a = x if f in ("cos", "sin", "tan") else x / 401
            if r.random() < .4:
                a = np.round(a).astype(int)
            a = a.reshape(3, 4) if r.random() < .5 else a
            w = Watch(a)
            v = ck.call("degree." + f, getattr(dg, f), a)
            ck.true("inputs not modified", w.intact(), (f, a))
            if not isinstance(v, Failed) and ck.true("shape", np.shape(v) == a.shape, (f, a)):
                y = np.array([float(getattr(dg, f)(float(q))) for q in a.ravel()]).reshape(a.shape)
                ck.close("degree." + f, v, y, rtol=4e-16 if f != "tan" else 1e-13, atol=2e-16, case=a)
        g = float(r.choice([1.2, 1.3, 1.4, 1.6]))
        M = float(r.uniform(1.3, 6))
        d = r.uniform(-.95, .95, 6) * float(sw.dev_Max(M, gamma=g))
        w = Watch(d)
        v = ck.call("sigma_Mach_deflection of an array", sw.sigma_Mach_deflection, M, d, gamma=g)
        ck.true("inputs not modified", w.intact(), (M, d))
        if not isinstance(v, Failed) and ck.true("shape", np.shape(v) == d.shape, ("sigma_Mach_deflection", M, d)):
            y = np.array([float(sw.sigma_Mach_deflection(M, float(q), gamma=g)) for q in d])
            ck.close("sigma_Mach_deflection of an array", v, y, rtol=1e-6, case=(M, d, g))
        # secant solver on arrays of targets and starting points
        c = r.uniform(.5, 2, 4)
        f = lambda t: t + .3 * np.sin(t)
        t0, y0 = r.uniform(.5, 3, 4), f(c)
        w = Watch(t0, y0)
        v = ck.call("secant_solve", it.secant_solve, f, y0, t0, 1e-10)
        ck.true("inputs not modified", w.intact(), ("secant_solve", t0, y0))
        ck.close("secant_solve of an array", v, c, rtol=1e-7, case=(t0, y0))


def objects(ck):
    """objects built on arrays: elements are those of objects built on scalars, arguments stay as they were"""
    r = ck.rng
    md, us, nz, rp, ns, ode = (ck.module("aerokit." + m) for m in ("aero.model1D", "aero.unsteady1D", "instance.nozzle", "instance.riemann",
                                                                     "common.numspectral", "common._ode"))
    for _ in range(ck.n(12, 300)):
        n = int(r.integers(2, 8))
        g = float(r.choice([1.2, 1.3, 1.4, 5 / 3]))
        q = [r.uniform(.2, 3, n), r.uniform(2.5, 6, n), r.uniform(.2, 1, n)]
        w = Watch(*q)

        def use(cls, rho, u, p):
            o = cls(rho, u, p, gamma=g)
            out = {f: getattr(o, f)() for f in ("asound", "Mach", "Ptot", "rTtot", "massflow", "left_acoustic", "right_acoustic") if hasattr(o, f)}
            if hasattr(o, "state_RH"):
                b = o.state_RH()
                out.update({"RH.rho": b.rho, "RH.u": b.u, "RH.p": b.p})
            if hasattr(o, "state_isentropic_Mach"):
                b = o.state_isentropic_Mach(.7)
                out.update({"isen.rho": b.rho, "isen.u": b.u, "isen.p": b.p})
            b = o.copy()
            for k, f, x in (("p", "compute_from_pt_rtt_p", .8 * p), ("M", "compute_from_pt_rtt_M", .8), ("u", "compute_from_pt_rtt_u", .4)):
                getattr(b, f)(p * 2., p / rho, x)
                out.update({k + ".rho": b.rho, k + ".u": b.u, k + ".p": b.p})
            return out

        for cls in (md.state, us.unsteady_state):
            v = ck.call("states of arrays", use, cls, *q)
            ck.true("inputs not modified", w.intact(), (cls.__name__, q))
            if isinstance(v, Failed):
                continue
            sc = [ck.call("states", use, cls, *[float(x[i]) for x in q]) for i in range(n)]
            if any(isinstance(x, Failed) for x in sc):
                continue
            for k in v:
                if ck.true("shape", np.shape(v[k]) in ((n,), ()), (cls.__name__, k, q), str(np.shape(v[k]))):
                    ck.close("states of arrays", np.broadcast_to(v[k], (n,)), np.array([float(x[k]) for x in sc]), rtol=1e-12, atol=1e-14, case=(cls.__name__, k, q, g))
        # arrays handed to objects
        x = np.linspace(0, 1, 14)
        sec = 1 + r.uniform(.5, 4) * (x - r.uniform(.2, .8)) ** 2
        if r.random() < .3:
            x, sec = x.tolist(), np.array(sec)
        w = Watch(x, sec)
        o = ck.call("nozzle", nz.nozzle, x, sec, gamma=g, NPR=float(r.uniform(1.01, 9)))
        ck.true("inputs not modified", w.intact(), ("nozzle", x, sec))
        if not isinstance(o, Failed):
            first = [np.array(v) for v in (o.Mach(), o.Ps(), o.Ptot())]
            npr = float(r.uniform(1.01, 9))
            ck.call("nozzle", o.set_NPR, npr)
            ck.true("inputs not modified", w.intact(), ("set_NPR", x, sec))
        a, b = (us.unsteady_state(float(r.uniform(.3, 3)), float(r.uniform(-.4, .4)), float(r.uniform(.3, 3)), gamma=g) for _ in range(2))
        pb = ck.call("riemann_pb", rp.riemann_pb, a, b)
        if not isinstance(pb, Failed):
            xt = np.sort(r.uniform(-3, 3, 9))
            keep = [(s.rho, s.u, s.p, s._gamma) for s in (a, b)]
            w = Watch(xt)
            s = ck.call("qsol", pb.qsol, xt)
            ck.true("inputs not modified", w.intact() and keep == [(s_.rho, s_.u, s_.p, s_._gamma) for s_ in (a, b)], ("qsol", xt))
            if not isinstance(s, Failed):
                for f in ("rho", "u", "p"):
                    y = np.array([float(np.asarray(getattr(pb.qsol(np.array([t])), f)).reshape(-1)[0]) for t in xt])
                    ck.close("sampled solution of arrays", getattr(s, f), y, rtol=1e-12, atol=1e-13, case=(f, xt))
        c = ck.call("ChebCollocation", ns.ChebCollocation, int(r.integers(6, 20)), -1., 1.)
        if not isinstance(c, Failed):
            f, y = np.cos(c.x), r.uniform(-1, 1, 5)
            w = Watch(f, y, c.x)
            m1 = np.array(c.matder(1))
            ck.call("spectral", lambda: (c.extrapol(f, y), c.fit_to_gauss(c.x, f), c.matder(1) @ f, c.matder(2) @ f))
            ck.true("inputs not modified", w.intact() and np.array_equal(m1, c.matder(1)), ("ChebCollocation", f, y))


# --------------------------------------------------------------------------- I02
CF = {  # legacy function of CompressibleFlow: (current module, function, its contract)
    "TtTs_Mach": ("Isentropic", "TtTs_Mach", "Isentropic.TtTs_Mach"),
    "PtPs_Mach": ("Isentropic", "PtPs_Mach", "Isentropic.PtPs_Mach"),
    "Mach_TtTs": ("Isentropic", "Mach_TtTs", "Isentropic.Mach_TtTs"),
    "Mach_PtPs": ("Isentropic", "Mach_PtPs", "Isentropic.Mach_PtPs"),
    "Velocity_MachTi": ("Isentropic", "Velocity_MachTt", "Isentropic.Velocity_MachTt"),
    "PrandtlMeyer_Mach": ("Supersonic", "PrandtlMeyer_Mach", "Supersonic.PrandtlMeyer_Mach"),
    "Mach_PrandtlMeyer": ("Supersonic", "Mach_PrandtlMeyer", "Supersonic.Mach_PrandtlMeyer"),
    "deflection_Mach_IsentropicPsratio": ("Supersonic", "deflection_Mach_IsentropicPsratio", "Supersonic.deflection_Mach_IsentropicPsratio"),
    "IsentropicPsratio_Mach_deflection": ("Supersonic", "IsentropicPsratio_Mach_deflection", "Supersonic.IsentropicPsratio_Mach_deflection"),
    "WeightMassFlow": ("MassFlow", "WeightMassFlow", "MassFlow.WeightMassFlow"),
    "Sigma_Mach": ("MassFlow", "Sigma_Mach", "MassFlow.Sigma_Mach"),
    "Mach_Sigma": ("MassFlow", "Mach_Sigma", "MassFlow.Mach_Sigma"),
}
ALIASES = [("Isentropic", "TiTs_Mach", "TtTs_Mach"), ("Isentropic", "PiPs_Mach", "PtPs_Mach"), ("Isentropic", "Mach_PiPs", "Mach_PtPs"),
           ("Isentropic", "Mach_TiTs", "Mach_TtTs"), ("Isentropic", "Velocity_MachTi", "Velocity_MachTt"),
           ("ShockWave", "Pi_ratio", "Pt_ratio"), ("ShockWave", "Mn_Pi_ratio", "Mn_Pt_ratio")]
RENAMED = {"Velocity_MachTi": {"Tt": "Ti"}}  # keyword of the legacy function


def pack(x):
    if isinstance(x, Failed):
        return ("raised", type(x.exc).__name__)
    if isinstance(x, (list, tuple)):
        return tuple(pack(v) for v in x)
    a = np.asarray(x)
    return (a.shape, np.asarray(a, float).tobytes() if a.dtype.kind in "iufb" else a.tobytes())


def value(fn, a, kw):
    """outcome of a call, error or not (both names must agree on either)"""
    try:
        return pack(fn(*a, **kw))
    except Exception as e:
        return ("raised", type(e).__name__)


def public_names(m):
    return [n for n in dir(m) if not n.startswith("_")]


@prop("I02")
def i02(ck):
    r = ck.rng
    cf = ck.module("aerokit.aero.CompressibleFlow")
    for n in CF:
        ck.require("CompressibleFlow." + n, 20)
    for m, old, _ in ALIASES:
        ck.require("%s.%s" % (m, old), 20)
    pairs = [("CompressibleFlow." + old, getattr(cf, old, None), getattr(ck.module("aerokit.aero." + m), new), specs.SPECS[s], RENAMED.get(old, {}))
             for old, (m, new, s) in CF.items()]
    for m, old, new in ALIASES:
        mod = ck.module("aerokit.aero." + m)
        pairs.append(("%s.%s" % (m, old), getattr(mod, old, None), getattr(mod, new), specs.SPECS["%s.%s" % (m, new)], {}))
    for name, old, new, s, ren in pairs:
        if not ck.true(name + " exists", callable(old), name):
            continue
        for k in range(ck.n(40, 1500)):
            pos, kw = s.draw(ck, n=6)
            if name.endswith("Velocity_MachTi") and name.startswith("Comp"):
                kw2 = {ren.get(q, q): v for q, v in kw.items()}
            else:
                kw2 = kw
            if k % 7 == 0:  # everything by keyword
                kw2 = {**{ren.get(q, q): v for q, v in zip(s.args, pos)}, **kw2}
                kw = {**dict(zip(s.args, pos)), **kw}
                pos = []
            elif k % 7 == 1:  # everything omitted but the leading arguments
                nreq = len([q for q in s.args if q not in s.defaults])
                a = dict(zip(s.args, pos))
                a.update(kw)
                pos, kw, kw2 = [a[q] for q in s.args[:nreq]], {}, {}
            got = value(old, pos, kw2)
            want = value(new, pos, kw)
            ck.decide(name, got == want, (name, pos, kw2), {"legacy": str(got)[:200], "current": str(want)[:200]})
    modules(ck)


def modules(ck):
    """legacy module names of the nozzle and Riemann computations"""
    r = ck.rng
    for n in ("nozzle", "riemann"):
        old, new = ck.module("aerokit.aero." + n), ck.module("aerokit.instance." + n)
        for q in public_names(new):
            ck.true("legacy module %s has the names of the current one" % n, hasattr(old, q), (n, q))
    oz, nz = ck.module("aerokit.aero.nozzle"), ck.module("aerokit.instance.nozzle")
    orp, nrp, us = ck.module("aerokit.aero.riemann"), ck.module("aerokit.instance.riemann"), ck.module("aerokit.aero.unsteady1D")
    ck.require("legacy nozzle", 50)
    ck.require("legacy riemann", 50)
    for _ in range(ck.n(60, 2000)):
        A, npr, g = float(1 + 10 ** r.uniform(-2, 1)), float(10 ** r.uniform(.001, 1.6)), float(r.choice([1.2, 1.3, 1.4, 1.6]))
        kw = {} if r.random() < .4 else {"gamma": g}
        for f, a in (("NPR_choked_subsonic", (A,)), ("NPR_choked_supersonic", (A,)), ("NPR_shock_at_exit", (A,)), ("Ms_from_AsAc_NPR", (A, npr)),
                     ("Madapt_from_AsAc_NPR", (A, npr))):
            got, want = value(getattr(oz, f), a, kw), value(getattr(nz, f), a, kw)
            ck.decide("legacy nozzle", got == want, (f, a, kw), {"legacy": str(got), "current": str(want)})
        x = np.linspace(0, 1, int(r.integers(5, 20)))
        sec = 1 + r.uniform(.2, 3) * (x - r.uniform(.2, .8)) ** 2
        kn = dict(kw, NPR=npr) if r.random() < .6 else dict(kw)

        def noz(m):
            o = m.nozzle(x, sec, **kn)
            o.set_NPR(npr)
            return [o.NPR0, o.NPRsw, o.NPR1, o.Mach(), o.Ps(), o.Ptot()]

        got, want = value(noz, (oz,), {}), value(noz, (nz,), {})
        ck.decide("legacy nozzle", got == want, ("nozzle", x, sec, kn, npr), {"legacy": str(got)[:200], "current": str(want)[:200]})
        q = [us.unsteady_state(float(r.uniform(.3, 3)), float(r.uniform(-.6, .6)), float(r.uniform(.3, 3)), gamma=g) for _ in range(2)]

        def rie(m):
            pb = m.riemann_pb(*q)
            s = pb.qsol(np.linspace(-2, 2, 7))
            return [pb.pstar(), pb.ustar(), pb.left_fastest(), pb.right_fastest(), s.rho, s.u, s.p]

        got, want = value(rie, (orp,), {}), value(rie, (nrp,), {})
        ck.decide("legacy riemann", got == want, [[s.rho, s.u, s.p, g] for s in q], {"legacy": str(got)[:200], "current": str(want)[:200]})


# --------------------------------------------------------------------------- I03
@contextlib.contextmanager
def figure(plt, how=None):
    f = how() if how else plt.figure()
    try:
        yield f
    finally:
        plt.close(f)


def drawn(ax):
    """curves and markers as a user sees them"""
    out = []
    for ln in ax.lines:
        out.append({"x": np.asarray(ln.get_xdata(), float).ravel(), "y": np.asarray(ln.get_ydata(), float).ravel(), "marker": ln.get_marker(),
                    "line": ln.get_linestyle(), "color": ln.get_color()})
    return out


def draw_case(ck, top=20.):
    r = ck.rng
    g = 1.4 if r.random() < .3 else float(gen.gamma(ck, 1, 1.1, 1.67)[0])
    M = float(np.exp(r.uniform(np.log(1.05), np.log(top)))) if r.random() < .85 else int(r.integers(2, 9))
    return M, g


@prop("I03")
def i03(ck):
    ck.assumptions += ["markers are drawn after curves on the same axes; a point is a line with a marker and a single abscissa"]
    import matplotlib.pyplot as plt
    r = ck.rng
    sp, ip, st = (ck.module("aerokit.aero.plot." + m) for m in ("shockpolar", "isentropicpolar", "defaultstyle"))
    for m in ("angle polar", "pressure polar", "isentropic polar", "only the requested curves", "maximum deflection point", "sonic point", "full range",
              "number of points"):
        ck.require(m, 20)
    for k in range(ck.n(60, 2500)):
        shock_polar(ck, sp, plt, k % 2)
        if k % 2:
            isentropic_polar(ck, ip, plt)
        if k % 10 == 0:
            for how in (st.figure_theta_sigma, st.figure_theta_pressure):
                n = len(plt.get_fignums())
                with figure(plt, lambda: ck.call("figure", how, figsize=(4, 3))) as f:
                    if isinstance(f, Failed):
                        continue
                    ax = f.gca()
                    ck.true("new figure", len(plt.get_fignums()) == n + 1 and plt.gcf() is f and tuple(f.get_size_inches()) == (4, 3), how.__name__)
                    ck.true("pressure axis is logarithmic", (ax.get_yscale() == "log") == (how is st.figure_theta_pressure), how.__name__)
                    shock_polar(ck, sp, plt, int(how is st.figure_theta_pressure), f)
    plt.close("all")


def options(ck, kw, omit):
    """keyword arguments, some of them left to their default"""
    return {k: v for k, v in kw.items() if not (k in omit and v == omit[k] and ck.rng.random() < .6)}


def shock_polar(ck, sp, plt, pressure, fig=None):
    r = ck.rng
    M, g = draw_case(ck)
    npts = int(r.integers(3, 120)) if r.random() < .75 else 100 if r.random() < .7 else int(r.integers(400, 4000))
    sides = str(r.choice(["left", "right", "both"]))
    dm, so = bool(r.random() < .5), bool(r.random() < .5)
    th, p0 = (0.0, 1.0) if not pressure or r.random() < .4 else (float(r.uniform(-30, 30)), float(np.exp(r.uniform(-3, 4) * r.choice([1, 1, 5]))))
    kw = options(ck, {"gamma": g, "npts": npts, "curve": sides, "devmax": dm, "sonic": so}, {"gamma": 1.4, "npts": 100, "curve": "both", "devmax": False, "sonic": False})
    if pressure:
        kw.update(options(ck, {"thet_init": th, "p_init": p0}, {"thet_init": 0.0, "p_init": 1.0}))
    if r.random() < .4:
        kw.update(color="C2", linestyle="--", linewidth=2)
    name = "pressure polar" if pressure else "angle polar"
    fn = sp.plot_theta_pressure if pressure else sp.plot_theta_sigma
    case = (name, M, sorted(kw.items()))
    with (figure(plt) if fig is None else contextlib.nullcontext(fig)) as f:
        ax = f.gca()
        if pressure and r.random() < .3:
            kw["ax"] = ax
            if fig is None and r.random() < .5:  # another figure is current
                with figure(plt) as other:
                    res = ck.call(name, fn, M, **kw)
                    ck.true("only the given axes are drawn on", not other.axes or not other.axes[0].lines, case)
            else:
                res = ck.call(name, fn, M, **kw)
        else:
            res = ck.call(name, fn, M, **kw)
        if isinstance(res, Failed):
            return
        lines = drawn(ax)
    curves = [c for c in lines if c["x"].size > 1]
    points = [c for c in lines if c["x"].size == 1]
    want = {"left": [-1], "right": [1], "both": [1, -1]}[sides]
    seen = sorted(int(np.sign(np.nanmean(c["x"] - th))) for c in curves)
    if not ck.true("only the requested curves", seen == sorted(want) and len(curves) == len(want), case, seen):
        return
    if "color" in kw:
        ck.true("line style of curves", all(c["color"] == "C2" and c["line"] == "--" for c in curves), case)
    Mx, gx = l(M), l(g)
    mu = float(np.arcsin(1 / Mx) / ref.DEG)
    for c in curves:
        sg = int(np.sign(np.mean(c["x"] - th)))
        dev, y = sg * (c["x"] - th), c["y"]
        ck.true("number of points", npts <= dev.size <= npts + 1, case, int(dev.size))
        if pressure:
            pr = y / p0
            ends = (1.0, float(ref.ps_ratio(Mx, gx)))
            mn = np.clip(ref.mn_ps_ratio(np.maximum(l(pr), 1), gx), 1, Mx)
            sig = np.arcsin(mn / Mx) / ref.DEG
            order = pr
        else:
            sig, ends, order = l(y), (mu, 90.0), y
        w = np.asarray(ref.defl(Mx, sig, gx), float)
        # the shock angle of a drawn pressure is known to round-off over its slope (normal shock: tangent cos)
        cond = 1e-13 * np.asarray(1 / np.maximum(np.cos(np.minimum(l(sig), 90) * ref.DEG), 1e-8), float) * 100 if pressure else 1e-12
        ck.close(name, dev, w, rtol=1e-9, atol=1e-9 + cond + 3e-14 * abs(th) * 10, case=case, where=np.asarray(sig < 90 - 1e-4) if pressure else None)
        ck.true("full range", abs(order[0] - ends[0]) <= 1e-9 * ends[0] and abs(order[-1] - ends[1]) <= 1e-9 * ends[1], case, [order[0], order[-1], ends])
        ck.true("curve is ordered", np.all(np.diff(order) > -1e-12 * ends[1]), case)
        s_ = np.asarray(sig, float)
        if npts >= 20:
            ck.true("curve has no gap", np.max(np.diff(s_)) < 20 * (90 - mu) / npts, case, float(np.max(np.diff(s_))))
    # markers
    marks = {"r": [], "k": []}
    for c in points:
        if c["marker"] == "o" and c["color"] in marks:
            marks[c["color"]].append(c)
        else:
            ck.decide("only the requested curves", False, case, {"marker": c["marker"], "color": str(c["color"])})
    for col, on, mech, sig in (("r", dm, "maximum deflection point", ref.sig_max(Mx, gx)), ("k", so, "sonic point", ref.sig_sonic(Mx, gx))):
        got = marks[col]
        if not on:
            ck.true(mech + " only on demand", not got, case)
            continue
        xs = sorted(int(np.sign(c["x"][0] - th)) for c in got)
        if not ck.true(mech + " on the requested curves", xs == sorted(want), case, xs):
            continue
        d, p = float(ref.defl(Mx, sig, gx)), float(ref.ps_ratio(Mx * np.sin(sig * ref.DEG), gx))
        for c in got:
            ck.close(mech, [abs(c["x"][0] - th), c["y"][0]], [d, p0 * p if pressure else float(sig)], rtol=1e-6, atol=1e-9 + 1e-12 * abs(th), case=case)


def isentropic_polar(ck, ip, plt):
    r = ck.rng
    M, g = draw_case(ck, 12.)
    M = max(M, 1.1)
    nu = float(ref.pm(l(M), l(g)))
    top = float((np.sqrt((g + 1) / (g - 1)) - 1) * 90)
    lim = .9 * min(nu, top - nu, 60)
    a, b = float(r.uniform(-lim, lim)), float(r.uniform(-lim, lim))
    if abs(a - b) < 1e-3:
        return
    rng = [a, b] if r.random() < .7 else (0.0, b)
    npts = int(r.integers(3, 80)) if r.random() < .75 else 100 if r.random() < .7 else int(r.integers(400, 4000))
    side = str(r.choice(["C+", "C-", "both", "c+", "c-"]))
    th, p0 = (0.0, 1.0) if r.random() < .4 else (float(r.uniform(-30, 30)), float(np.exp(r.uniform(-3, 4) * r.choice([1, 1, 5]))))
    kw = options(ck, {"gamma": g, "npts": npts, "curve": side, "thet_init": th, "p_init": p0},
                 {"gamma": 1.4, "npts": 100, "curve": "C+", "thet_init": 0.0, "p_init": 1.0})
    if r.random() < .4:
        kw.update(color="C2", linestyle="--", linewidth=2)
    case = ("isentropic polar", M, rng, sorted(kw.items()))
    with figure(plt) as f:
        w = Watch(rng)
        if isinstance(ck.call("isentropic polar", ip.plot_theta_pressure, M, rng, **kw), Failed):
            return
        ck.true("inputs not modified", w.intact(), case)
        lines = drawn(f.gca())
    want = {"c+": [1], "c-": [-1], "both": [1, -1]}[side.lower()]
    if not ck.true("only the requested curves", len(lines) == len(want) and all(c["x"].size > 1 for c in lines), case, len(lines)):
        return
    if "color" in kw:
        ck.true("line style of curves", all(c["color"] == "C2" and c["line"] == "--" for c in lines), case)
    pt = ref.ptps(l(M), l(g))
    fits = {}
    for i, c in enumerate(lines):
        x, y = c["x"] - th, c["y"] / p0
        ck.true("number of points", npts <= x.size <= npts + 1, case, int(x.size))
        ck.true("full range", abs(x[0] - rng[0]) <= 1e-9 * (1 + abs(th)) and abs(x[-1] - rng[1]) <= 1e-9 * (1 + abs(th)), case, [x[0], x[-1]])
        ck.true("curve has no gap", np.all(np.abs(np.diff(x)) < 5 * abs(rng[1] - rng[0]) / npts), case)
        for sg in (1, -1):
            # oracle: Prandtl-Meyer function of the Mach number of the drawn pressure
            m = ref.mach_ptps(np.maximum(pt / l(y), 1), l(g))
            d = np.asarray(ref.pm(l(M), l(g)) - ref.pm(np.maximum(m, 1), l(g)), float)
            fits[i, sg] = (np.max(np.abs(d - sg * x)), d)
    used = []
    for sg in want:
        i = next((i for i in range(len(lines)) if i not in used and fits[i, sg][0] < 1e-5), None)
        e = min(fits[i_, sg][0] for i_ in range(len(lines)))
        if ck.true("isentropic polar", i is not None, case + (sg,), {"largest error on the deflection": e, "first points": [lines[0]["x"][:3], lines[0]["y"][:3]]}):
            used.append(i)


# --------------------------------------------------------------------------- I04
def fresh(jobs, *options):
    """results of sessions run one after the other (or in several threads) in a new process"""
    env = dict(os.environ, VERIF_REPO=core.REPO, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
    p = subprocess.run([sys.executable, "-B", "-m", "rv.history", *options], input=json.dumps(jobs).encode(), capture_output=True, cwd=core.VERIF, env=env, timeout=600)
    if p.returncode:
        raise RuntimeError("fresh process failed: " + p.stderr.decode()[-300:])
    return pickle.loads(p.stdout)


@prop("I04")
def i04(ck):
    from .. import history as H
    ck.assumptions += ["the variable database and the default gas are settings, not computations; matplotlib's current figure belongs to the caller"]
    ck.rule = "one decision per step of a session compared with the same session alone in a fresh process, and per step for process-wide settings"
    r = ck.rng
    for n in H.SESSIONS:
        ck.require("independent of history: " + n, 2)
    ck.require("global settings unchanged", 200)
    ck.require("second order in a fresh process", 10)
    ck.require("earlier results are not modified", 50)
    ck.require("computed while other threads compute", 30)
    for m in scenes.MODULES:
        ck.module(m)
    for m in ("same array object with new content", "same arguments again", "same arguments after another gas"):
        ck.require(m, 50)
    repeated(ck)
    for _ in range(ck.n(1, 14)):
        jobs = [[n, int(r.integers(1 << 30))] for n in H.SESSIONS for _ in range({"function": 36, "near": 30, "direct": 12, "reused_array": 8, "nozzle": 6, "states": 6, "staged": 4}.get(n, 3))]
        jobs = [jobs[i] for i in r.permutation(len(jobs))]
        parts = [jobs[i::4] for i in range(4)]
        other = [jobs[i] for i in r.permutation(len(jobs))[:len(jobs) // 3]]
        mixed = [jobs[i] for i in r.permutation(len(jobs)) if jobs[i][0] != "plots"][:len(jobs) // 2]
        pool = cf.ThreadPoolExecutor(6)
        procs = [pool.submit(fresh, p) for p in parts + [other]] + [pool.submit(fresh, mixed, "--threads")]
        runs = interleaved(ck, H, jobs + [jobs[i] for i in r.permutation(len(jobs))[:len(jobs) // 2]])
        want = {}
        res = [p.result() for p in procs]
        pool.shutdown()
        for part, out in zip(parts, res):
            want.update({tuple(j): o for j, o in zip(part, out)})
        for j, o in zip(mixed, res[-1]):
            ck.decide("computed while other threads compute", H.alike(o, want[tuple(j)], H.TOL.get(j[0], 1e-11)), j, first_difference(H, want[tuple(j)], o, j[0]))
        for j, o in zip(other, res[-2]):
            ck.decide("second order in a fresh process", H.alike(o, want[tuple(j)], H.TOL.get(j[0], 1e-11)), (j, [x[0] for x in other[:20]]),
                      first_difference(H, want[tuple(j)], o, j[0]))
        for s, trail in runs:
            w = want[s.name, s.seed]
            ck.decide("independent of history: " + s.name, H.alike(s.out, w, H.TOL.get(s.name, 1e-11)), {"session": [s.name, s.seed], "computed around": trail},
                      first_difference(H, w, s.out, s.name), size=max(1, len(s.out)))
            ck.decide("earlier results are not modified", all(H.alike(H.copied(a), b, 0.0) for a, b in zip(s.live, s.out)), [s.name, s.seed])
            if s.out and isinstance(s.out[-1], str):
                ck.skip("session raised")
        ck.notes["sessions interleaved"] = ck.notes.get("sessions interleaved", 0) + len(runs)
        ck.notes["steps observed"] = ck.notes.get("steps observed", 0) + sum(len(s.out) for s, _ in runs)


def repeated(ck):
    """every function with a contract: the same array objects with new content, other arguments in between"""
    r = ck.rng
    same = lambda x, y: np.shape(x) == np.shape(y) and np.allclose(np.asarray(x, float), np.asarray(y, float), rtol=1e-12, atol=1e-300, equal_nan=True)
    cp = lambda a: {k: (x.copy() if isinstance(x, np.ndarray) else x) for k, x in a.items()}
    with globs.neutral():
        for s in specs.SPECS.values():
            fn = s.get(ck)
            for _ in range(ck.n(2, 25)):
                m = int(r.choice([1, 3, 6]))
                g = gen.gamma(ck, 2, *s.grange)
                a = [full(s, s.gen(ck, m, np.full(m, x)), float(x)) for x in g]
                if s.forms == "scalar":
                    a = [{k: float(np.ravel(x)[0]) for k, x in e.items()} for e in a]
                live = cp(a[0])
                case = (s.name, a)
                first = ck.call(s.name, fn, **live)
                kept = np.array(first, float) if not isinstance(first, Failed) else first
                if "gamma" in a[0]:
                    gas = dict(live, gamma=a[1]["gamma"])
                    with np.errstate(all="ignore"):
                        ok = bool(np.all(valid(s, gas)))
                    if ok:
                        ck.call(s.name, fn, **gas)
                        x = ck.call(s.name, fn, **live)
                        if not isinstance(x, Failed) and not isinstance(first, Failed):
                            ck.true("same arguments after another gas", same(x, kept), case, {"first": kept, "again": x})
                for k, x in live.items():
                    if isinstance(x, np.ndarray):
                        x[...] = a[1][k]
                    else:
                        live[k] = a[1][k]
                x = ck.call(s.name, fn, **live)
                y = ck.call(s.name, fn, **cp(a[1]))
                z = ck.call(s.name, fn, **cp(a[0]))
                if any(isinstance(q, Failed) for q in (first, x, y, z)):
                    continue
                ck.true("same array object with new content", same(x, y), case, {"same object": x, "new object": y})
                ck.true("same arguments again", same(z, kept), case, {"first": kept, "again": z})
                ck.true("earlier results are not modified", np.array_equal(np.asarray(first, float), kept, equal_nan=True), case)


def first_difference(H, want, got, name):
    tol = H.TOL.get(name, 1e-11)
    for i, (a, b) in enumerate(zip(want, got)):
        if not H.alike(a, b, tol):
            return {"step": i, "alone in a fresh process": a, "here": b}
    return {"steps": [len(want), len(got)]}


def interleaved(ck, H, jobs):
    """run the sessions with up to five of them active at a time, watching process-wide settings"""
    r = ck.rng
    import matplotlib.pyplot as plt
    plt.figure()
    plt.close("all")
    todo = [jobs[i] for i in r.permutation(len(jobs))]
    active, out, names = [], [], []
    with globs.neutral():
        while todo or active:
            while todo and len(active) < 5:
                s = H.Session(*todo.pop())
                active.append((s, names[-4:] + [x[0].name for x in active]))
            i = int(r.integers(len(active)))
            s, trail = active[i]
            if r.random() < .3:
                np.random.seed(int(r.integers(1 << 30)))  # the random state belongs to the caller
            before = globs.settings()
            done = s.step()
            after = globs.settings()
            ck.decide("global settings unchanged", before == after, [s.name, s.seed, len(s.out)], globs.changed(before, after))
            names.append(s.name)
            if done:
                out.append((s, trail + names[-8:]))
                active.pop(i)
    return out
