"""E01-E02 Chebyshev collocation, E03 ODE integrators, E04 secant solver."""
import contextlib
import io
import sys

import numpy as np
from numpy.polynomial import chebyshev as C

from .. import gen, ref, scenes
from ..core import prop, Failed

EPS = 2.2e-16


def vals(*a):
    return not any(isinstance(x, Failed) for x in a)


def draw_interval(ck):
    """constructor arguments and the interval they mean"""
    r = ck.rng
    k = r.random()
    if k < .2:
        return {}, -1.0, 1.0
    if k < .3:
        b = float(r.uniform(-.5, 5))
        return {"xmax": b}, -1.0, b
    if k < .4:
        a = float(r.uniform(-5, .5))
        return {"xmin": a}, a, 1.0
    if k < .5:
        a = int(r.integers(-5, 5))
        b = a + int(r.integers(1, 20))
        return {"xmin": a, "xmax": b}, a, b
    if k > .92:  # microscopic or astronomic
        L = float(10.0 ** r.choice([r.uniform(-12, -4), r.uniform(4, 9)]))
        a = float(r.choice([0.0, -L, r.normal() * L]))
        return ({"xmin": a, "xmax": a + L}, a, a + L) if k < .98 else ({"xmin": a + L, "xmax": a}, a + L, a)
    a = float(r.normal(0, 1) * 10.0 ** r.uniform(-2, 2))
    b = a + float(10.0 ** r.uniform(-3, 3))
    if (b - a) < 1e-3 * abs(a):
        b = a + 1.0
    if r.random() < .1:
        a, b = (0.0, b) if b > 0 else (a, 0.0)
    if r.random() < .2:
        a, b = b, a  # reference interval run backward
    return {"xmin": a, "xmax": b}, a, b


def draw_colloc(ck, ns, nmax=None):
    r = ck.rng
    n = int(r.choice([r.integers(2, 9), r.integers(2, 33), r.integers(9, 65), r.integers(30, 160)]))
    if nmax:
        n = min(n, nmax)
    kw, a, b = draw_interval(ck)
    if r.random() < .5 and set(kw) != {"xmax"}:
        c = ck.call("ChebCollocation", ns.ChebCollocation, n, *kw.values())
    else:
        c = ck.call("ChebCollocation", ns.ChebCollocation, npts=n, **kw)
    return c, n, a, b


def check_points(ck, c, n, a, b):
    s = -np.cos(np.pi * np.arange(n) / (n - 1))  # from first to second bound
    x, xi = ck.call("x", lambda: c.x), ck.call("xi", lambda: c.xi)
    case = (n, a, b)
    at = 4e-16 * (abs(a) + abs(b)) * 2
    ck.close("points", x, a + (1 + s) / 2 * (b - a), rtol=0, atol=at + 1e-15 * abs(b - a), case=case)
    ck.close("reference points", xi, -s, atol=1e-15, case=case)
    if vals(x):
        ck.true("bounds", np.shape(x) == (n,) and abs(x[0] - a) <= at and abs(x[-1] - b) <= at and np.all(np.diff(x) * np.sign(b - a) > 0), case, x)
    if b < a:
        ck.true("points of a reversed interval", x[0] > x[-1], case, x) if vals(x) else None
    ck.decide("npts", c.npts == n, case)
    return s


def poly(ck, n, cplx=False):
    """Chebyshev coefficients of a polynomial of degree lower than n"""
    r = ck.rng
    k = r.random()
    d = int(r.integers(1, n + 1))
    if k < .3:
        co = np.zeros(d)
        co[-1] = 1
    else:
        co = r.normal(0, 1, d) * (10.0 ** r.uniform(-15, 12) if k < .5 else 1.0)
        if k > .8:
            co = co * .6 ** np.arange(d)
    if cplx:
        co = co + 1j * r.normal(0, 1, d) * np.max(np.abs(co))
    return co


@prop("E01")
def e01(ck):
    ns = ck.module("aerokit.common.numspectral")
    ck.rule = "one decision per point distribution or per differentiation matrix applied to one polynomial"
    for n in ("points", "bounds", "derivative of order 1", "derivative of order 2", "derivative of order 3", "derivative of order 4", "order of requests", "collocation after the arrays of another were edited"):
        ck.require(n)
    r = ck.rng
    orders_seen = set()
    resolved = 0
    for k in range(ck.n(220, 4000)):
        c, n, a, b = draw_colloc(ck, ns)
        if not vals(c):
            continue
        s = None
        if r.random() < .5:
            s = check_points(ck, c, n, a, b)
        else:
            s = -np.cos(np.pi * np.arange(n) / (n - 1))
        seq = [int(v) for v in r.integers(1, 5 if n > 12 else 7, int(r.integers(1, 6)))]
        orders_seen.add(tuple(seq))
        first = {}
        for i, o in enumerate(seq):
            if r.random() < .15:
                q = int(r.integers(1, 5))
                ck.call("compute_matder", c.compute_matder, q)
                seq[i] = (("compute", q), o)
            D = ck.call("matder", c.matder, o)
            if not vals(D):
                continue
            case = {"npts": n, "interval": (a, b), "requests": seq[: i + 1], "order": o}
            if not ck.decide("matrix shape", np.shape(D) == (n, n), case, np.shape(D)):
                continue
            if o in first:
                ck.close("order of requests", D, first[o], rtol=1e-13, atol=1e-13 * np.max(np.abs(first[o])), case=case)
            else:
                first[o] = np.array(D, copy=True)
            sc = (2.0 / (b - a)) ** o
            for _ in range(3):
                co = poly(ck, n)
                f = C.chebval(s, co)
                want = C.chebval(s, C.chebder(co, o)) * sc if o < len(co) else np.zeros(n)
                at = EPS * abs(sc) * float(n) ** (2 * o) * np.max(np.abs(f)) * (30 * n)
                ck.close("derivative of order %d" % o, D @ f, want, rtol=0, atol=at, case=(case, co))
                resolved += bool(np.max(np.abs(want)) > 1e3 * at)
        # a fresh collocation asked for the highest order first
        if first:
            kw = {"xmin": a, "xmax": b}
            c2 = ck.call("ChebCollocation", ns.ChebCollocation, n, **kw)
            if vals(c2):
                for o in sorted(first, reverse=True):
                    D = ck.call("matder", c2.matder, o)
                    if vals(D):
                        ck.close("order of requests", D, first[o], rtol=1e-12, atol=1e-12 * np.max(np.abs(first[o])), case=(n, a, b, seq, o))
        # what a caller does with the arrays of a collocation is not seen by another one
        if first and r.random() < .3:
            for get in (lambda: c.x, lambda: c.xi, *(lambda o=o: c.matder(o) for o in first)):
                try:
                    v = get()
                    v *= float(r.choice([0., 3., -1.]))
                    v += .5
                except Exception:
                    pass
            c3 = ck.call("ChebCollocation", ns.ChebCollocation, n, a, b)
            if vals(c3):
                check_points(ck, c3, n, a, b)
                for o in first:
                    D = ck.call("matder", c3.matder, o)
                    if vals(D):
                        ck.close("collocation after the arrays of another were edited", D, first[o], rtol=1e-12, atol=1e-12 * np.max(np.abs(first[o])), case=(n, a, b, seq, o))
    ck.notes["polynomials with derivatives over 1000 times the tolerance"] = resolved
    ck.notes["distinct request sequences"] = len(orders_seen)


@prop("E02")
def e02(ck):
    ns = ck.module("aerokit.common.numspectral")
    ck.rule = "one decision per interpolated or fitted field"
    for n in ("interpolation", "interpolation at the nodes", "interpolation at a point", "fit", "fit of scattered samples", "fit of samples on a part of the interval", "points of a reversed interval", "complex interpolation"):
        ck.require(n)
    r = ck.rng
    ill = 0
    for k in range(ck.n(300, 5000)):
        c, n, a, b = draw_colloc(ck, ns, 100)
        if not vals(c):
            continue
        s = check_points(ck, c, n, a, b) if r.random() < .3 else -np.cos(np.pi * np.arange(n) / (n - 1))
        cplx = r.random() < .2
        co = poly(ck, n, cplx)
        fk = C.chebval(s, co) + 0 * s
        fk0 = fk.copy()
        m = int(r.choice([1, 2, n, r.integers(3, 300)]))
        t = r.uniform(-1, 1, m)
        if r.random() < .3:
            t[0] = r.choice([-1., 1.])
        if r.random() < .3:
            t = np.sort(t)
        x = a + (1 + t) / 2 * (b - a)
        # rounding of x moves the point in the reference interval
        cond = n * n * (8 * EPS * (abs(a) + abs(b)) / abs(b - a) + 4 * EPS) + 100 * n * EPS
        at = cond * np.max(np.abs(fk)) * 10
        case = {"npts": n, "interval": (a, b), "coefficients": co, "x": x}
        ck.close("complex interpolation" if cplx else "interpolation", ck.call("extrapol", c.extrapol, fk, x), C.chebval(t, co) + 0 * t, rtol=0, atol=at, case=case)
        ck.close("interpolation at a point", ck.call("extrapol", c.extrapol, fk, float(x[0])), C.chebval(t[0], co), rtol=0, atol=at, case=case)
        ck.close("interpolation at the nodes", ck.call("extrapol", c.extrapol, fk, c.x), fk0, rtol=0, atol=at, case=case)
        if r.random() < .3:  # a table of points, and values that are a part of something larger or are not to be written
            big = np.zeros((n, 3), fk.dtype)
            big[:, 1] = fk
            t2 = r.uniform(-1, 1, (int(r.integers(1, 5)), int(r.integers(1, 7))))
            hold = big[:, 1]
            if r.random() < .5:
                hold = fk.copy()[::-1].copy()[::-1]
            hold.flags.writeable = False
            xx = (a + (1 + t2) / 2 * (b - a))
            xx = np.asfortranarray(xx) if r.random() < .5 else xx
            ck.close("interpolation at a table of points", ck.call("extrapol", c.extrapol, hold, xx), C.chebval(t2, co) + 0 * t2, rtol=0, atol=at, case=dict(case, x=xx))
            ck.close("interpolation at no point", ck.call("extrapol", c.extrapol, hold, np.zeros(0)), np.zeros(0), rtol=0, case=case)
        z = 10.0 ** r.uniform(-14, 10) if r.random() < .4 else 1.0
        g = r.normal(0, 1, n) * z
        ck.close("interpolation at the nodes", ck.call("extrapol", c.extrapol, g, c.x), g, rtol=0, atol=cond * 30 * z, case=(n, a, b, g))
        ck.decide("data unchanged", np.array_equal(fk, fk0), case)
        # beyond the interval: the same polynomial, whose rounding grows with the Chebyshev polynomials
        far = r.uniform(1, 1.02 if n > 20 else 1.5)
        t = r.uniform(-far, far, int(r.choice([1, 3, 40, r.integers(60, 400)])))
        x = a + (1 + t) / 2 * (b - a)
        grow = C.chebval(np.maximum(np.abs(t), 1), np.r_[np.zeros(n - 1), 1.])
        ck.close("extrapolation", ck.call("extrapol", c.extrapol, fk, x), C.chebval(t, co) + 0 * t, rtol=0, atol=at * n * grow * (1 + n * np.sqrt(np.maximum(0, np.abs(t) - 1))), case=dict(case, x=x))
        # fit
        kind = str(r.choice(["nodes", "uniform", "random", "gauss", "partial", "outside"]))
        nn = min(n, 12 if kind == "outside" else 25)
        if nn != n:
            c = ck.call("ChebCollocation", ns.ChebCollocation, nn, a, b)
            s = -np.cos(np.pi * np.arange(nn) / (nn - 1))
            co = co[:nn]
        m = nn if kind == "nodes" else int(max(nn * nn * r.uniform(.6, 2), 2 * nn))
        t = {"nodes": s, "uniform": np.linspace(-1, 1, m), "random": r.uniform(-1, 1, m), "gauss": np.cos(np.pi * r.random(m)),
             "outside": r.uniform(-1, 1) + r.uniform(.5, 1.2) * r.uniform(-1, 1, m), "partial": r.uniform(-1, .6) + r.uniform(.1, .4) * r.random(m)}[kind].copy()
        if r.random() < .4:
            r.shuffle(t)
        if r.random() < .3 and kind != "nodes":  # several samples at one place
            t[r.integers(len(t), size=len(t) // 3)] = t[r.integers(len(t))]
        if r.random() < .2:
            t = np.concatenate([t, t[r.integers(len(t), size=1 + len(t) // 4)]])
        x = a + (1 + t) / 2 * (b - a)
        t = (x - a) / (b - a) * 2 - 1
        kappa = np.linalg.cond(C.chebvander(t, nn - 1))
        if kappa > 1e10:
            ck.skip("badly conditioned samples")
            continue
        f = C.chebval(t, co) + 0 * t
        f0 = f.copy()
        want = C.chebval(s, co) + 0 * s
        if r.random() < .3:
            both = np.stack([x, f, x])
            both.flags.writeable = False
            got = ck.call("fit_to_gauss", c.fit_to_gauss, np.asfortranarray(both)[0], both[1])
        else:
            got = ck.call("fit_to_gauss", c.fit_to_gauss, x, f)
        sz = max(np.max(np.abs(f)), np.sum(np.abs(co)))
        at = kappa * nn * 10 * EPS * sz * np.sqrt(len(t)) + 10 * sz * nn * nn * 8 * EPS * (abs(a) + abs(b)) / abs(b - a) * kappa
        case = {"npts": nn, "interval": (a, b), "samples": kind, "number": len(t), "coefficients": co}
        ck.close("fit", got, want, rtol=0, atol=at, case=case)
        if kind in ("random", "gauss"):
            ck.close("fit of scattered samples", got, want, rtol=0, atol=at, case=case)
        if kappa > 1e3:
            ck.close("fit of samples on a part of the interval", got, want, rtol=0, atol=at, case=case)
            ill += bool(at < 1e-3 * np.max(np.abs(want)))
        ck.decide("data unchanged", np.array_equal(f, f0), case)
        # samples of no polynomial: the best fit leaves a residual orthogonal to every polynomial it could have used
        if kappa < 1e6 and nn > 1:
            z = 10.0 ** r.uniform(-6, 6)
            few = r.random() < .2
            tt, xx = (t[:max(1, nn // 2)], x[:max(1, nn // 2)]) if few else (t, x)
            f = z * (r.normal(0, 1, len(tt)) if r.random() < .5 else np.exp(-tt * r.uniform(0, 3)) * np.sin(r.uniform(1, 20) * tt + 1) + r.choice([0, 1]) * np.sign(tt))
            got = ck.call("fit_to_gauss", c.fit_to_gauss, xx, f)
            if not isinstance(got, Failed) and ck.true("fit: one value per node", np.shape(got) == (nn,), case):
                V = C.chebvander(tt, nn - 1)
                co = np.linalg.solve(C.chebvander(s, nn - 1), got)
                res = f - V @ co
                ka = np.linalg.cond(V)
                pm = np.max(np.abs(f)) + np.sum(np.abs(co))
                at = (100 * nn * EPS * ka + nn * nn * 8 * EPS * (abs(a) + abs(b)) / abs(b - a)) * pm * np.sqrt(len(tt))
                if few:
                    if ka < 1e6:
                        ck.close("fit of few samples goes through them", res, 0 * res, rtol=0, atol=at, case=dict(case, samples=f))
                else:
                    ck.close("fit is the least squares polynomial", V.T @ res, np.zeros(nn), rtol=0, atol=at * len(tt), case=dict(case, samples=f))
    ck.notes["badly conditioned fits with a tolerance under a thousandth of the field"] = ill


# ------------------------------------------------------------------------------- ODE
class Problem:
    """y' = F(x, y) with its exact solution, a Lipschitz bound and a bound of the solution"""

    def __init__(s, name, F, exact, lip, smooth):
        s.name, s.F, s.exact, s.lip, s.smooth = name, F, exact, lip, smooth
        s.calls = 0

    def __call__(s, x, y):
        s.calls += 1
        return s.F(x, y)


def draw_problem(ck, x0, length, scalar=False):
    """a problem, possibly embedded in a larger system with passive unknowns at any position"""
    r = ck.rng
    P, y0 = draw_problem_(ck, x0, length, scalar)
    if r.random() < .15:  # a right-hand side that always writes in the same array
        F0, buf = P.F, np.empty(len(y0))

        def fill(x, y):
            buf[:] = F0(x, y)
            return buf
        P.F = fill
    elif r.random() < .1:  # a right-hand side that integrates something itself
        F1, od = P.F, ck.module("aerokit.common._ode")

        def nested(x, y):
            if P.calls % 7 == 1:
                od.RK4(lambda t, z: -z, 1., np.ones(2), 1.2, .1), od.RKF45(lambda t, z: -z, 2., np.ones(len(y)), 1.5, -.1, 1e-3)
            return F1(x, y)
        P.F = nested
    if scalar or r.random() < .5:
        return P, y0
    m, n = int(r.integers(1, 4)), len(y0)
    c, q = r.normal(0, 1, m), r.normal(0, 1, m) * r.choice([0, 0, .1]) / abs(length)
    pos = r.permutation(n + m) if r.random() < .5 else np.concatenate([np.arange(m, m + n), np.arange(m)])
    pk, ps = pos[:n], pos[n:]

    def F(x, y):
        z = np.empty(n + m)
        z[pk], z[ps] = P.F(x, y[pk]), q
        return z

    def exact(x):
        z = np.empty(n + m)
        z[pk], z[ps] = P.exact(x), c + q * (x - x0)
        return z
    yy = np.empty(n + m)
    yy[pk], yy[ps] = y0, c
    return Problem(P.name + " with passive unknowns", F, exact, P.lip, P.smooth), yy


def draw_problem_(ck, x0, length, scalar=False):
    """the time scale of the problem is at least length/3"""
    r = ck.rng
    w = float(r.uniform(.2, 3) / abs(length))
    k = str(r.choice(["decay", "oscillator", "forced", "logistic", "riccati", "matrix", "coupled"]))
    if scalar and k in ("oscillator", "matrix", "coupled"):
        k = "forced"
    if k == "decay":
        lam = w * r.choice([-1, 1])
        c = r.normal(0, 1, int(r.integers(1, 4)))
        return Problem(k, lambda x, y: lam * y, lambda x: c * np.exp(lam * (x - x0)), w, w), c
    if k == "oscillator":
        c = r.normal(0, 1, 2)
        return Problem(k, lambda x, y: np.array([w * y[1], -w * y[0]]),
                       lambda x: np.array([c[0] * np.cos(w * (x - x0)) + c[1] * np.sin(w * (x - x0)), -c[0] * np.sin(w * (x - x0)) + c[1] * np.cos(w * (x - x0))]), w, w), c
    if k == "forced":
        # y = sin(w x + p) + K exp(-w (x-x0))
        p, K = r.uniform(0, 6), r.normal()
        return Problem(k, lambda x, y: -w * (y - np.sin(w * x + p)) + w * np.cos(w * x + p),
                       lambda x: np.array([np.sin(w * x + p) + K * np.exp(-w * (x - x0))]), w, w), np.array([np.sin(w * x0 + p) + K])
    if k == "logistic":
        y0 = r.uniform(.1, .9)
        return Problem(k, lambda x, y: w * y * (1 - y), lambda x: np.array([1 / (1 + (1 / y0 - 1) * np.exp(-w * (x - x0)))]), w, w), np.array([y0])
    if k == "riccati":
        # y' = -w y^2 / (1 + ...): y = 1/(a + w (x - x0)), kept away from its pole
        a = 1 + w * abs(length) * 1.5
        return Problem(k, lambda x, y: -w * y * y, lambda x: np.array([1 / (a + w * (x - x0))]), w * 2, w), np.array([1 / a])
    if k == "coupled":
        # y1' = w x' scale ; nonautonomous rotation: y = (cos(q), sin(q)), q = w2 (x-x0)^2/2
        w2 = w * w
        return Problem(k, lambda x, y: w2 * (x - x0) * np.array([-y[1], y[0]]),
                       lambda x: np.array([np.cos(w2 * (x - x0) ** 2 / 2), np.sin(w2 * (x - x0) ** 2 / 2)]), w * 3, w * 1.8), np.array([1., 0.])
    # diagonalisable matrix
    P = r.normal(0, 1, (3, 3)) + 3 * np.eye(3)
    d = -w * r.uniform(.1, 1, 3)
    A = P @ np.diag(d) @ np.linalg.inv(P)
    c = r.normal(0, 1, 3)
    ci = np.linalg.solve(P, c)
    return Problem(k, lambda x, y: A @ y, lambda x: P @ (ci * np.exp(d * (x - x0))), np.linalg.norm(A, 2) + w, w), c


def poly_rhs(ck, deg):
    co = ck.rng.normal(0, 1, deg + 1)
    ic = np.concatenate([[0], co / np.arange(1, deg + 2)])
    return co, ic


def long_range(ck, od):
    """many steps: rotation over many turns, whose exact solution is known and whose errors only add up"""
    r = ck.rng
    x0, sgn = float(r.choice([0., r.normal()])), float(r.choice([-1., 1.]))
    w, c = float(r.uniform(.5, 2)), r.normal(0, 1, 2)
    F = lambda x, y: np.array([w * y[1], -w * y[0]])
    exact = lambda x: np.array([c[0] * np.cos(w * (x - x0)) + c[1] * np.sin(w * (x - x0)), -c[0] * np.sin(w * (x - x0)) + c[1] * np.cos(w * (x - x0))]).T
    T = float(r.uniform(100, 500)) / w
    scale = 1 + float(np.max(np.abs(c)))
    h = float(10.0 ** r.uniform(-1.3, -.7)) / w
    R = ck.call("RK4", od.RK4, F, x0, c.copy(), x0 + T, h)
    if vals(R):
        X, Y = R
        case = {"rotation": w, "x0": x0, "length": T, "h": h}
        ck.true("RK4 long range: ends at the requested point", X[0] == x0 and abs(X[-1] - x0 - T) <= 1e-12 * (abs(x0) + T) and np.all(np.diff(X) > 0), case, X)
        ck.true("RK4 long range: error", np.max(np.abs(Y - exact(X))) <= scale * ((w * h) ** 4 * w * T / 50 + 1e-9), case, np.max(np.abs(Y - exact(X))))
    tol = float(10.0 ** r.uniform(-10, -6))
    R = ck.call("RKF45", od.RKF45, F, x0, c.copy(), x0 + sgn * T, sgn * float(10.0 ** r.uniform(-4, 0)), tol)
    if vals(R):
        X, Y = R
        case = {"rotation": w, "x0": x0, "length": sgn * T, "tol": tol, "steps": len(X)}
        ck.true("RKF45 long range: ends at the requested point", X[0] == x0 and abs(X[-1] - x0 - sgn * T) <= 1e-12 * (abs(x0) + T) and np.all(sgn * np.diff(X) > 0), case, X)
        ck.true("RKF45 long range: error", np.max(np.abs(Y - exact(X))) <= 5 * tol * (len(X) + 2) + 1e-9 * scale, case, np.max(np.abs(Y - exact(X))))
    # the tolerance does not depend on the size of the solution
    amp, tol, T = float(10.0 ** r.uniform(1, 5)), float(10.0 ** r.uniform(-6, -3)), float(r.uniform(2, 15)) / w
    x1 = x0 + sgn * T
    R = ck.call("RKF45", od.RKF45, F, x0, c * amp, x1, sgn * T / 20, tol)
    if vals(R):
        X, Y = R
        case = {"rotation": w, "x0": x0, "length": sgn * T, "tol": tol, "amplitude": amp, "steps": len(X)}
        ck.true("RKF45 large solution: ends at the requested point", X[0] == x0 and abs(X[-1] - x1) <= 1e-14 * (abs(x0) + abs(x1)), case, X)
        E = float(np.max(np.abs(Y - amp * exact(X))))
        ck.true("RKF45 large solution: error", E <= 5 * tol * (len(X) + 2) + 1e-12 * amp * scale, case, E)


def many_steps(ck, od):
    """hundreds of steps: the error is at round-off and the values keep all their digits"""
    r = ck.rng
    x0, T = float(r.choice([0., r.normal()])), float(10.0 ** r.uniform(-1, 1))
    P, y0 = draw_problem(ck, x0, T)
    n = int(r.choice([r.integers(300, 700), r.integers(700, 3000)]))
    amp = np.exp(min(P.lip * T, 8)) * (1 + float(np.max(np.abs(y0))))
    R = ck.call("RK4", od.RK4, P, x0, y0.copy(), x0 + T, T / n)
    if vals(R):
        X, Y = R
        case = {"problem": P.name, "x0": x0, "length": T, "steps": n, "y0": y0}
        z = P.lip * T / n
        E = max(float(np.max(np.abs(Y[i] - P.exact(X[i])))) for i in range(len(X)))
        ck.true("RK4 many steps: abscissas", n <= len(X) - 1 <= n + 1 and len(Y) == len(X) and abs(X[-1] - x0 - T) <= 1e-14 * (abs(x0) + T), case, X)
        ck.true("RK4 many steps: error", E <= (z ** 4 * P.lip * T + 1e-12 + P.lip * EPS * (2 * abs(x0) + T) * n) * amp, case, E)
    tol = float(10.0 ** r.uniform(-12, -10))
    R = ck.call("RKF45", od.RKF45, P, x0, y0.copy(), x0 + T, T / n, tol)
    if vals(R):
        X, Y = R
        E = max(float(np.max(np.abs(Y[i] - P.exact(X[i])))) for i in range(len(X)))
        ck.true("RKF45 many steps: error", E <= (5 * tol * (len(X) + 2) * np.sqrt(len(y0)) + 1e-12 + P.lip * EPS * (2 * abs(x0) + T) * len(X)
                                                 + 2e-3 * np.sum((P.lip * np.diff(X)) ** 6)) * amp, {"problem": P.name, "x0": x0, "length": T, "tol": tol, "y0": y0}, (E, len(X)))


@prop("E03")
def e03(ck):
    od = ck.module("aerokit.common._ode")
    ck.rule = "one decision per abscissa sequence, error bound or order measured on one integration"
    for n in ("RK4 abscissas", "RK4 exact on cubics", "RK4 error", "RK4 fourth order", "RKF45 abscissas", "RKF45 error", "RKF45 exact on quartics", "RKF45 tolerance tightens the error",
              "RKF45 backward", "RK4 values at the abscissas", "RK4 long range: error", "RKF45 long range: error", "RK4 many steps: error", "RKF45 many steps: error",
              "RKF45 one step: fifth order", "RKF45 large solution: error"):
        ck.require(n)
    for k in range(ck.n(3, 60)):
        long_range(ck, od)
    for k in range(ck.n(8, 120)):
        many_steps(ck, od)
    r = ck.rng
    for k in range(ck.n(160, 2500)):
        x0 = float(r.choice([0., r.normal(), 10 * r.normal()]))
        T = float(10.0 ** r.uniform(-1.5, 1))
        P, y0 = draw_problem(ck, x0, T)
        x1 = x0 + T
        n = int(r.integers(8, 40))
        h = T / (n + 10.0 ** r.uniform(-8, -1)) if r.random() < .3 else T / n * float(r.choice([1.0, 1.0, r.uniform(.8, 1.2)]))
        y00 = y0.copy()
        case = {"problem": P.name, "x0": x0, "x1": x1, "h": h, "y0": y00}
        scale = 1 + float(np.max(np.abs(y0)))
        errs = []
        amp = np.exp(min(P.lip * T, 8))
        for hh in (h, h / 2, h / 4):
            R = ck.call("RK4", od.RK4, P, x0, y0, x1, hh)
            if not vals(R):
                break
            X, Y = R
            case = {"problem": P.name, "x0": x0, "x1": x1, "h": hh, "y0": y00}
            dx = np.diff(X)
            ok = len(X) == len(Y) and X[0] == x0 and abs(X[-1] - x1) <= 1e-14 * (abs(x0) + abs(x1)) and np.all(dx > 0) and np.all(dx <= hh * (1 + 1e-9) + 4e-15 * abs(x0))
            ck.true("RK4 abscissas", ok, case, X)
            # no more steps than needed (one tiny closing step from round-off allowed)
            ck.true("RK4 number of steps", np.ceil(T / hh - 1e-6) <= len(dx) <= np.ceil(T / hh + 1e-6) + 1, case, len(dx))
            ck.true("RK4 starts from the initial value", np.array_equal(Y[0], y00), case)
            E = np.array([np.max(np.abs(Y[i] - P.exact(X[i]))) for i in range(len(X))])
            z = P.lip * hh
            ab = P.lip * EPS * (abs(x0) + abs(x1)) * T / hh * scale * amp
            ck.true("RK4 error", E[-1] <= z ** 4 * P.lip * T * scale * amp + 1e-12 * scale * amp + ab, case, {"error": E[-1], "bound": z ** 4 * P.lip * T * scale * amp})
            ck.true("RK4 values at the abscissas", np.all(E <= z ** 4 * P.lip * T * scale * amp + 1e-12 * scale * amp + ab), case, E)
            errs.append(float(np.max(E)))
        # the exact solution itself is only known up to the rounding of the abscissas
        ab = P.lip * EPS * (abs(x0) + abs(x1)) * 4 * T / h * scale * amp
        if len(errs) == 3 and errs[2] > 3e-12 * scale + 30 * ab and P.lip * h < .3:
            o = np.log2(errs[0] / errs[1]), np.log2(errs[1] / errs[2])
            if errs[1] / errs[2] > 60 or errs[1] / errs[2] < 16 / 3:
                # an error crossing zero hides the order: measured on the finest pair only if both agree
                pass
            ck.true("RK4 fourth order", o[0] > 3.2 and o[1] > 3.4, case, {"errors": errs, "orders": o})
        elif len(errs) == 3:
            ck.skip("errors at round-off")
        ck.decide("initial value unchanged", np.array_equal(y0, y00), case)
        # scalar unknown
        a = float(r.normal())
        R = ck.call("RK4", od.RK4, lambda x, y: -a * y, x0, 1.5, x0 + .5, .01)
        if vals(R):
            ck.close("RK4 scalar unknown", R[1][-1], 1.5 * np.exp(-a * .5), rtol=1e-7 * (1 + a ** 4), case=a)
        # cubic right-hand side
        deg = int(r.integers(0, 4))
        co, ic = poly_rhs(ck, deg)
        xi, xe = x0, x1
        if r.random() < .2:  # whole abscissas
            xi, xe = int(round(x0)), int(round(x0)) + int(np.ceil(T))
        yi = [1, 1., 0., 0, -2.5][int(r.integers(5))]
        R = ck.call("RK4", od.RK4, lambda x, y: np.array([np.polynomial.polynomial.polyval(x, co)]), xi, np.array([yi]), xe, (xe - xi) / r.uniform(.5, 6))
        if vals(R):
            ck.true("RK4 abscissas", len(R[0]) > 1 and R[0][0] == xi and abs(R[0][-1] - xe) <= 1e-12 * (abs(xi) + T) and np.all(np.diff(R[0]) > 0), (xi, xe), R[0])
            w = yi + np.polynomial.polynomial.polyval(R[0], ic) - np.polynomial.polynomial.polyval(xi, ic)
            mag = 1 + np.sum(np.abs(ic)) * max(1, abs(xi), abs(xe)) ** (deg + 1)
            ck.close("RK4 exact on cubics", R[1][:, 0], w, rtol=0, atol=1e-13 * mag * 10, case=(co, xi, xe))
        # adaptive
        back = r.random() < .5
        if back:
            P, y0 = draw_problem(ck, x0, -T)
            x1 = x0 - T
            P.lip = P.lip
        y00 = y0.copy()
        scale = 1 + float(np.max(np.abs(y0)))
        es = []
        sgn = -1 if back else 1
        h0 = float(sgn * T * r.choice([1.0, 10.0 ** r.uniform(-5, -1), r.uniform(.01, 1), 10.0 ** r.uniform(0, 1.5)]))
        if abs(P.lip * h0) > 5:
            h0 = sgn * min(abs(h0), T)
        amp = np.exp(min(P.lip * T, 9))
        for tol in (1e-4, 1e-6, 1e-8, 1e-10):
            P.calls = 0
            R = ck.call("RKF45", od.RKF45, P, x0, y0, x1, h0, tol) if tol != 1e-6 or r.random() < .5 else ck.call("RKF45", od.RKF45, P, x0, y0, x1, h0)
            if not vals(R):
                break
            X, Y = R
            case = {"problem": P.name, "x0": x0, "x1": x1, "h": h0, "y0": y00, "tol": tol}
            dx = np.diff(X) * sgn
            nm = "RKF45 backward" if back else "RKF45 abscissas"
            ok = len(X) == len(Y) and X[0] == x0 and abs(X[-1] - x1) <= 1e-14 * (abs(x0) + abs(x1)) and np.all(dx > 0)
            ck.true(nm, ok, case, X)
            ck.true("RKF45 starts from the initial value", np.array_equal(Y[0], y00), case)
            E = max(np.max(np.abs(Y[i] - P.exact(X[i]))) for i in range(len(X)))
            bound = 5 * tol * np.sqrt(len(y00)) * (len(X) + 2) * amp + 1e-12 * scale * amp + P.lip * EPS * (abs(x0) + abs(x1)) * len(X) * scale * amp
            # the embedded estimate may cancel by accident on a step; the error of that step is then the sixth order term
            bound += 2e-3 * np.sum((P.lip * np.abs(dx)) ** 6) * scale * amp
            ck.true("RKF45 error", E <= bound, case, {"error": E, "bound": bound, "steps": len(dx)})
            # a step controller neither stalls nor takes needlessly small steps on a smooth problem
            need = 30 + 12 * P.lip * T * (scale * amp / tol) ** .2 + (15 * max(0.0, np.log10(T / abs(h0))) if abs(h0) < T else 0)
            ck.true("RKF45 effort", P.calls <= 6 * 4 * need, case, {"calls": P.calls, "bound": 24 * need})
            es.append(E)
        if len(es) == 4 and es[0] > 1e-6 * scale:
            ck.true("RKF45 tolerance tightens the error", es[3] < es[0] / 50 + 1e-11 * scale, case, es)
        ck.decide("initial value unchanged", np.array_equal(y0, y00), case)
        # one step, accepted whole by a loose tolerance: the fifth order formula itself
        z = float(10.0 ** r.uniform(-1.3, -.3))
        es = []
        for hh in sgn * z / P.lip * np.array([1, .5, .25]):
            R = ck.call("RKF45 one step", od.RKF45, P, x0, y00.copy(), x0 + hh, hh, 1e9)
            if not vals(R):
                break
            ck.true("RKF45 one step: two abscissas", len(R[0]) == 2 and len(R[1]) == 2, (P.name, x0, hh), R[0])
            es.append(float(np.max(np.abs(R[1][-1] - P.exact(R[0][-1])))))
        if len(es) == 3:
            case = {"problem": P.name, "x0": x0, "y0": y00, "h L": z, "errors": es}
            ab = 20 * EPS * (1 + P.lip * abs(x0)) * scale
            ck.true("RKF45 one step: fifth order", all(e <= 1e-3 * (q * z) ** 6 * scale + ab for e, q in zip(es, (1, .5, .25))), case)
        deg = int(r.integers(0, 5))
        co, ic = poly_rhs(ck, deg)
        xi, xe = x0, x0 + sgn * T
        if r.random() < .2:
            xi, xe = int(round(x0)), int(round(x0)) + int(sgn) * int(np.ceil(T))
        yi = [1, 1., 0., 0, -2.5][int(r.integers(5))]
        R = ck.call("RKF45", od.RKF45, lambda x, y: np.array([np.polynomial.polynomial.polyval(x, co)]), xi, np.array([yi]), xe, (xe - xi) / r.uniform(.7, 40))
        if vals(R):
            w = yi + np.polynomial.polynomial.polyval(R[0], ic) - np.polynomial.polynomial.polyval(xi, ic)
            mag = 1 + np.sum(np.abs(ic)) * max(1, abs(xi), abs(xe)) ** (deg + 1)
            ck.close("RKF45 exact on quartics", R[1][:, 0], w, rtol=0, atol=1e-12 * mag * 10, case=(co, xi, xe))


# ------------------------------------------------------------------------------- secant
def monotone(ck):
    """function with slope between m and M, its inverse by bisection"""
    r = ck.rng
    k = str(r.choice(["linear", "sine", "atan", "sqrt", "softplus", "steps"]))
    s = float(r.choice([-1., 1.]) * 10.0 ** r.uniform(-3, 3))
    a = float(10.0 ** r.uniform(-1, 1))
    b = float(r.normal())
    c = float(r.normal() * 10.0 ** r.uniform(-1, 1.5))
    if k == "linear":
        return k, (lambda x: s * x + c), abs(s), abs(s)
    if k == "sine":
        q = float(r.uniform(0, .6))
        if r.random() < .4:  # many inflections: the iteration may wander and has to say so
            q, a = float(r.uniform(.6, .95)), a * float(10.0 ** r.uniform(0, 1))
        return k, (lambda x: s * (x + q / a * np.sin(a * x + b)) + c), abs(s) * (1 - q), abs(s) * (1 + q)
    if k == "atan":
        q = float(r.uniform(0, 4))
        return k, (lambda x: s * (x + q * np.arctan(x - b)) + c), abs(s), abs(s) * (1 + q)
    if k == "steps":  # flat and steep parts: the iteration may wander and then has to say so
        at = r.normal(b, 1, int(r.integers(1, 5)))
        q, w = float(10.0 ** r.uniform(0, 2)), float(10.0 ** r.uniform(0, 1.3))
        return k, (lambda x: s * (x + q / w * sum(np.tanh(w * (x - v)) for v in at)) + c), abs(s), abs(s) * (1 + q * len(at))
    if k == "sqrt":
        q = float(r.uniform(0, .8))
        return k, (lambda x: s * (x + q * np.sqrt(a * a + (x - b) ** 2)) + c), abs(s) * (1 - q), abs(s) * (1 + q)
    q = float(r.uniform(0, 4))
    return k, (lambda x: s * (x + q * np.logaddexp(0, x - b)) + c), abs(s), abs(s) * (1 + q)


@prop("E04")
def e04(ck):
    its = ck.module("aerokit.aero.IterativeSolve")
    ck.rule = "one decision per solve (root, reported failure, number of evaluations)"
    for n in ("root", "root from a tiny starting point", "starting point is the root", "arrays of targets", "arrays of starting points", "evaluations", "linear function is solved"):
        ck.require(n)
    ck.require("failure reported after the iterations allowed", 20)
    r = ck.rng
    reported = 0
    for k in range(ck.n(2500, 30000)):
        name, f, m, M = monotone(ck)
        n = int(r.choice([1, 1, r.integers(2, 7)]))
        root = r.normal(0, 1, n) * 10.0 ** r.uniform(-6, 3)
        y = f(root)
        z = r.random()
        if z < .15:
            x = root.copy()
        elif z < .3:
            x = r.choice([0., 1e-9, -1e-9, 1e-5, 1e-4, -1e-3], n)
        else:
            x = root + r.normal(0, 1, n) * 10.0 ** r.uniform(-4, 2)
        case = {"function": name, "slopes": (m, M), "target": y, "start": x, "root": root}
        tol = None if r.random() < .5 else float(10.0 ** r.uniform(-9, -2))
        if n == 1:
            y, x, root = float(y[0]), float(x[0]), float(root[0])
            if z >= .3 and r.random() < .2:
                x = int(round(x))
        else:
            form = r.random()
            if form < .25:
                x = float(np.ravel(x)[0])
                kind = "arrays of targets"
            elif form < .5:
                y, root = float(y[0]), float(root[0])
                kind = "arrays of starting points"
            else:
                kind = "arrays of both"
        count = [0]
        inner = r.random() < .05  # a function that solves something itself

        def g(v):
            count[0] += 1
            if inner and count[0] % 2:
                its.secant_solve(lambda w: w + .1 * np.sin(w), 2., 1.)
            return f(v)
        t = 1e-5 if tol is None else tol
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            got = ck.call("secant_solve", its.secant_solve, g, y, x) if tol is None else \
                ck.call("secant_solve", its.secant_solve, g, y, x, tol) if r.random() < .5 else ck.call("secant_solve", its.secant_solve, g, y, x, tol=tol)
        said = buf.getvalue().strip() != ""
        if not vals(got):
            continue
        ck.true("evaluations", count[0] <= 60 * n + 60, case, count[0])
        if n > 1:
            if not ck.decide(kind, np.shape(got) == (n,), case, np.shape(got)):
                continue
        # roots known to the accuracy of the function values themselves
        fl = 1e-14 * (np.abs(y) + M * np.abs(root) + 1) / m
        at = (1 + M / m) * np.maximum(t, t * np.abs(root)) * 1.1 + 40 * fl
        ratio = M / m
        if said and ratio > 1.5:
            reported += 1
            ck.decide("failure reported after the iterations allowed", count[0] >= 15, case, count[0])
            continue
        if np.max(fl * ratio / t) > .3:
            ck.skip("tolerance below round-off")
            continue
        nm = "starting point is the root" if z < .15 else "root from a tiny starting point" if z < .3 else "root"
        ck.close(nm, got, np.broadcast_to(root, np.shape(got)) if n > 1 else root, rtol=0, atol=at, case=case)
        if name == "linear":
            ck.close("linear function is solved", got, np.broadcast_to(root, np.shape(got)) if n > 1 else root, rtol=0, atol=at, case=case)
            ck.decide("linear function is solved", not said, case, "failure reported for a linear function")
    ck.notes["failures reported by the solver"] = reported

