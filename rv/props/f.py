"""F01-F05 stability operators (Euler, Orr-Sommerfeld), eigenmodes and their life cycle."""
import copy
import warnings

import numpy as np
import scipy.linalg as sl
from numpy.polynomial import chebyshev as C, legendre as Lg, polynomial as P

from .. import gen, globs, ref, scenes
from ..core import prop, Failed
from ..ref import L, l

EPS = 2.2e-16


def vals(*a):
    return not any(isinstance(x, Failed) for x in a)


class Grid:
    """independent description of the collocation points on [a, b]"""

    def __init__(s, n, a, b):
        s.n, s.a, s.b = n, float(a), float(b)
        s.s = -np.cos(np.pi * np.arange(n) / (n - 1))
        s.x = s.a + (1 + s.s) / 2 * (s.b - s.a)
        s.k = 2 / (s.b - s.a)
        s._inv = None

    def val(s, co, o=0):
        if o >= len(co):
            return np.zeros(s.n)
        return (C.chebval(s.s, C.chebder(co, o) if o else co) + 0 * s.s) * s.k ** o

    def end(s, side, o):
        """row giving the o-th derivative at an end from nodal values"""
        if s._inv is None:
            s._inv = np.linalg.inv(C.chebvander(s.s, s.n - 1))
        d = np.array([C.chebval(side, C.chebder(np.eye(s.n)[j], o) if o else np.eye(s.n)[j]) for j in range(s.n)])
        return d @ s._inv * s.k ** o


def draw_grid(ck, lo=5, hi=30):
    r = ck.rng
    n = int(r.integers(lo, hi)) if r.random() < .9 else int(r.integers(hi, 2 * hi))
    a, b = (-1.0, 1.0) if r.random() < .2 else (0.0, float(10.0 ** r.uniform(-1, 1))) if r.random() < .5 else (lambda a: (a, a + float(10.0 ** r.uniform(-1, 1))))(float(r.normal()))
    if r.random() < .15:  # described from right to left
        a, b = b, a
    return Grid(n, a, b)


class Base:
    """polynomial base state (coefficients in the reference interval)"""

    def __init__(s, ck, gr, uniform=None, sub=False):
        r = ck.rng
        uniform = r.random() < .25 if uniform is None else uniform
        d = 1 if uniform else int(r.integers(2, min(6, gr.n)))
        sc = 10.0 ** r.uniform(-2, 2), 10.0 ** r.uniform(-1, 4)
        f = lambda m, amp: np.concatenate([[m], r.uniform(-amp, amp, d - 1) * m / max(1, d - 1)])
        s.rho = f(sc[0], .5)
        s.p = f(sc[1], .5)
        s.g = 1.4 if r.random() < .3 else float(gen.gamma(ck, 1, 1.05, 1.9)[0])
        a = np.sqrt(s.g * sc[1] / sc[0])
        M = float(r.uniform(.45, .75)) if sub else float(r.normal(0, .8))
        s.u = f(M * a, .3 if sub else .8)
        if not uniform and not sub:  # some of the fields exactly constant, or the gas at rest everywhere or at one end
            for n in ("rho", "u", "p"):
                if r.random() < .12:
                    v = getattr(s, n)
                    v[1:] = 0
                    if n == "u" and r.random() < .6:
                        v[0] = 0
                    elif n == "u" and len(v) > 1:
                        v[1] = r.choice([-1, 1]) * v[0]
        s.a = a
        s.gr = gr

    def state(s, md):
        gr = s.gr
        args = [gr.val(s.rho), gr.val(s.u), gr.val(s.p)]
        return md.state(*args) if np.ndim(s.g) == 0 and s.g == 1.4 and len(s.rho) % 2 else md.state(rho=args[0], u=args[1], p=args[2], gamma=s.g)

    def rate(s, q):
        """linearised time derivative of a perturbation (3 coefficient arrays) by complex step of the Euler equations"""
        gr = s.gr
        h = 1e-30

        def val(c, dc):
            n = max(len(c), len(dc))
            v = np.zeros(n, complex)
            v[:len(c)] += c
            v[:len(dc)] += 1j * h * dc
            return gr_val(gr, v, 0), gr_val(gr, v, 1)
        (r, rx), (u, ux), (p, px) = (val(c, d) for c, d in zip((s.rho, s.u, s.p), q))
        out = -(u * rx + r * ux), -(u * ux + px / r), -(u * px + s.g * p * ux)
        return np.concatenate([o.imag / h for o in out])


def gr_val(gr, co, o):
    return (C.chebval(gr.s, C.chebder(co, o) if o else co) + 0 * gr.s) * gr.k ** o if o < len(co) else np.zeros(gr.n, complex)


def pert(ck, b, decay=True):
    """random perturbation: coefficients scaled with the base state, and its nodal values"""
    r = ck.rng
    gr = b.gr
    out = []
    for sc in (abs(b.rho[0]), b.a, abs(b.p[0])):
        d = int(r.integers(1, gr.n + 1))
        c = r.normal(0, 1, d)
        if r.random() < .3:
            c = np.zeros(d)
            c[-1] = 1
        out.append(c * sc * (r.random() > .15))
    return out, np.concatenate([gr.val(c) for c in out])


def scales(b):
    n = b.gr.n
    return np.repeat([abs(b.rho[0]), b.a, abs(b.p[0])], n)


def euler(ck, eu, md, b, L_, R_):
    gr = b.gr
    r = ck.rng
    q = b.state(md)
    if r.random() < .5:
        e = ck.call("Euler1D", eu.Euler1D, gr.n, gr.a, gr.b, basestate=q)
    else:
        e = ck.call("Euler1D", eu.Euler1D, gr.n, xmin=gr.a, xmax=gr.b)
        if vals(e):
            ck.call("set_basestate", e.set_basestate, q)
    if vals(e):
        ck.call("set_BC", e.set_BC, L_, R_)
        m = ck.call("get_RHS_time_matrices", e.get_RHS_time_matrices)
        if vals(m):
            return e, m[0], m[1]
    return None, None, None


def bc_rows(At, ncol):
    return np.flatnonzero(np.all(At[:, :ncol] == 0, axis=1))


def interior(ck, mech, b, B, At, case, extra=0, times=3):
    """At dq/dt == B q on every row that states no boundary condition"""
    n = b.gr.n
    rows = np.setdiff1d(np.arange(3 * n + extra), bc_rows(At, 3 * n))
    S = scales(b)
    lip = abs(b.gr.k) * n * n * (np.max(np.abs(b.gr.val(b.u))) + 3 * b.a)
    for _ in range(times):
        co, q = pert(ck, b)
        dq = b.rate(co)
        if extra:
            # inside the channel nothing depends on where the shock is, nor how fast it moves
            q, dq = np.append(q, ck.rng.normal() / b.gr.k), np.append(dq, ck.rng.normal() * b.a)
        got, want = (B @ q)[rows], (At @ dq)[rows]
        w = (np.abs(At) @ np.append(S, 0)[: 3 * n + extra])[rows]
        ck.close(mech, got / w, want / w, rtol=0, atol=1e-12 * lip * (1 + np.max(np.abs(q[:3 * n] / S))) * 3, case=(case, co))
    # every interior station keeps its own three equations
    A = At[rows]
    i = np.concatenate([np.arange(1, n - 1) + k * n for k in range(3)])
    A = A[:, i] * S[i]
    w = np.max(np.abs(A), axis=1)
    ck.decide(mech + ": one equation per unknown", len(rows) >= len(i) and np.linalg.matrix_rank(A[w > 0] / w[w > 0, None]) == len(i), case, [len(rows), len(i)])
    return rows


@prop("F01")
def f01(ck):
    eu, md = ck.module("aerokit.stability.Euler"), ck.module("aerokit.aero.model1D")
    ck.rule = "one decision per perturbation, operator and family of rows, or per eigenfrequency of a channel"
    for n in ("interior rows", "interior rows: one equation per unknown", "acoustic and entropy frequencies", "channel closed by walls", "growth of channel modes"):
        ck.require(n)
    r = ck.rng
    for k in range(ck.n(60, 1200)):
        gr = draw_grid(ck)
        b = Base(ck, gr)
        if k % 4 == 3:  # a gas that is not the same everywhere
            b.g = b.g + .04 * gr.val(r.uniform(-1, 1, int(r.integers(1, 4)))) / 3
        bc = str(r.choice(["sym", "per"]))
        e, B, At = euler(ck, eu, md, b, bc, bc)
        if e is None:
            continue
        case = {"n": gr.n, "interval": (gr.a, gr.b), "rho": b.rho, "u": b.u, "p": b.p, "gamma": b.g, "BC": bc}
        interior(ck, "interior rows", b, B, At, case)
    for k in range(ck.n(14, 200)):
        n = int(r.integers(24, 46))
        gr = Grid(n, 0.0, 1.0) if r.random() < .4 else Grid(n, float(r.normal()), 0)
        if gr.b <= gr.a:
            gr = Grid(n, gr.a, gr.a + float(10.0 ** r.uniform(-1, 1)))
        b = Base(ck, gr, uniform=True)
        walls = r.random() < .3
        if walls:
            b.u = np.array([0.0])
        bc = "sym" if walls else "per"
        e, B, At = euler(ck, eu, md, b, bc, bc)
        if e is None:
            continue
        R = ck.call("solve_eig", e.solve_eig)
        if not vals(R):
            continue
        v = np.asarray(R[0])
        v = v[np.isfinite(v)]
        w = gr.k  # 2/length
        u, a = float(b.u[0]), b.a
        m = np.arange(1, max(2, n // 8))
        case = {"n": n, "interval": (gr.a, gr.b), "u": u, "a": a, "gamma": b.g, "BC": bc}
        if walls:
            want = np.concatenate([np.pi * m * a * w / 2, -np.pi * m * a * w / 2])
        else:
            want = np.concatenate([np.pi * w * m * c * sg for c in (u, u + a, u - a) for sg in (1, -1)])
        tol = 2e-5 * a * abs(w) * np.pi
        for x in want:
            d = np.min(np.abs(v - x))
            ck.decide("channel closed by walls" if walls else "acoustic and entropy frequencies", d <= tol, (case, x), {"expected": x, "nearest": v[np.argmin(np.abs(v - x))]})
        # no mode of the resolved range grows or has another frequency
        low = v[np.abs(v) < .8 * np.min(np.abs(want)) * 1.0]
        ck.true("nothing below the first frequency", np.all(np.abs(low) < 1e-5 * a * w * n) or (walls and np.all(np.abs(low) < 1e-2 * a * w)), case, low)
        near = v[np.abs(v.real) <= np.pi * w * (n // 8) * .9 * min(abs(x) for x in ((a,) if walls else (max(abs(u), 1e-9 * a), abs(u + a), abs(u - a))) if abs(x) > 0)]
        ck.true("growth of channel modes", np.all(np.abs(near.imag) < 1e-4 * a * w * n), case, near)
    scenes.nested(ck, ("stability",), ck.n(1, 10))


def kernel_check(ck, mech, rows, B, At, cols, adm, nonadm, S, case):
    """rows vanish on the admissible perturbations and together reject every other one"""
    A = B[rows] * S
    w = np.max(np.abs(A), axis=1)
    if not ck.decide(mech + ": rows state something", bool(np.all(w > 0)), case):
        return
    A = A / w[:, None]
    res = A @ adm
    n = B.shape[0]
    ck.close(mech, res, np.zeros(res.shape), rtol=0, atol=1e-9 * np.max(np.abs(adm), axis=0), case=case)
    ck.decide(mech + ": number of conditions", np.linalg.matrix_rank(A, tol=1e-9) == len(rows), case)


def null(rows):
    u, s, vt = np.linalg.svd(rows / np.max(np.abs(rows), axis=1)[:, None])
    return vt[rows.shape[0]:].T


def conditions(gr, kind, side):
    """declared conditions in scaled unknowns"""
    n = gr.n
    out = []
    if kind == "sym":
        for i, o in ((0, 1), (1, 0), (2, 1)):
            row = np.zeros(3 * n)
            row[i * n:(i + 1) * n] = gr.end(side, o)
            out.append(row)
    else:
        for i in range(3):
            for o in (0, 1):
                row = np.zeros(3 * n)
                row[i * n:(i + 1) * n] = gr.end(1, o) - gr.end(-1, o)
                out.append(row)
    return out


def shock_model(b, dM0dx):
    """jacobian of the downstream perturbation at the mean position to shock displacement and speed"""
    g = l(b.g)
    q1 = [l(C.chebval(-1, c)) for c in (b.rho, b.u, b.p)]
    dq1 = [l(C.chebval(-1, C.chebder(c)) * b.gr.k) if len(c) > 1 else L(0) for c in (b.rho, b.u, b.p)]
    M1 = q1[1] / np.sqrt(g * q1[2] / q1[0])
    M0 = ref.down_mn(M1, g)
    rr, pr = ref.rho_ratio(M0, g), ref.ps_ratio(M0, g)
    rho0, u0, p0 = q1[0] / rr, q1[1] * rr, q1[2] / pr
    rTt, pt = p0 / rho0 * ref.tau(M0, g), p0 * ref.ptps(M0, g)

    def G(xs, s):
        M = M0 + l(dM0dx) * xs
        t = rTt / ref.tau(M, g)
        p = pt / ref.ptps(M, g)
        a = np.sqrt(g * t)
        m = (M * a - s) / a
        x = ref.rho_ratio(m, g)
        out = p / t * x, s + (M * a - s) / x, p * ref.ps_ratio(m, g)
        return np.array([o - d * xs for o, d in zip(out, dq1)])
    hx, hs = L(1e-6) / (abs(l(dM0dx)) + abs(b.gr.k)), L(1e-6) * b.a
    return ((G(hx, 0) - G(-hx, 0)) / (2 * hx)).astype(float), ((G(0, hs) - G(0, -hs)) / (2 * hs)).astype(float), float(M0), float(M1), G


@prop("F02")
def f02(ck):
    eu, md = ck.module("aerokit.stability.Euler"), ck.module("aerokit.aero.model1D")
    ck.rule = "one decision per family of boundary or interior rows of one operator"
    for n in ("walls", "walls: number of conditions", "periodicity", "shock", "shock: number of conditions", "interior rows with a shock", "interior rows with walls", "interior rows with periodicity"):
        ck.require(n)
    r = ck.rng
    for k in range(ck.n(90, 1500)):
        gr = draw_grid(ck)
        n = gr.n
        kind = str(r.choice(["sym", "per", "RH", "RH"]))
        b = Base(ck, gr, sub=kind == "RH", uniform=None if kind != "RH" else r.random() < .2)
        S = scales(b)
        case = {"n": n, "interval": (gr.a, gr.b), "rho": b.rho, "u": b.u, "p": b.p, "gamma": b.g, "BC": kind}
        if kind != "RH":
            form = r.random() < .5
            bc = kind if form else {"type": kind}
            e, B, At = euler(ck, eu, md, b, bc, bc)
            if e is None:
                continue
            nm = {"sym": "walls", "per": "periodicity"}[kind]
            rows = bc_rows(At, 3 * n)
            if not ck.decide(nm + ": six boundary rows", len(rows) == 6 and B.shape == (3 * n, 3 * n), case, rows):
                continue
            cond = np.array(conditions(gr, "per", 0) if kind == "per" else conditions(gr, "sym", -1) + conditions(gr, "sym", 1))
            Z = null(cond)
            kernel_check(ck, nm, rows, B, At, 3 * n, Z, cond, S, case)
            interior(ck, "interior rows with " + nm, b, B, At, case, times=2)
            continue
        dM0 = 0.0 if r.random() < .15 else float(r.normal() * 10.0 ** r.uniform(-2, .5) * gr.k)
        g = l(b.g)
        q1 = [l(C.chebval(-1, c)) for c in (b.rho, b.u, b.p)]
        M1 = float(q1[1] / np.sqrt(g * q1[2] / q1[0]))
        lim = float(np.sqrt((b.g - 1) / (2 * b.g)))
        if not lim * 1.05 < M1 < .97:
            ck.skip("no upstream state")
            continue
        jx, js, M0, M1, G = shock_model(b, dM0)
        dx = gr.x[1] - gr.x[0]
        if M0 + dM0 * dx < .3 or M0 > 30:
            ck.skip("no upstream state")
            continue
        left = {"type": "RH", "dM0dx": dM0}
        e, B, At = euler(ck, eu, md, b, left, "sym")
        if e is None:
            continue
        case["dM0dx"] = dM0
        if not ck.decide("shock: one additional unknown", B.shape == (3 * n + 1,) * 2 and At.shape == B.shape, case, B.shape):
            continue
        rows = bc_rows(At, 3 * n)
        if not ck.decide("shock: six boundary rows", len(rows) == 6, case, rows):
            continue
        interior(ck, "interior rows with a shock", b, B, At, case, extra=1, times=2)
        # unknowns (scaled): perturbations, displacement, speed
        sc = np.concatenate([S, [1 / abs(gr.k)], [b.a]])
        A = np.hstack([B[rows], -At[rows][:, 3 * n:]]) * sc
        w = np.max(np.abs(A), axis=1)
        if not ck.decide("shock: rows state something", bool(np.all(w > 0)), case):
            continue
        A = A / w[:, None]
        st0 = [0, n, 2 * n]
        cond = np.zeros((6, 3 * n + 2))
        for i, c in enumerate(conditions(gr, "sym", 1)):
            cond[i, :3 * n] = c
        for i in range(3):
            cond[3 + i, st0[i]] = 1
            cond[3 + i, 3 * n] = -jx[i] * sc[3 * n] / S[st0[i]]
            cond[3 + i, 3 * n + 1] = -js[i] * sc[3 * n + 1] / S[st0[i]]
        Z = null(cond)
        # the upstream gradients may be finite differences over the first interval
        h = l(dx)
        g0, h0 = upstream(b, dM0, M0), upstream(b, dM0, M0, dx)
        fd = np.abs(g0 - h0) * sc[3 * n] / np.array([S[i] for i in st0]) * 40 * (1 + M0 ** 2)
        res = A @ Z
        at = (1e-8 + float(np.max(fd))) * np.max(np.abs(Z))
        ck.close("shock", res, np.zeros(res.shape), rtol=0, atol=at, case=case)
        # without displacement the condition is free of that approximation
        speed = np.zeros(3 * n + 2)
        for i in range(3):
            speed[st0[i]] = js[i] * sc[3 * n + 1] / S[st0[i]]
        speed[-1] = 1
        loc = [j for j in range(6) if np.any(np.abs(A[j, st0]) > 0) and np.all(np.delete(A[j, :3 * n], st0) == 0)]
        if ck.decide("shock: three local relations", len(loc) == 3, case, loc):
            ck.close("shock speed", A[loc] @ speed, np.zeros(3), rtol=0, atol=1e-9 * np.max(np.abs(speed)), case=case)
            disp = np.zeros(3 * n + 2)
            for i in range(3):
                disp[st0[i]] = jx[i] * sc[3 * n] / S[st0[i]]
            disp[3 * n] = 1
            ck.close("shock displacement", A[loc] @ disp, np.zeros(3), rtol=0, atol=1e-8 * np.max(np.abs(disp)) + float(np.max(fd)), case=case)
            ck.notes["tightest tolerance of the displacement"] = min(float(np.max(fd)) / np.max(np.abs(disp)), ck.notes.get("tightest tolerance of the displacement", 1))
        ck.decide("shock: number of conditions", np.linalg.matrix_rank(A, tol=1e-9) == 6, case)
        bad = ck.call("set_BC", e.set_BC, {"type": "RH", "dM0dx": dM0, "other": 1.0}, "sym")
        try:
            e.get_RHS_time_matrices()
            ck.decide("unknown shock parameters are refused", False, case)
        except Exception:
            ck.decide("unknown shock parameters are refused", True, case)


def upstream(b, dM0dx, M0, h=None):
    """gradients of the upstream state, exact or by differences over h"""
    g = l(b.g)
    q1 = [l(C.chebval(-1, c)) for c in (b.rho, b.u, b.p)]
    rr, pr = ref.rho_ratio(M0, g), ref.ps_ratio(M0, g)
    rho0, p0 = q1[0] / rr, q1[2] / pr
    rTt, pt = p0 / rho0 * ref.tau(M0, g), p0 * ref.ptps(M0, g)

    def q(x):
        M = l(M0) + l(dM0dx) * x
        t = rTt / ref.tau(M, g)
        p = pt / ref.ptps(M, g)
        return np.array([p / t, M * np.sqrt(g * t), p])
    if h is None:
        e = L(1e-6) / (abs(l(dM0dx)) + abs(b.gr.k))
        return ((q(e) - q(-e)) / (2 * e)).astype(float)
    return ((q(l(h)) - q(L(0))) / l(h)).astype(float)


# ------------------------------------------------------------------------------- Orr-Sommerfeld
def draw_profile(ck):
    r = ck.rng
    k = str(r.choice(["poiseuille", "couette", "mixed", "poly"]))
    co = {"poiseuille": [1., 0, -1.], "couette": [0., 1.], "mixed": [r.uniform(-1, 1), r.uniform(-1, 1), r.uniform(-1, 1)],
          "poly": list(r.normal(0, 1, int(r.integers(1, 6))))}[k]
    return k, np.array(co, float)


def galerkin(co, alpha, Re, a, b, N):
    """independent spectrum: Legendre-Galerkin in the basis (1-s^2)^2 P_k, polynomial profile U(x)"""
    h = (b - a) / 2
    gx, gw = Lg.leggauss(N + 12)
    x = a + (1 + gx) * h
    w4 = Lg.poly2leg([1, 0, -2, 0, 1])
    V = [[], [], []]
    for k in range(N):
        c = Lg.legmul(w4, np.eye(k + 1)[k])
        nrm = 1 / (k + 1.5) ** 1.5
        for o in range(3):
            V[o].append(Lg.legval(gx, Lg.legder(c, o) if o else c) * nrm / h ** o)
    v, d1, d2 = (np.array(x_) for x_ in V)
    W = gw * h
    U = P.polyval(x, co) + 0 * x
    U2 = P.polyval(x, P.polyder(co, 2)) + 0 * x if len(co) > 2 else 0 * x
    ip = lambda f, g, c=1.0: (f * (W * c)) @ g.T
    # (d2 - al^2) weak:  <v, (D2-al2) w>
    M = ip(v, d2) - alpha ** 2 * ip(v, v)
    K = ip(d2, d2) - 2 * alpha ** 2 * ip(v, d2) + alpha ** 4 * ip(v, v)
    # -i w M = -i al <v, U (D2-al2) w> + i al <v, U'' w> + K/Re
    A = -1j * alpha * (ip(v, d2, U) - alpha ** 2 * ip(v, v, U)) + 1j * alpha * ip(v, v, U2) + K / Re
    return sl.eigvals(A, -1j * M)


def os_model(ck, om, gr, alpha, Re, co, ctor=None):
    r = ck.rng
    base = {"alpha": alpha, "Reynolds": Re, "uprofile": lambda x: P.polyval(x, co) + 0 * x}
    m = ck.call("OrrSommerfeldModel", om.OrrSommerfeldModel, gr.n, gr.a, gr.b, basestate=base) if r.random() < .5 else ck.call("OrrSommerfeldModel", om.OrrSommerfeldModel, gr.n, xmin=gr.a, xmax=gr.b)
    if vals(m):
        ck.call("set_basestate", m.set_basestate, base)
        w = "wall" if r.random() < .5 else {"type": "wall"}
        ck.call("set_BC", m.set_BC, w, w)
    return m


@prop("F03")
def f03(ck):
    om = ck.module("aerokit.stability.OrrSommerfeld")
    ck.rule = "one decision per family of rows of one operator or per leading eigenvalue of one flow"
    for n in ("interior rows", "walls", "walls: number of conditions", "leading eigenvalues", "reference eigenvalue", "same spectrum at another resolution", "symmetry in the wavenumber"):
        ck.require(n)
    r = ck.rng
    for k in range(ck.n(70, 1200)):
        gr = draw_grid(ck, 8, 26)
        n = gr.n
        kind, co = draw_profile(ck)
        alpha = float(r.normal() * 10.0 ** r.uniform(-1, .7))
        if r.random() < .2:
            alpha = complex(alpha, r.normal() * .3)
        Re = float(10.0 ** r.uniform(-1, 5))
        pois = r.random() < .2
        if pois:
            gr, co = Grid(n, -1., 1.), np.array([1., 0, -1.])
            m = ck.call("Poiseuille", om.Poiseuille, n, alpha, Re) if r.random() < .5 else ck.call("Poiseuille", om.Poiseuille, n, alpha=alpha, Reynolds=Re)
        else:
            m = os_model(ck, om, gr, alpha, Re, co)
        if not vals(m):
            continue
        case = {"n": n, "interval": (gr.a, gr.b), "alpha": alpha, "Re": Re, "profile": co}
        Rm = ck.call("get_RHS_time_matrices", m.get_RHS_time_matrices)
        if not vals(Rm):
            continue
        B, At = (np.asarray(x) for x in Rm)
        rows = bc_rows(At, n)
        if not ck.decide("four boundary rows", len(rows) == 4 and B.shape == (n, n) and At.shape == (n, n), case, rows):
            continue
        cond = np.array([gr.end(sd, o) for sd in (-1, 1) for o in (0, 1)])
        Z = null(cond)
        A = B[rows]
        w = np.max(np.abs(A), axis=1)
        if ck.decide("walls: rows state something", bool(np.all(w > 0)), case):
            A = A / w[:, None]
            ck.close("walls", np.abs(A @ Z), np.zeros((4, Z.shape[1])), rtol=0, atol=1e-9, case=case)
            ck.decide("walls: number of conditions", np.linalg.matrix_rank(A, tol=1e-10) == 4, case)
        inn = np.setdiff1d(np.arange(n), rows)
        ck.decide("interior stations", bool(np.array_equal(inn, np.arange(2, n - 2))), case, inn)
        U = P.polyval(gr.x, co) + 0 * gr.x
        U2 = P.polyval(gr.x, P.polyder(co, 2)) + 0 * gr.x if len(co) > 2 else 0 * gr.x
        for _ in range(3):
            c = r.normal(0, 1, int(r.integers(1, n + 1)))
            v, v2, v4 = gr.val(c), gr.val(c, 2), gr.val(c, 4)
            mref = v2 - alpha ** 2 * v
            bref = -1j * alpha * (U * mref - U2 * v) + (v4 - 2 * alpha ** 2 * v2 + alpha ** 4 * v) / Re
            mg, bg = At @ v, B @ v
            # both sides of every row may carry a common factor
            t2 = EPS * 60 * n * n ** 4 * gr.k ** 2 * np.max(np.abs(v)) + 1e-12 * np.max(np.abs(mref))
            if np.max(np.abs(mref)) < 1e6 * t2:
                ck.skip("operator below round-off")
                continue
            t4 = EPS * 60 * n * n ** 8 * gr.k ** 4 * np.max(np.abs(v)) / Re + np.max(np.abs(alpha * U)) * t2 + EPS * 60 * n ** 5 * gr.k ** 2 * np.max(np.abs(alpha * U)) * np.max(np.abs(v)) + 1e-12 * np.max(np.abs(bref))
            # factor of the row from the perturbation itself
            fac = np.array([np.vdot(mref[i], mg[i]) / abs(mref[i]) ** 2 if abs(mref[i]) > 1e3 * t2 else 1.0 for i in inn])
            ck.true("time matrix is not degenerate", np.abs(fac) > 1e-3, case, fac)
            ck.close("interior rows", bg[inn] - fac * bref[inn], np.zeros(len(inn)), rtol=0, atol=t4 * np.abs(fac) + t2 * np.abs(bref[inn]) / np.maximum(np.abs(mref[inn]), t2), case=(case, c))
            ck.close("time rows", mg[inn] - fac * mref[inn], np.zeros(len(inn)), rtol=0, atol=t2 * np.abs(fac) * 4, case=(case, c))
    # spectra
    for k in range(ck.n(7, 80)):
        kind, co = draw_profile(ck) if k else ("poiseuille", np.array([1., 0, -1.]))
        sc = max(1e-3, float(np.sum(np.abs(co))))
        a, b = (-1., 1.) if kind == "poiseuille" or r.random() < .3 else (float(r.uniform(-2, 0)), float(r.uniform(.5, 2)))
        alpha = float(r.uniform(.3, 2.5))
        Re = float(10.0 ** r.uniform(1, 3.6))
        n1, n2 = int(r.integers(48, 60)), int(r.integers(61, 76))
        case = {"profile": co, "interval": (a, b), "alpha": alpha, "Re": Re, "n": (n1, n2)}
        g1, g2 = galerkin(co, alpha, Re, a, b, 44), galerkin(co, alpha, Re, a, b, 56)
        lead = sorted(g2[np.isfinite(g2)], key=lambda z: -z.imag)[:3]
        S = []
        for n in (n1, n2):
            m = om.Poiseuille(n, alpha, Re) if kind == "poiseuille" and (a, b) == (-1, 1) else os_model(ck, om, Grid(n, a, b), alpha, Re, co)
            R = ck.call("solve_eig", m.solve_eig)
            if vals(R):
                v = np.asarray(R[0])
                S.append(v[np.isfinite(v) & (np.abs(v) < 1e8)])
        if len(S) != 2:
            continue
        for z in lead:
            conv = np.min(np.abs(g1 - z))
            if conv > 1e-6 * sc:
                ck.skip("reference not converged")
                continue
            d = [np.min(np.abs(v - z)) for v in S]
            tol = 2e-5 * sc + 100 * conv
            ck.decide("leading eigenvalues", d[0] <= tol, (case, z), {"reference": z, "distance": d[0]})
            ck.decide("same spectrum at another resolution", d[1] <= tol, (case, z), {"reference": z, "distance": d[1]})
        top = [max(v, key=lambda z: z.imag if z.imag < 1e3 * sc else -9e9) for v in S]
        if np.min(np.abs(g1 - lead[0])) < 1e-6 * sc:
            ck.true("no mode grows faster than the leading one", [t.imag <= lead[0].imag + 2e-4 * sc for t in top], case, {"found": top, "leading": lead[0]})
        m = os_model(ck, om, Grid(n1, a, b), -alpha, Re, co)
        R = ck.call("solve_eig", m.solve_eig)
        if vals(R):
            v = np.asarray(R[0])
            v = v[np.isfinite(v)]
            for z in lead:
                if np.min(np.abs(g1 - z)) < 1e-6 * sc:
                    ck.decide("symmetry in the wavenumber", np.min(np.abs(v + np.conj(z))) <= 2e-5 * sc, (case, z))
    for n in (64, 90) if ck.tier == "quick" else range(60, 130, 5):
        m = ck.call("Poiseuille", om.Poiseuille, n, 1.0, 10000.0)
        R = ck.call("solve_eig", m.solve_eig) if vals(m) else m
        if vals(R):
            v = np.asarray(R[0])
            v = v[np.isfinite(v)]
            # Orszag (1971) and the next modes of its table
            for z in (0.23752649 + 0.00373967j, 0.96463092 - 0.03516728j, 0.96464251 - 0.03518658j, 0.27720434 - 0.05089873j):
                ck.decide("reference eigenvalue", np.min(np.abs(v - z)) < 2e-5, (n, z), np.min(np.abs(v - z)))


# ------------------------------------------------------------------------------- eigenmodes
def any_model(ck, small=True):
    """a solved-able model of either kind with its description"""
    r = ck.rng
    if r.random() < .5:
        om = ck.module("aerokit.stability.OrrSommerfeld")
        n = int(r.integers(12, 40))
        kind, co = draw_profile(ck)
        return os_model(ck, om, Grid(n, -1., 1.), float(r.uniform(.3, 2)), float(10.0 ** r.uniform(0, 4)), co), ("OS", n, kind, co)
    eu, md = ck.module("aerokit.stability.Euler"), ck.module("aerokit.aero.model1D")
    gr = draw_grid(ck, 8, 22)
    kind = str(r.choice(["sym", "per", "RH"]))
    b = Base(ck, gr, sub=kind == "RH")
    if kind == "RH":
        lim = np.sqrt((b.g - 1) / (2 * b.g))
        M1 = C.chebval(-1, b.u) / np.sqrt(b.g * C.chebval(-1, b.p) / C.chebval(-1, b.rho))
        if not lim * 1.05 < M1 < .97:
            kind = "sym"
    Lt = {"type": "RH", "dM0dx": float(r.uniform(.1, 1))} if kind == "RH" else kind
    e, B, At = euler(ck, eu, md, b, Lt, "sym" if kind == "RH" else kind)
    return (e if e is not None else Failed(None)), ("Euler", gr.n, kind, b.rho, b.u, b.p, b.g)


@prop("F04")
def f04(ck):
    ck.rule = "one decision per eigenpair, selection or refinement"
    for n in ("eigenpair", "selected modes", "selected vectors", "ordering by real part", "ordering by imaginary part", "refined pair", "refined value", "refined from the exact value", "global settings"):
        ck.require(n)
    r = ck.rng
    with globs.neutral():
        _f04(ck, r)


def exact_values(ck, r):
    """small problems with whole eigenvalues, one of which is the guess itself: the matrix to invert is singular"""
    st = ck.module("aerokit.stability")
    for k in range(ck.n(60, 800)):
        n = int(r.integers(2, 7))
        lam = r.choice(np.arange(-9, 10), n, replace=False).astype(float)
        if k % 3 == 0 and 0 not in lam:
            lam[0] = 0
        T, Ti = np.eye(n), np.eye(n)
        for _ in range(int(r.integers(0, 2 * n))):  # products of elementary operations: inverse known in whole numbers
            i, j = r.choice(n, 2, replace=False)
            q = float(r.integers(-1, 2))
            T[i] += q * T[j]
            Ti[:, j] -= q * Ti[:, i]
        d = 2.0 ** r.integers(-3, 4)
        H = (T * lam) @ Ti * d
        mass = 2.0 ** r.integers(-4, 5)
        m = ck.call("LinOperator", st.LinOperator, n)
        if not vals(m):
            continue

        def ops(m=m, H=H, mass=mass, n=n):
            m._B, m._At = H * mass, np.eye(n) * mass / -1j

        m.compute_operators = ops
        i = int(r.integers(n)) if k % 3 else int(np.argmin(abs(lam)))  # the null one often
        v = T[:, i] / np.linalg.norm(T[:, i])
        v = v + 10.0 ** r.uniform(-6, -1.5) * r.normal(size=n)
        om = [float, complex, np.float64][int(r.integers(3))](lam[i] * d)
        if r.random() < .6:
            om = om + 10.0 ** r.uniform(-9, -1.5) * d  # or almost it: iterations come to it
        R = ck.call("converge_eigenpair", m.converge_eigenpair, om, v)
        if vals(R):
            o, x = R
            ck.true("refined from the exact value", np.linalg.norm(H @ x - o * x) < 1e-9 * (np.linalg.norm(H) + abs(o)) * np.linalg.norm(x), (H, om, v), {"value": o, "mode": x})


def _f04(ck, r):
    exact_values(ck, r)
    for k in range(ck.n(50, 700)):
        set0 = globs.settings()
        m, desc = any_model(ck)
        if not vals(m):
            continue
        R, Mt = ck.call("solve_eig", m.solve_eig), ck.call("matrices", m.get_RHS_time_matrices)
        if not vals(R, Mt):
            continue
        w, V = R
        B, At = Mt
        nb, na = np.linalg.norm(B), np.linalg.norm(At)
        ck.decide("number of modes", w.shape == (B.shape[0],) and V.shape == B.shape, desc)
        fin = np.flatnonzero(np.isfinite(w) & (np.abs(w) * na < 1e9 * nb))
        res = np.linalg.norm(B @ V[:, fin] + 1j * (At @ V[:, fin]) * w[fin], axis=0) / ((nb + np.abs(w[fin]) * na) * np.linalg.norm(V[:, fin], axis=0))
        ck.true("eigenpair", res < 1e-10, desc, np.max(res) if len(res) else 0)
        w0, V0 = w.copy(), V.copy()
        ww = w[fin]
        # selection
        for _ in range(3):
            q = {}
            re, im = np.sort(ww.real), np.sort(ww.imag)
            full = r.random() < .25
            z = lambda v: float(r.choice(v) + r.normal() * 1e-3 * (np.ptp(v) + 1e-9))
            if full:
                q["realmin"], q["imagmin"], q["imagmax"] = -1e30, -1e30, 1e30
            else:
                if r.random() < .8:
                    q["realmin"] = z(re)
                if r.random() < .6:
                    q["realmax"] = z(re)
                if r.random() < .6:
                    q["imagmin"] = z(im)
                if r.random() < .6:
                    q["imagmax"] = z(im)
            sort = str(r.choice(["real", "imag", "default"]))
            if sort != "default":
                q["sort"] = sort
            R = ck.call("select_and_sort", m.select_and_sort, **q)
            if not vals(R):
                continue
            sv, sV, so = R
            a, b_, c, d = q.get("realmin", 0.), q.get("realmax", 1e99), q.get("imagmin", -1e10), q.get("imagmax", 1e10)
            with np.errstate(all="ignore"):
                keep = (w0.real >= a) & (w0.real < b_) & (w0.imag > c) & (w0.imag < d)
            case = (desc, q)
            key = lambda x: sorted(map(repr, x))
            ck.decide("selected modes", key(np.asarray(sv)) == key(w0[keep]), case, {"selected": len(sv), "expected": int(keep.sum())})
            ok = sV.shape == (V0.shape[0], len(sv))
            if ok:
                for j in range(len(sv)):
                    i = np.flatnonzero(w0 == sv[j])
                    ok &= any(np.array_equal(sV[:, j], V0[:, t]) for t in i) or \
                        bool(np.linalg.norm(B @ sV[:, j] + 1j * sv[j] * (At @ sV[:, j])) < 1e-9 * (nb + abs(sv[j]) * na) * np.linalg.norm(sV[:, j]))
            ck.decide("selected vectors", bool(ok), case)
            so = np.asarray(so)
            perm = np.array_equal(np.sort(so), np.arange(len(sv)))
            if ck.decide("ordering is a permutation", perm, case, so):
                s = np.asarray(sv)[so]
                if sort == "imag":
                    ck.true("ordering by imaginary part", np.diff(s.imag) <= 0, case, s)
                else:
                    ck.true("ordering by real part", np.diff(s.real) >= 0, case, s)
        # refinement of an approximate pair
        for _ in range(2):
            if len(fin) < 3:
                continue
            i = int(r.choice(fin))
            if abs(w[i]) < 1e-5 * np.median(np.abs(ww)):
                continue  # the neutral modes of a uniform flow are defective: their refinement is only as good as the square root
            amp = 10.0 ** r.uniform(-7, -3)
            v = V[:, i] + amp * np.linalg.norm(V[:, i]) * (r.normal(size=B.shape[0]) + 1j * r.normal(size=B.shape[0])) / np.sqrt(B.shape[0]) * np.abs(V[:, i])
            om = w[i] * (1 + amp * r.normal()) if abs(w[i]) > 0 else w[i]
            t = r.random()
            if amp < 1e-5 and t < .5:  # the guess of the value only keeps one part
                full = om
                om = complex(om.real, 0) if t < .15 else complex(0, om.imag) if t < .25 else float(om.real) if t < .4 else np.float64(om.real)
                oth = np.delete(ww, np.flatnonzero(ww == w[i])[:1])
                if not abs(om - w[i]) < .5 * np.min(np.abs(oth - om)) or abs(w[i]) < 1e-6 * np.median(np.abs(ww)):
                    om = full  # closer to another mode
            v0 = v.copy()
            if r.random() < .3:  # no iteration: the guess, with a mode of norm one
                R = ck.call("converge_eigenpair", m.converge_eigenpair, om, v, niter=0)
                if vals(R):
                    ck.decide("no iteration returns the guess", bool(R[0] == om and np.allclose(R[1] * np.linalg.norm(v), v, rtol=1e-12, atol=0)), (desc, om), R[0])
            R = ck.call("converge_eigenpair", m.converge_eigenpair, om, v) if r.random() < .6 else ck.call("converge_eigenpair", m.converge_eigenpair, omega=om, eigenmode=v, niter=int(r.integers(8, 30)))
            if not vals(R):
                continue
            o, x = R
            case = (desc, om, amp)
            res = np.linalg.norm(B @ x + 1j * o * (At @ x)) / ((nb + abs(o) * na) * np.linalg.norm(x))
            ck.true("refined pair", res < 1e-9, case, {"residual": res, "value": o})
            ck.decide("approximate mode unchanged", np.array_equal(v, v0), case)
            gap = np.min(np.abs(np.delete(ww, np.flatnonzero(ww == w[i])[:1]) - w[i])) if len(ww) > 1 else 1
            if gap > 1e-3 * abs(w[i]) and abs(w[i]) > 1e-3 * np.median(np.abs(ww)) and amp < 1e-5 and om not in (w[i].real, 1j * w[i].imag):
                ck.true("refined value", np.min(np.abs(ww - o)) < 1e-4 * (abs(o) + np.median(np.abs(ww)) * 1e-3), case, {"refined": o, "nearest": ww[np.argmin(np.abs(ww - o))]})
        ck.decide("results are not modified", np.array_equal(w, w0, equal_nan=True) and np.array_equal(V, V0, equal_nan=True), desc)
        s1 = globs.settings()
        ck.decide("global settings", s1 == set0, desc, globs.changed(set0, s1))


# ------------------------------------------------------------------------------- life cycle
def snapshot(x):
    if isinstance(x, dict):
        return {k: snapshot(v) for k, v in x.items()}
    if hasattr(x, "rho"):
        return [np.array(x.rho, copy=True), np.array(x.u, copy=True), np.array(x.p, copy=True), np.array(x.asound(), copy=True)]
    return x


def equal(a, b):
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return all(np.array_equal(x, y) for x, y in zip(a, b))
    return a is b or a == b


@prop("F05")
def f05(ck):
    eu, md, om = ck.module("aerokit.stability.Euler"), ck.module("aerokit.aero.model1D"), ck.module("aerokit.stability.OrrSommerfeld")
    ck.rule = "one decision per comparison with a fresh model after one step of a history"
    for n in ("matrices of a used model", "eigenvalues of a used model", "interior of the operators", "points of a model created after others", "caller's boundary description", "caller's base state", "unknown boundary is refused", "missing boundary is an error", "missing base state is an error", "incomplete base state is an error"):
        ck.require(n)
    r = ck.rng
    hist_seen = set()

    def expect(mech, fn, case, kinds=Exception):
        try:
            fn()
        except kinds:
            return ck.decide(mech, True, case)
        except Exception as e:
            return ck.decide(mech, False, case, "%s: %s" % (type(e).__name__, e))
        return ck.decide(mech, False, case, "no error")

    for k in range(ck.n(45, 700)):
        osm = r.random() < .4
        n = int(r.integers(8, 20))
        gr = Grid(n, *[(0., float(r.uniform(.5, 2))), (float(r.uniform(.5, 2)), -.2)][int(r.random() < .2)])
        if osm:
            def draw_base():
                kind, co = draw_profile(ck)
                return {"alpha": float(r.uniform(.3, 2)), "Reynolds": float(10.0 ** r.uniform(0, 4)), "uprofile": lambda x, co=co: P.polyval(x, co) + 0 * x}

            def draw_bc():
                f = lambda: "wall" if r.random() < .5 else {"type": "wall"}
                return f(), f()
            make = lambda: om.OrrSommerfeldModel(n, gr.a, gr.b)
        else:
            def draw_base():
                while True:
                    b = Base(ck, gr, sub=True)
                    lim = np.sqrt((b.g - 1) / (2 * b.g))
                    M1 = C.chebval(-1, b.u) / np.sqrt(b.g * C.chebval(-1, b.p) / C.chebval(-1, b.rho))
                    if lim * 1.05 < M1 < .97:
                        return b.state(md)

            def draw_bc():
                t = r.random()
                f = lambda x: x if r.random() < .5 else {"type": x}
                if t < .35:
                    return f("sym"), f("sym")
                if t < .65:
                    return f("per"), f("per")
                return {"type": "RH", "dM0dx": 0. if r.random() < .3 else float(r.uniform(-1, 2))}, f("sym")
            make = lambda: eu.Euler1D(n, gr.a, gr.b)
        base, bc = draw_base(), draw_bc()
        pool = [(base, bc)]
        if r.random() < .3:
            m = om.OrrSommerfeldModel(n, gr.a, gr.b, basestate=base) if osm else eu.Euler1D(n, gr.a, gr.b, basestate=base)
        else:
            m = make()
            if r.random() < .5:
                m.set_BC(*bc)
                m.set_basestate(base)
            else:
                m.set_basestate(base)
        m.set_BC(*bc)
        ck.true("points of a model created after others", abs(np.asarray(m.x) - gr.x) <= 1e-12 * (abs(gr.a) + abs(gr.b)), (osm, n, gr.a, gr.b), m.x)
        given = [(base, snapshot(base)), (bc[0], snapshot(bc[0])), (bc[1], snapshot(bc[1]))]
        hist = []
        for step in range(int(r.integers(2, 8))):
            op = str(r.choice(["base", "bc", "bad", "matrices", "eig", "eig", "select", "back", "compute", "edit"]))
            hist.append(op)
            if op == "base":
                base = draw_base()
                ck.call("set_basestate", m.set_basestate, base)
                given.append((base, snapshot(base)))
            elif op == "bc":
                bc = draw_bc()
                ck.call("set_BC", m.set_BC, *bc)
                given += [(x, snapshot(x)) for x in bc]
            elif op == "back":  # objects already used come back
                base, bc = pool[int(r.integers(len(pool)))]
                ck.call("set_BC", m.set_BC, *bc)
                ck.call("set_basestate", m.set_basestate, base)
            elif op == "edit":  # the same object with other values is declared again
                if osm:
                    base["alpha"] = float(r.uniform(.3, 2))
                elif r.random() < .5:
                    base.rho, base.p = base.rho * 1.5, base.p * 1.5
                else:
                    base.p *= 1.2
                    base.rho *= 1.2
                given = [(g, snapshot(g) if g is base else x) for g, x in given]
                ck.call("set_basestate", m.set_basestate, base)
            elif op == "bad":
                t = str(r.choice(["Sym", "wal", "none", "RHx", "perio"]))
                bad = [t, {"type": t}][int(r.integers(2))]
                other = bc if r.random() < .3 else draw_bc()
                args = [bad, other[1]] if r.random() < .4 else [other[0], bad]
                expect("unknown boundary is refused", lambda: m.set_BC(*args), (osm, hist, bad), ValueError)
                if r.random() < .6:  # the boundaries declared before are those in force
                    ck.call("set_basestate", m.set_basestate, base)
            elif op == "compute":
                ck.call("compute_operators", m.compute_operators)
            elif op == "select" and "eig" in hist:
                ck.call("select_and_sort", m.select_and_sort)
            pool.append((base, bc))
            f = make()
            f.set_basestate(base)
            f.set_BC(*[copy.copy(x) for x in bc])
            if op == "eig" or r.random() < .3:
                A, F = ck.call("solve_eig", m.solve_eig), ck.call("solve_eig", f.solve_eig)
                if vals(A, F):
                    s = lambda v: np.sort_complex(np.where(np.isfinite(v), v, 0))
                    a, b = s(A[0]), s(F[0])
                    ck.decide("eigenvalues of a used model", len(a) == len(b) and bool(np.allclose(a, b, rtol=1e-9, atol=1e-9 * np.median(np.abs(b)))), (osm, hist, n))
                    # the pairs belong to the current matrices
            A, F = ck.call("get_RHS_time_matrices", m.get_RHS_time_matrices), ck.call("get_RHS_time_matrices", f.get_RHS_time_matrices)
            if vals(A, F):
                ok = all(x.shape == y.shape and np.allclose(x, y, rtol=1e-12, atol=1e-12 * np.max(np.abs(y))) for x, y in zip(A, F))
                ck.decide("matrices of a used model", ok, (osm, hist, n))
                # whatever was created before: action on linear fields, from the definition
                B, At = A
                x, ins = gr.x, slice(2, n - 2)
                if osm:
                    al = base["alpha"]
                    ok = abs((At @ x)[ins] + al ** 2 * x[ins]) <= 1e-8 * np.max(abs(At)) * (abs(gr.a) + abs(gr.b))
                else:
                    q = np.zeros(B.shape[0])
                    q[2 * n:3 * n] = x  # pressure x: velocity equation -1/rho
                    y = (B @ q)[n:2 * n][ins]
                    ok = abs(y * base.rho[ins] + 1) <= 1e-8
                ck.true("interior of the operators", ok, (osm, hist, n))
        for g, s in given:
            if hasattr(g, "rho") or (isinstance(g, dict) and "alpha" in g):
                ck.decide("caller's base state", equal(snapshot(g), s), (osm, hist))
            else:
                ck.decide("caller's boundary description", equal(snapshot(g), s) and (not isinstance(g, dict) or g.keys() == s.keys()), (osm, hist, s), g)
        hist_seen.add((osm,) + tuple(hist))
        f = make()
        f.set_basestate(base)
        expect("missing boundary is an error", f.get_RHS_time_matrices if r.random() < .5 else f.solve_eig, osm)
        f = make()
        f.set_BC(*bc)
        expect("missing base state is an error", f.get_RHS_time_matrices if r.random() < .5 else f.solve_eig, osm)
        if osm:
            d = dict(base)
            for q in r.choice(list(d), int(r.integers(1, 4)), replace=False):
                del d[str(q)]
            expect("incomplete base state is an error", lambda: f.set_basestate(d), sorted(d))
        elif r.random() < .5:
            f = make()
            f.set_basestate(base)
            f.set_BC("RH", "sym")
            expect("missing shock parameter is an error", f.get_RHS_time_matrices, None)
            f = make()
            f.set_basestate(base)
            f.set_BC({"type": "RH", "dM0dx": 1., str(r.choice(["dM1dx", "Mach", "dm0dx"])): 1.}, "sym")
            expect("unknown shock parameter is an error", f.get_RHS_time_matrices, None)
        else:
            f = make()
            f.set_basestate(base)
            one = ["per", str(r.choice(["sym", "RH"]))]
            if one[1] == "RH":
                one[1] = {"type": "RH", "dM0dx": 1.}
            if one[1] == "sym" and r.random() < .5:
                one.reverse()
            f.set_BC(*one)
            expect("periodicity on one side is an error", f.get_RHS_time_matrices if r.random() < .5 else f.solve_eig, one)
    ck.notes["distinct histories"] = len(hist_seen)
