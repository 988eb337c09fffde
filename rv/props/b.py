"""B01-B02 1-D states, C01-C03 Riemann and inflow problems."""
import numpy as np

from .. import gen, ref, scenes
from ..core import prop, Failed
from ..ref import L, l


def vals(*a):
    return not any(isinstance(x, Failed) for x in a)


class S:
    """reference gas state (extended precision)"""

    def __init__(s, rho, u, p, g):
        s.rho, s.u, s.p, s.g = l(rho), l(u), l(p), l(g)

    @property
    def a(s):
        return np.sqrt(s.g * s.p / s.rho)

    @property
    def M(s):
        return s.u / s.a

    @property
    def Pt(s):
        return s.p * ref.ptps(s.M, s.g)

    @property
    def rTt(s):
        return s.p / s.rho * ref.tau(s.M, s.g)

    def tup(s):
        return (s.rho, s.u, s.p, s.g)


def check_state(ck, mech, q, m, case, rtol=1e-9):
    """all accessors of a real state against the reference one"""
    if isinstance(q, Failed):
        return
    for n, w in (("rho", m.rho), ("u", m.u), ("p", m.p)):
        at = 0 if n != "u" else 1e-9 * m.a
        ck.close(mech + ": " + n, getattr(q, n), w.astype(float), rtol=rtol, atol=np.asarray(at, float), case=case)
    big = np.abs(m.M) < 60
    for n, w, at in (("asound", m.a, 0), ("Mach", m.M, 1e-9), ("massflow", m.rho * m.u, 1e-9 * m.rho * m.a), ("left_acoustic", m.u - m.a, 1e-9 * (m.a + abs(m.u))),
                     ("right_acoustic", m.u + m.a, 1e-9 * (m.a + abs(m.u))), ("Ptot", m.Pt, 0), ("rTtot", m.rTt, 0)):
        r = ck.call(mech + ": " + n, getattr(q, n))
        rt = rtol if n != "Ptot" else rtol * (10 + np.asarray(m.g / (m.g - 1) * 2 * np.abs(m.M) ** 0, float))
        ck.close(mech + ": " + n, r, w.astype(float), rtol=rt, atol=np.asarray(at, float), case=case, where=big if n == "Ptot" else None)
    sz = np.size(m.rho)
    ck.decide(mech + ": size", q.size == sz, case, {"size": q.size, "expected": sz})


def field(ck, n):
    r = ck.rng
    ur, up = gen.units(ck)
    return ur * gen.loguni(ck, n, 1e-3, 1e3), r.normal(0, 1, n) * 10.0 ** r.uniform(-2, .7), up * gen.loguni(ck, n, 1e-3, 1e4)


def draw_state(ck, cls, array=None, supersonic=False):
    r = ck.rng
    array = r.random() < .35 if array is None else array
    n = (int(r.integers(1, 9)) if r.random() < .97 else 1500) if array else 1
    rho, v, p = field(ck, n)
    g = float(gen.gamma(ck, 1, 1.05)[0])
    a = np.sqrt(g * p / rho)
    u = np.clip(v, -8, 8) * a * (10. if r.random() < .05 else 1.)
    if array and n % 2 == 0 and r.random() < .4:  # fields on a two-dimensional grid
        rho, u, p, a = (x.reshape(2, n // 2) for x in (rho, u, p, a))
    shape = np.shape(rho)
    if supersonic:
        u = np.where(r.random(shape) < .5, 1, -1) * a * (1 + gen.loguni(ck, n, 1e-3, 10).reshape(shape))
    if not array:
        rho, u, p = float(rho[0]), float(u[0]), float(p[0])
        if r.random() < .15:
            rho, u, p = max(1, round(rho)), round(u), max(1, round(p))
            if supersonic and not abs(u) > 1.001 * np.sqrt(g * p / rho):
                u = int(np.ceil(2 * np.sqrt(g * p / rho)))
        elif r.random() < .1:
            rho, u, p = np.array(rho), np.array(u), np.array(p)
        elif r.random() < .1:
            rho, u, p = np.float64(rho), np.float64(u), np.float64(p)
    elif r.random() < .2:  # parts of larger fields
        rho, u, p = (np.stack([x, np.full(shape, np.nan)], -1)[..., 0] for x in (rho, u, p))
    elif r.random() < .1:
        rho, u, p = (x[::-1] for x in (rho, u, p))
    k = r.random()
    if array and k < .2:
        g = gen.gamma(ck, n, 1.05).reshape(shape)
        if supersonic:
            u = u * np.sqrt(2)
        q = cls(rho, u, p, g)
    elif k < .4:
        g = 1.4
        if supersonic:
            u = u * np.sqrt(2)
        q = cls(rho, u, p)
    elif k < .7:
        q = cls(rho, u, p, g)
    else:
        q = cls(rho=rho, u=u, p=p, gamma=g)
    return q, S(rho, u, p, np.broadcast_to(g, np.shape(rho))), g


def other_kinds(r, x, way):
    """the same final pressures, held in another way"""
    if np.ndim(x) == 0:
        k = r.random()
        if k < .1 and (way > 0 or x >= 1):
            return int(np.ceil(x) if way > 0 else np.floor(x))
        if k < .3:
            return (np.array if k < .2 else np.float64)(x)
        if k < .5:  # polar of the state
            return x * np.exp(way * np.sort(r.uniform(0, 1, int(r.integers(1, 9))))[::int(r.choice([-1, 1]))])
        return x
    if r.random() < .3:
        return np.stack([x, np.full(np.shape(x), np.nan)], -1)[..., 0]
    return x


def snap(q):
    return [np.array(getattr(q, n), dtype=float, copy=True) for n in ("rho", "u", "p")] + [np.array(q.asound(), dtype=float)]


def same(a, b):
    return all(np.array_equal(x, y) for x, y in zip(a, b))


@prop("B01")
def b01(ck):
    md, us = ck.module("aerokit.aero.model1D"), ck.module("aerokit.aero.unsteady1D")
    ck.rule = "one decision per accessor or derived state of the real object against the mirrored reference state"
    for n in ("shocked state: p", "isentropic change: p", "from pt rtt M: rho", "from pt rtt u: rho", "from pt rtt p: rho", "copy: rho", "element: rho", "part: rho",
              "shock conserves momentum", "isentropic change keeps total pressure", "source state unchanged"):
        ck.require(n)
    r = ck.rng
    for k in range(ck.n(160, 2500)):
        cls = md.state if r.random() < .6 else us.unsteady_state
        q, m, g = draw_state(ck, cls, supersonic=r.random() < .4)
        c = [m.rho.astype(float), m.u.astype(float), m.p.astype(float), g]
        hist = [("new", c)]
        check_state(ck, "state", q, m, hist)
        for step in range(int(r.integers(1, 5))):
            op = str(r.choice(["copy", "item", "RH", "isen", "M", "u", "p"]))
            before = snap(q)
            one = float(np.max(np.abs(m.M))) if op == "RH" else 0
            if op == "copy":
                check_state(ck, "copy", ck.call("copy", q.copy), m, hist)
            elif op == "item":
                if m.rho.ndim == 0:
                    continue
                i = int(r.integers(-len(m.rho), len(m.rho)))
                e = ck.call("element", q.__getitem__, i)
                check_state(ck, "element", e, S(m.rho[i], m.u[i], m.p[i], np.broadcast_to(m.g, m.rho.shape)[i]), (hist, i))
                i = [slice(None, None, 2), slice(1, None), slice(None, None, -1), np.arange(len(m.rho)) % 2 == 0, np.array([0, -1, 0])][int(r.integers(5))]
                e = ck.call("part", q.__getitem__, i)
                check_state(ck, "part", e, S(m.rho[i], m.u[i], m.p[i], np.broadcast_to(m.g, m.rho.shape)[i]), (hist, str(i)))
            elif op == "RH":
                if not np.all(np.abs(m.M) > 1.0005) or one > 50:
                    continue
                e = ck.call("shocked state", q.state_RH)
                if not vals(e):
                    continue
                x = ref.rho_ratio(m.M, m.g)
                w = S(m.rho * x, m.u / x, m.p * ref.ps_ratio(m.M, m.g), m.g)
                check_state(ck, "shocked state", e, w, hist)
                ck.close("shock conserves mass", e.rho * e.u, (m.rho * m.u).astype(float), rtol=1e-9, case=hist)
                ck.close("shock conserves momentum", e.p + e.rho * e.u ** 2, (m.p + m.rho * m.u ** 2).astype(float), rtol=1e-9, case=hist)
                ck.close("shock conserves total enthalpy", ck.call("rTtot", e.rTtot), m.rTt.astype(float), rtol=1e-9, case=hist)
            elif op == "isen":
                M1 = float(gen.mach(ck, 1, .01, 8)[0] if r.random() < .8 else 10.0 ** r.uniform(-8, 3)) * float(r.choice([1, 1, -1]))
                if np.any(np.abs(m.M) > 15):
                    continue
                e = ck.call("isentropic change", q.state_isentropic_Mach, M1)
                if not vals(e):
                    continue
                t = m.rTt / ref.tau(M1, m.g)
                p = m.Pt / ref.ptps(M1, m.g)
                check_state(ck, "isentropic change", e, S(p / t, M1 * np.sqrt(m.g * t), p, m.g), (hist, M1), rtol=1e-8)
                ck.close("isentropic change keeps total pressure", ck.call("Ptot", e.Ptot), m.Pt.astype(float), rtol=1e-8, case=(hist, M1))
            else:
                # re-initialise the object from total quantities: gamma is kept
                pt, rtt = float(gen.loguni(ck, 1, .01, 1e4)[0]), float(gen.loguni(ck, 1, .01, 1e3)[0])
                gg = m.g if m.g.ndim and np.ndim(g) else l(np.ravel(m.g)[0])
                n = "from pt rtt " + op
                na = int(r.integers(2, 6)) if gg.ndim == 0 and r.random() < .35 else 0  # arrays of final values
                if na and r.random() < .5:
                    pt, rtt = gen.loguni(ck, na, .01, 1e4), gen.loguni(ck, na, .01, 1e3)
                wh = r.random() < .2  # whole numbers, counted in integers
                whole = lambda v: v if not wh else np.trunc(v).astype(int) if np.ndim(v) else int(v)
                if wh:
                    pt, rtt = whole(np.maximum(pt, 1)), whole(np.maximum(rtt, 1))
                if op == "M":
                    x = float(gen.mach(ck, 1, .01, 6)[0]) * float(r.choice([1, 1, -1]))
                    if na:
                        x = gen.mach(ck, na, .01, 6) * r.choice([1, 1, -1], na)
                    x = whole(x)
                    e = ck.call(n, q.compute_from_pt_rtt_M, pt, rtt, x)
                    M = l(x)
                elif op == "u":
                    lim = np.sqrt(2 * gg / (gg - 1) * rtt)
                    x = float(r.uniform(-.93, .93) * np.min(lim))
                    if na:
                        x = r.uniform(-.93, .93, na) * np.min(lim)
                    if r.random() < .25:  # almost the limit velocity
                        x = np.sign(x) * np.min(lim).astype(float) * (1 - 10.0 ** r.uniform(-5, -1, na or None))
                        x = x if na else float(x)
                    x = whole(x)
                    away = np.asarray(1 - l(x) ** 2 / lim ** 2, float)
                    e = ck.call(n, q.compute_from_pt_rtt_u, pt, rtt, x)
                    t = rtt - (gg - 1) / (2 * gg) * l(x) ** 2
                    M = x / np.sqrt(gg * t)
                else:
                    x = pt * float(r.choice([r.uniform(.05, .999), 1 - 10.0 ** r.uniform(-6, -1)]))
                    if na:
                        x = pt * r.uniform(.05, .999, na)
                    if r.random() < .12:  # at rest, some or all of it (powers of two: the ratio is one however it is computed)
                        pt = 2 ** np.round(np.log2(pt)).astype(int) if wh and na else 2.0 ** np.round(np.log2(pt))
                        pt = pt if na else int(pt) if wh and pt >= 1 else float(pt)
                        x = np.minimum(x, pt * .999) if na else min(x, pt * .999)
                        x = np.where(r.random(na) < .5, pt, x) if na else pt
                    e = ck.call(n, q.compute_from_pt_rtt_p, pt, rtt, x)
                    M = ref.mach_ptps(l(pt) / l(x), gg)
                if not vals(e):
                    break
                t, p = rtt / ref.tau(M, gg), pt / ref.ptps(M, gg)
                m = S(p / t, M * np.sqrt(gg * t), p, gg)
                if np.shape(m.rho) != np.shape(q.rho):
                    m = S(*np.broadcast_arrays(m.rho, m.u, m.p, m.g))
                if np.shape(q.rho) != np.shape(q.u) or np.shape(q.rho) != np.shape(q.p):
                    break  # mixed scalar and array fields: values judged below only
                hist.append((op, pt, rtt, x))
                loss = np.broadcast_to(3e-15 / away, m.p.shape) if op == "u" else 0.
                gm = np.asarray(m.g / (m.g - 1), float)
                check_state(ck, n, q, m, hist, rtol=1e-7 if op == "p" else 1e-9 + loss * gm)
                ck.close("given total pressure is kept", ck.call("Ptot", q.Ptot), np.broadcast_to(pt, m.p.shape), rtol=1e-8 + 3 * loss * gm, case=hist)
                ck.close("given total temperature is kept", ck.call("rTtot", q.rTtot), np.broadcast_to(rtt, m.p.shape), rtol=1e-9, case=hist)
                continue
            ck.decide("source state unchanged", same(before, snap(q)), (op, hist), {"before": before, "after": snap(q)})
    with ck.tapped({}):
        scenes.nested(ck, ("states",), ck.n(3, 30))


def fshock(q, p):
    """velocity change and density through a shock of mass flux Q"""
    Q = np.sqrt(q.rho * ((q.g + 1) * p + (q.g - 1) * q.p) / 2)
    du = (p - q.p) / Q
    return du, Q / (Q / q.rho - du), Q


def fexp(q, p):
    """2/(g-1)*(a - a0): constant Riemann invariant with constant entropy"""
    e = (q.g - 1) / (2 * q.g) * (np.log(p) - np.log(q.p))
    return 2 * q.a / (q.g - 1) * np.expm1(e), q.rho * np.exp((np.log(p) - np.log(q.p)) / q.g)


@prop("B02")
def b02(ck):
    us = ck.module("aerokit.aero.unsteady1D")
    r = ck.rng
    ck.rule = "one decision per returned value, conservation balance or accessor"
    for k in range(ck.n(250, 4000)):
        q, m, g = draw_state(ck, us.unsteady_state)
        z = 10.0 ** (r.uniform(-8, 6) if r.random() < .5 else r.uniform(-2, 2))
        ps = m.p * (1 + l(z))
        pe = m.p * np.exp(-l(z) / (1 + l(z) / 40))
        psf, pef = ps.astype(float), pe.astype(float)
        if m.p.ndim == 0:
            psf, pef = float(psf), float(pef)
        psf, pef = other_kinds(r, psf, 1), other_kinds(r, pef, -1)
        ps, pe = l(np.asarray(psf, float)), l(np.asarray(pef, float))
        c = [m.rho.astype(float), m.u.astype(float), m.p.astype(float), g]
        before = snap(q)
        # shock
        du, rho = ck.call("delta_u_shock", q.delta_u_shock, psf), ck.call("rho_through_shock", q.rho_through_shock, psf)
        wdu, wrho, Q = fshock(m, ps)
        ck.close("delta_u_shock", du, wdu.astype(float), rtol=1e-12, atol=np.asarray(1e-14 * m.a, float), case=(c, psf))
        ck.close("rho_through_shock", rho, wrho.astype(float), rtol=1e-12, case=(c, psf))
        if vals(du, rho):
            strong = np.asarray(psf / np.asarray(m.p, float) > 1.01)
            # left-running shock: u2 = u - du, speed from mass balance
            rho1, u1, p1, g1 = (np.asarray(x, float) for x in m.tup())
            u2 = u1 - du
            with np.errstate(all="ignore"):
                W = (rho1 * u1 - rho * u2) / (rho1 - rho)
            v1, v2 = u1 - W, u2 - W
            ck.close("shock conserves momentum", psf + rho * v2 ** 2, p1 + rho1 * v1 ** 2, rtol=1e-8, case=(c, psf), where=strong)
            ck.close("shock conserves energy", g1 / (g1 - 1) * psf / rho + v2 ** 2 / 2, g1 / (g1 - 1) * p1 / rho1 + v1 ** 2 / 2, rtol=1e-8, case=(c, psf), where=strong)
        # shock of given velocity, running to the left or to the right
        if hasattr(q, "_rankinehugoniot_from_ushock"):
            sg = float(r.choice([-1, 1]))
            Ms = float(1 + 10.0 ** r.uniform(-4, 1.3))
            w = m.u + sg * Ms * m.a
            wf = w.astype(float) if w.ndim else float(w)
            w = l(wf)
            e = ck.call("shock of given velocity", q._rankinehugoniot_from_ushock, wf)
            x = ref.rho_ratio(np.abs(m.u - w) / m.a, m.g)
            check_state(ck, "shock of given velocity", e, S(m.rho * x, w + (m.u - w) / x, m.p * ref.ps_ratio(np.abs(m.u - w) / m.a, m.g), m.g), (c, wf), rtol=1e-8)
            if vals(e):
                rho1, u1, p1, g1 = (np.asarray(v, float) for v in m.tup())
                ck.close("shock of given velocity conserves mass", e.rho * (e.u - wf), rho1 * (u1 - wf), rtol=1e-9, atol=1e-14 * rho1 * (np.abs(u1) + np.abs(wf)) * 10, case=(c, wf))
                ck.decide("source state unchanged", same(before, snap(q)), (c, wf))
        # expansion
        du, rho = ck.call("delta_u_expansion", q.delta_u_expansion, pef), ck.call("rho_through_isentropic", q.rho_through_isentropic, pef)
        wdu, wrho = fexp(m, pe)
        ck.close("delta_u_expansion", du, wdu.astype(float), rtol=1e-11, atol=np.asarray(1e-13 * m.a / (m.g - 1), float), case=(c, pef))
        ck.close("rho_through_isentropic", rho, wrho.astype(float), rtol=1e-12, case=(c, pef))
        if vals(du, rho):
            rho1, u1, p1, g1 = (np.asarray(x, float) for x in m.tup())
            ck.close("expansion keeps entropy", np.log(pef) - g1 * np.log(rho), np.log(p1) - g1 * np.log(rho1) + 0 * pef, rtol=0, atol=1e-10 * (1 + np.abs(np.log(p1)) + np.abs(np.log(rho1)) + 40), case=(c, pef))
            a1, a2 = np.sqrt(g1 * p1 / rho1), np.sqrt(g1 * pef / rho)
            ck.close("expansion keeps the Riemann invariant", (u1 - du) + 2 * a2 / (g1 - 1), u1 + 2 * a1 / (g1 - 1) + 0 * pef, rtol=0, atol=1e-9 * (np.abs(u1) + a1 / (g1 - 1)), case=(c, pef))
        rho = ck.call("rho_through_isentropic", q.rho_through_isentropic, psf)
        ck.close("rho_through_isentropic", rho, fexp(m, ps)[1].astype(float), rtol=1e-12, case=(c, psf))
        # mirror, copy
        check_state(ck, "mirror", ck.call("mirror", q.copysymmetric), S(m.rho, -m.u, m.p, m.g), c)
        cp = ck.call("copy", q.copy)
        check_state(ck, "copy", cp, m, c)
        ck.decide("source state unchanged", same(before, snap(q)), c)
        if vals(cp):
            if np.ndim(cp.rho):
                cp.rho[...] *= 2
                cp.u += 1.0
                cp.p[0] = 7.0
            else:
                cp.rho, cp.u, cp.p = 2 * cp.rho, cp.u + 1, 7.0
            ck.decide("copy is independent of the original", same(before, snap(q)), c)
            # relations of the values the state has now, not of those it had
            for st in (cp, q):
                if st is q:
                    q.u = q.u + 1.0
                    q.p = q.p * float(r.uniform(.5, 2))
                mm = S(l(st.rho), l(st.u), l(st.p), m.g)
                cc = [np.asarray(st.rho, float), np.asarray(st.p, float), g]
                for _ in range(2):
                    x, y = np.asarray(st.p, float) * float(r.uniform(1.1, 5)), np.asarray(st.p, float) * float(r.uniform(.1, .9))
                    (wdu, wrho, _), (wde, wre) = fshock(mm, l(x)), fexp(mm, l(y))
                    for n, z, wv in (("delta_u_shock", x, wdu), ("rho_through_shock", x, wrho), ("delta_u_expansion", y, wde), ("rho_through_isentropic", y, wre)):
                        ck.close(n + " of a changed state", ck.call(n, getattr(st, n), z), wv.astype(float), rtol=1e-11, case=(cc, z))
                    st.rho = st.rho * float(r.uniform(1.2, 3))
                    mm = S(l(st.rho), l(st.u), l(st.p), m.g)
                    cc[0] = np.asarray(st.rho, float)
            q.rho, q.u, q.p = (np.array(x, float) if np.ndim(x) else float(x) for x in (m.rho, m.u, m.p))
            cp2 = ck.call("copy", q.copy)
            q.rho = q.rho * 3
            q.compute_from_pt_rtt_M(2.0, 1.0, 0.5)
            check_state(ck, "copy is independent of the original", cp2, m, c)


# ------------------------------------------------------------------------------- Riemann
def fK(q, p):
    du_s, _, _ = fshock(q, p)
    du_e, _ = fexp(q, p)
    return np.where(p > q.p, du_s, du_e)


class RP:
    """independent exact Riemann solution"""

    def __init__(s, qL, qR):
        s.L, s.R = qL, qR
        s.vac = 2 * qL.a / (qL.g - 1) + 2 * qR.a / (qR.g - 1) - (qR.u - qL.u)
        if s.vac <= 0:
            return
        fun = lambda lp: fK(qL, np.exp(lp)) + fK(qR, np.exp(lp)) + qR.u - qL.u
        lo, hi = L(-200), L(100)
        x = np.array([0.], dtype=L)
        s.p = np.exp(ref.bisect(lambda v: fun(v), x, lo, hi))[0]
        s.u = ((qL.u - fK(qL, s.p)) + (qR.u + fK(qR, s.p))) / 2
        s.sL, s.wL = s.side(qL, -1)
        s.sR, s.wR = s.side(qR, +1)
        h = L(1e-6)
        s.slope = (fun(np.log(s.p) + h) - fun(np.log(s.p) - h)) / (2 * h)  # d(du)/d(ln p)
        s.scale = qL.a + qR.a + abs(qL.u) + abs(qR.u) + qL.a / (qL.g - 1) + qR.a / (qR.g - 1)

    def side(s, q, sgn):
        if s.p > q.p:
            du, rho, Q = fshock(q, s.p)
            return S(rho, s.u, s.p, q.g), (q.u + sgn * Q / q.rho,) * 2
        st = S(q.rho * np.exp((np.log(s.p) - np.log(q.p)) / q.g), s.u, s.p, q.g)
        return st, (q.u + sgn * q.a, s.u + sgn * st.a)

    def sample(s, x):
        x = l(x)
        out = [np.empty(x.shape, dtype=L) for _ in range(4)]

        def put(i, q):
            for o, v in zip(out, q.tup()):
                o[i] = v
        put(x < s.wL[0], s.L)
        put((x >= s.wL[1]) & (x < s.u), s.sL)
        put((x >= s.u) & (x <= s.wR[1]), s.sR)
        put(x > s.wR[0], s.R)
        for q, w, sgn in ((s.L, s.wL, -1), (s.R, s.wR, 1)):
            i = (x > w[0]) & (x < w[1]) if sgn < 0 else (x > w[1]) & (x < w[0])
            if np.any(i):
                xi = x[i]
                # u + sgn*a = x and u - sgn*2a/(g-1) constant
                inv = q.u - sgn * 2 * q.a / (q.g - 1)
                a = (xi - inv) * sgn * (q.g - 1) / (q.g + 1)
                rho = q.rho * (a / q.a) ** (2 / (q.g - 1))
                put(i, S(rho, xi - sgn * a, rho * a * a / q.g, q.g + 0 * a))
        return out


def draw_pair(ck):
    """two states that do not open a vacuum, of all strengths"""
    r = ck.rng
    while True:
        k = r.random()
        span = 8 if k < .25 else 2 if k < .8 else .01
        mach = 0. if r.random() < .1 else 10.0 ** r.uniform(-6, .8)
        g1 = float(gen.gamma(ck, 1, 1.05, 1.7)[0])
        g2 = g1 if r.random() < .6 else float(gen.gamma(ck, 1, 1.05, 1.7)[0])
        rho1, p1 = 10.0 ** r.uniform(-2, 2), 10.0 ** r.uniform(-2, 4)
        ur, up = gen.units(ck)
        rho1, p1 = rho1 * ur, p1 * up
        rho2 = rho1 * 10.0 ** (span * r.uniform(-1, 1) * .5)
        p2 = p1 * 10.0 ** (span * r.uniform(-1, 1))
        if r.random() < .1:
            rho2, p2 = rho1, p1
        if r.random() < .07:
            rho2, p2 = rho1 * (1 + 1e-7 * r.normal()), p1 * (1 + 10.0 ** r.uniform(-13, -5) * r.normal())
        u1 = r.normal() * mach * np.sqrt(g1 * p1 / rho1)
        u2 = r.normal() * mach * np.sqrt(g2 * p2 / rho2) if r.random() < .8 else u1
        if r.random() < .08:  # hardly perturbed uniform flow
            rho2, p2, g2 = rho1, p1, g1
            u2 = u1 - 10.0 ** r.uniform(-16, -6) * np.sqrt(g1 * p1 / rho1) * r.choice([-1, 1])
        if r.random() < .12 and ur == up == 1:  # states given in whole numbers
            rho1, p1, rho2, p2 = (float(max(1, round(float(v)))) for v in (rho1, p1, rho2, p2))
            u1, u2 = float(round(u1)), float(round(u2))
        a, b = S(rho1, u1, p1, g1), S(rho2, u2, p2, g2)
        dmax = 2 * a.a / (g1 - 1) + 2 * b.a / (g2 - 1)
        if r.random() < .12:  # close to vacuum
            u2 = u1 + float(dmax) * r.uniform(.5, .93)
            b = S(rho2, u2, p2, g2)
        hyper = r.random() < .06
        if hyper:  # head-on collision of hypersonic flows, or two trains of shocks of any strength
            u1, u2 = u1 + float(a.a) * 10.0 ** r.uniform(.7, 2.5), u2 - float(b.a) * 10.0 ** r.uniform(.7, 2.5)
            a, b = S(rho1, u1, p1, g1), S(rho2, u2, p2, g2)
        rp = RP(a, b)
        if rp.vac > .05 * dmax and rp.p > 1e-14 * max(a.p, b.p) and (hyper or abs(b.u - a.u) < 50 * (a.a + b.a)):
            return a, b, rp


def real(us, q, r=None):
    v = [float(x) for x in (q.rho, q.u, q.p)]
    k = 1. if r is None else r.random()
    if k < .25:  # numbers taken from arrays
        return us.unsteady_state(*[(np.float64 if k < .12 else np.array)(x) for x in v], gamma=float(q.g))
    if all(x == round(x) and abs(x) < 1e12 for x in v):
        v = [int(x) for x in v]
    return us.unsteady_state(*v, gamma=float(q.g))


def judge_riemann(ck, pb, rp, case, tag=""):
    T = lambda n: tag + n
    sc = rp.scale
    ps, u = ck.call(T("pstar"), pb.pstar), ck.call(T("ustar"), pb.ustar)
    if not vals(ps, u):
        return
    tolp = np.asarray(1e-9 + 1e-11 * sc / rp.slope, float)
    ck.close(T("star pressure"), ps, float(rp.p), rtol=tolp, case=case)
    ck.close(T("star velocity"), u, float(rp.u), atol=float(1e-9 * sc), case=case)
    if np.isfinite(float(ps)) and ps > 0:
        ck.close(T("left wave leads to the star velocity"), u, float(rp.L.u - fK(rp.L, l(ps))), atol=float(1e-9 * sc), case=case)
        ck.close(T("right wave leads to the star velocity"), u, float(rp.R.u + fK(rp.R, l(ps))), atol=float(1e-9 * sc), case=case)
    for n, st in (("qstarL", rp.sL), ("qstarR", rp.sR)):
        q = ck.call(T(n), getattr(pb, n))
        if vals(q):
            ck.close(T(n + " pressure"), q.p, float(rp.p), rtol=tolp, case=case)
            ck.close(T(n + " velocity"), q.u, float(rp.u), atol=float(1e-9 * sc), case=case)
            ck.close(T(n + " density"), q.rho, float(st.rho), rtol=tolp + 1e-9, case=case)
            ck.close(T(n + " gas"), ck.call(T(n), q.asound), float(st.a), rtol=tolp + 1e-9, case=case)
    ck.close(T("left fastest wave"), ck.call("left_fastest", pb.left_fastest), float(rp.wL[0]), atol=float(1e-9 * sc + tolp * rp.L.a * (1 + rp.p / rp.L.p)), case=case)
    ck.close(T("right fastest wave"), ck.call("right_fastest", pb.right_fastest), float(rp.wR[0]), atol=float(1e-9 * sc + tolp * rp.R.a * (1 + rp.p / rp.R.p)), case=case)


def wave_kinds(ck, rp):
    k = ("shock" if rp.p > rp.L.p else "fan") + "-" + ("shock" if rp.p > rp.R.p else "fan")
    ck.notes.setdefault("wave patterns solved", {}).setdefault(k, 0)
    ck.notes["wave patterns solved"][k] += 1


@prop("C01")
def c01(ck):
    us, ri = ck.module("aerokit.aero.unsteady1D"), ck.module("aerokit.instance.riemann")
    ck.rule = "one decision per star value, wave speed or covariance relation of one solved problem"
    for n in ("star pressure", "left fastest wave", "mirror: star pressure", "Galilean: star pressure", "given states are unchanged",
              "solution is independent of the given states afterwards"):
        ck.require(n)
    r = ck.rng
    for k in range(ck.n(220, 3000)):
        a, b, rp = draw_pair(ck)
        wave_kinds(ck, rp)
        case = [[float(x) for x in a.tup()], [float(x) for x in b.tup()]]
        qa, qb = real(us, a, r), real(us, b, r)
        if a.g == 1.4 and b.g == 1.4 and r.random() < .3:
            qa, qb = us.unsteady_state(float(a.rho), float(a.u), float(a.p)), us.unsteady_state(float(b.rho), float(b.u), float(b.p))
        sa, sb = snap(qa), snap(qb)
        pb = ck.call("riemann_pb", ri.riemann_pb, qa, qb)
        if not vals(pb):
            continue
        judge_riemann(ck, pb, rp, case)
        ck.decide("given states are unchanged", same(sa, snap(qa)) and same(sb, snap(qb)), case)
        if k % 3 == 0:
            m = ck.call("riemann_pb", ri.riemann_pb, qb.copysymmetric(), qa.copysymmetric())
            if vals(m):
                judge_riemann(ck, m, RP(S(b.rho, -b.u, b.p, b.g), S(a.rho, -a.u, a.p, a.g)), ("mirror", case), "mirror: ")
                ck.close("mirror reverses velocity", m.ustar(), -pb.ustar(), atol=float(1e-9 * rp.scale), case=case)
        if k % 3 == 1:
            v = float(r.normal() * rp.scale)
            a2, b2 = S(a.rho, float(a.u) + v, a.p, a.g), S(b.rho, float(b.u) + v, b.p, b.g)
            m = ck.call("riemann_pb", ri.riemann_pb, real(us, a2), real(us, b2))
            if vals(m):
                judge_riemann(ck, m, RP(a2, b2), ("Galilean", v, case), "Galilean: ")
        if k % 5 == 0:  # a solution is not changed by using the problem
            p0, u0 = pb.pstar(), pb.ustar()
            ck.call("qsol", pb.qsol, np.linspace(-1, 1, 5))
            repr(pb)
            ck.decide("solution is not changed by reading it", pb.pstar() == p0 and pb.ustar() == u0, case)
        if k % 4 == 2:  # nor by what becomes of the states it was given
            x = np.linspace(float(rp.u - 2 * rp.scale), float(rp.u + 2 * rp.scale), 7)
            see = lambda: [repr(pb), pb.pstar(), pb.ustar(), pb.left_fastest(), pb.right_fastest(), snap(pb.qstarL()), snap(pb.qstarR()), snap(pb.qsol(x))]
            was = ck.call("read", see)
            for q in (qa, qb):
                q.rho, q.u, q.p = q.rho * 1.5, q.u + 1, q.p * .7
            qa.compute_from_pt_rtt_M(2., 1., .5)
            now = ck.call("read", see)
            if vals(was, now):
                ck.decide("solution is independent of the given states afterwards", was[:5] == now[:5] and all(same(i, j) for i, j in zip(was[5:], now[5:])), case)
    ck.notes["wave patterns solved"] = dict(ck.notes.get("wave patterns solved", {}))


@prop("C02")
def c02(ck):
    us, ri = ck.module("aerokit.aero.unsteady1D"), ck.module("aerokit.instance.riemann")
    ck.rule = "one decision per sampled field (all positions of one problem) and per conservation integral"
    for n in ("sampled rho", "sampled u", "sampled p", "sampled gas", "sampled at the position of a wave", "mass integral", "energy integral"):
        ck.require(n)
    gx, gw = np.polynomial.legendre.leggauss(10)
    r = ck.rng
    for k in range(ck.n(130, 1600)):
        a, b, rp = draw_pair(ck)
        wave_kinds(ck, rp)
        case = [[float(x) for x in a.tup()], [float(x) for x in b.tup()]]
        pb = ck.call("riemann_pb", ri.riemann_pb, real(us, a, r), real(us, b, r))
        if not vals(pb):
            continue
        edges = np.array([float(x) for x in (rp.wL[0], rp.wL[1], rp.u, rp.wR[1], rp.wR[0])])
        sc = float(rp.scale)
        A, B = edges[0] - .3 * sc, edges[-1] + .3 * sc
        x = np.concatenate([r.uniform(A, B, int(r.integers(1, 40)) if r.random() < .93 else int(r.integers(1000, 6000))), edges + 1e-6 * sc, edges - 1e-6 * sc]
                           + [r.uniform(edges[i], edges[i + 1], 6) for i in range(4)] + [[0.0]])
        n = str(r.choice(["all", "one", "sorted", "reversed", "back", "int"]))
        if n == "one":
            x = x[r.integers(0, len(x))][None]
        elif n == "sorted":
            x = np.sort(x)
        elif n == "reversed":
            x = np.sort(x)[::-1]
        elif n == "back":  # there and back again
            x = np.concatenate([np.sort(x), np.sort(x)[::-1]])
        elif n == "int":
            x = np.unique(np.round(x)).astype(int)
        x0 = x.copy()
        q = ck.call("qsol", pb.qsol, x)
        if not vals(q):
            continue
        ck.decide("positions are not modified", np.array_equal(x, x0), case)
        want = rp.sample(x)
        xf = x.astype(float)
        far = np.min(np.abs(xf[:, None] - edges[None, :]), axis=1) > 1e-8 * sc
        # inside fans p and rho vary as large powers of the local sound speed: reference conditioning by position
        tol = []
        for i in range(3):
            d = np.zeros(xf.shape)
            for e in (1e-9, -1e-9):
                w = rp.sample(xf + e * sc)
                with np.errstate(all="ignore"):
                    dd = np.abs((w[i] - want[i]) / want[i]).astype(float)
                d = np.maximum(d, np.where(dd < .5, dd, 0))
            tol.append(1e-8 + 4 * d)
        tolp = float(1e-9 + 1e-11 * rp.scale / rp.slope)
        ck.close("sampled rho", q.rho, want[0].astype(float), rtol=tol[0] + tolp, case=(case, x), where=far)
        ck.close("sampled u", q.u, want[1].astype(float), rtol=0, atol=1e-8 * sc, case=(case, x), where=far)
        ck.close("sampled p", q.p, want[2].astype(float), rtol=tol[2] + tolp, case=(case, x), where=far)
        ck.close("sampled gas", np.broadcast_to(ck.call("asound", q.asound), xf.shape) ** 2 * q.rho / q.p, want[3].astype(float), rtol=1e-9, case=(case, x), where=far)
        # exactly at the positions of the waves, as the problem tells them
        at = [ck.call("wave positions", f) for f in (pb.left_fastest, pb.ustar, pb.right_fastest)]
        q = ck.call("qsol", pb.qsol, np.array(at))
        if vals(*at, q):
            d = 1e-7 * sc
            for i, e in ((0, edges[0]), (1, edges[2]), (2, edges[-1])):
                if i == 1 and not (edges[2] - edges[1] > 4 * d and edges[3] - edges[2] > 4 * d):
                    continue
                # a fan is continuous at its head; a front or the contact belongs to either side
                lo, hi = (np.array([float(v[0]) for v in rp.sample(np.array([e + s]))[:3]]) for s in (-d, d))
                got = np.array([q.rho[i], q.u[i], q.p[i]], float)
                tol = np.array([1e-7, 0, 1e-7]) * abs(got) + np.array([0, 1e-8 * sc, 0]) + np.array([tolp, 0, tolp]) * abs(got)
                smooth = np.all(abs(hi - lo) <= .05 * np.maximum(abs(lo), abs(hi)) + 1e-6 * sc * np.array([0, 1, 0]))
                ok = any(np.all(abs(got - v) <= tol) for v in (lo, hi)) or smooth and np.all((got >= np.minimum(lo, hi) - tol) & (got <= np.maximum(lo, hi) + tol))
                ck.decide("sampled at the position of a wave", bool(ok), (case, ("left", "contact", "right")[i]), [got, lo, hi])
        # precision and layout of the positions do not matter
        x4 = r.uniform(A, B, 12).astype(np.float32)
        q4, q8 = ck.call("qsol", pb.qsol, x4), ck.call("qsol", pb.qsol, x4.astype(float))
        if vals(q4, q8):
            tame = np.min(np.abs(x4.astype(float)[:, None] - edges[None, :]), axis=1) > 1e-5 * sc
            for n in ("rho", "u", "p"):
                ck.close("sampled at positions of single precision", getattr(q4, n), getattr(q8, n), rtol=1e-9, atol=1e-9 * sc if n == "u" else 0, case=(case, x4), where=tame)
        # conservation: integral of conserved variables over [A, B]
        xs, ws = [], []
        e = np.concatenate([[A], edges, [B]])
        for i in range(6):
            h = e[i + 1] - e[i]
            if h > 1e-9 * sc:
                m = 6 if i in (1, 4) else 1
                for j in range(m):
                    lo = e[i] + h * j / m
                    xs.append(lo + h / m * (gx + 1) / 2)
                    ws.append(gw * h / m / 2)
        xs, ws = np.concatenate(xs), np.concatenate(ws)
        q = ck.call("qsol", pb.qsol, xs)
        if not vals(q):
            continue
        g = np.where(xs < edges[2], float(a.g), float(b.g))

        def cons(q, g):
            E = q.p / (g - 1) + q.rho * q.u ** 2 / 2
            return q.rho, q.rho * q.u, E

        def flux(q):
            E = q.p / (q.g - 1) + q.rho * q.u ** 2 / 2
            return q.rho * q.u, q.p + q.rho * q.u ** 2, q.u * (E + q.p)
        UL, UR, FL, FR = cons(a, a.g), cons(b, b.g), flux(a), flux(b)
        for nm, i, U in zip(("mass", "momentum", "energy"), range(3), cons(q, g)):
            w = float(-A * UL[i] + B * UR[i] + FL[i] - FR[i])
            mag = float(np.sum(ws * np.abs(U))) + abs(A * float(UL[i])) + abs(B * float(UR[i])) + abs(float(FL[i])) + abs(float(FR[i]))
            ck.close(nm + " integral", np.sum(ws * U), w, rtol=0, atol=(2e-6 + tolp * 10) * mag, case=case)
    ck.notes["wave patterns solved"] = dict(ck.notes.get("wave patterns solved", {}))


@prop("C03")
def c03(ck):
    us, inf = ck.module("aerokit.aero.unsteady1D"), ck.module("aerokit.instance.unsteady_inflow")
    ck.rule = "one decision per value of the computed inflow state, wave and speed of one solved problem"
    for n in ("inlet total pressure", "inlet total temperature", "right fastest wave", "common velocity", "wave in the internal state"):
        ck.require(n)
    r = ck.rng
    done = 0
    while done < ck.n(250, 4000):
        g = float(gen.gamma(ck, 1, 1.1, 1.67)[0])
        ur, up = gen.units(ck)
        rho, p = ur * 10.0 ** r.uniform(-2, 2), up * 10.0 ** r.uniform(-2, 4)
        a = np.sqrt(g * p / rho)
        u = float(r.uniform(-.94, .94) * a) if r.random() < .9 else 0.0
        m = S(rho, u, p, g)
        pt0 = float(m.Pt * r.choice([r.uniform(.8, 1.2), 10.0 ** r.uniform(0, 1.5), 1 + 10.0 ** r.uniform(-6, -2)]))
        if r.random() < .1:
            pt0 = float(m.Pt * (1 + 10.0 ** r.uniform(-15, -6)))
        rtt0 = float(m.rTt * r.choice([r.uniform(.5, 2), 1.0, 1 + 10.0 ** r.uniform(-6, -2), 4.0]))

        def du(pp):
            h = 2 * m.g / (m.g - 1) * l(rtt0) * (1 - np.exp((m.g - 1) / m.g * np.log(pp / l(pt0))))
            return m.u + fK(m, pp) - np.sqrt(np.maximum(h, 0))
        if not (du(l(pt0)) > 1e-9 * a and m.u - 2 * m.a / (m.g - 1) - np.sqrt(2 * m.g / (m.g - 1) * l(rtt0)) < 0):
            ck.skip("no inflow for these totals")
            continue
        done += 1
        ps = np.exp(ref.bisect(lambda v: du(np.exp(v)), np.array([0.], dtype=L), np.log(l(pt0)) - 60, np.log(l(pt0))))[0]
        us_ = m.u + fK(m, ps)
        case = [[rho, u, p, g], pt0, rtt0]
        form = r.choice([float, float, float, np.float64, np.array])
        v = [form(x) for x in (rho, u, p)]
        q = us.unsteady_state(*v) if g == 1.4 and r.random() < .3 else us.unsteady_state(*v, gamma=g)
        before = snap(q)
        pb = ck.call("inflow_pb", inf.inflow_pb, q)
        if not vals(pb):
            continue
        if done % 2 == 0:  # one object used several times
            for f in ((1.1, 1.2), (1, 1.2), (1.1, 1))[done // 2 % 3:][:int(r.integers(1, 3))]:
                ck.call("solve", pb.solve_with_pt0_rtt0, pt0 * f[0], rtt0 * f[1])
        if not vals(ck.call("solve", pb.solve_with_pt0_rtt0, form(pt0), form(rtt0))):
            continue
        sc = float(m.a / (m.g - 1) + np.sqrt(2 * g / (g - 1) * rtt0) + abs(m.u))
        slope = (du(ps * (1 + L(1e-6))) - du(ps * (1 - L(1e-6)))) / L(2e-6)
        tolp = float(1e-9 + 1e-11 * sc / slope)
        ql, qr = ck.call("qstarL", pb.qstarL), ck.call("qstarR", pb.qstarR)
        ck.close("star pressure", ck.call("pstar", pb.pstar), float(ps), rtol=tolp, case=case)
        ck.close("star velocity", ck.call("ustar", pb.ustar), float(us_), atol=1e-9 * sc, case=case)
        ck.true("flow enters", pb.ustar() >= -1e-9 * sc, case)
        if vals(ql, qr):
            ck.close("inlet total pressure", ck.call("Ptot", ql.Ptot), pt0, rtol=1e-8, case=case)
            ck.close("inlet total temperature", ck.call("rTtot", ql.rTtot), rtt0, rtol=1e-9, case=case)
            ck.close("inlet gas", ck.call("a", ql.asound) ** 2 * ql.rho / ql.p, g, rtol=1e-9, case=case)
            ck.close("common velocity", ql.u, qr.u, atol=1e-9 * sc, case=case)
            ck.close("common pressure", ql.p, qr.p, rtol=1e-7 + 100 * tolp, case=case)
            pr = l(qr.p)
            ck.close("wave in the internal state", qr.u, float(m.u + fK(m, pr)), atol=1e-9 * sc, case=case)
            w = fshock(m, pr)[1] if pr > m.p else fexp(m, pr)[1]
            ck.close("density behind the wave", qr.rho, float(w), rtol=1e-9, case=case)
            ck.close("gas behind the wave", ck.call("a", qr.asound) ** 2 * qr.rho / qr.p, g, rtol=1e-9, case=case)
            w = m.u + fshock(m, ps)[2] / m.rho if ps > m.p else m.u + m.a
            ck.close("right fastest wave", ck.call("right_fastest", pb.right_fastest), float(w), atol=1e-9 * sc + tolp * sc, case=case)
            ck.close("left limit is the entering contact", ck.call("left_fastest", pb.left_fastest), float(us_), atol=1e-9 * sc, case=case)
        ck.decide("given state is unchanged", same(before, snap(q)), case)
