"""A08-A13: conical shocks, simple waves, Fanno, Rayleigh, thrust function."""
import numpy as np
from scipy.integrate import solve_ivp

from .. import gen, ref, scenes, specs
from ..core import prop, Failed
from .a1 import base, f, vals


def cone(M, sigma, g):
    """independent Taylor-Maccoll solution (velocity components): cone angle and surface Mach number"""
    s = np.radians(sigma)
    d = np.radians(float(ref.defl(M, sigma, g)))
    M2 = float(ref.down_mach_sigma(M, sigma, g))
    V = 1 / np.sqrt(2 / ((g - 1) * M2 ** 2) + 1)  # V/Vmax
    y0 = [V * np.cos(s - d), -V * np.sin(s - d)]

    def rhs(t, y):
        vr, vt = y
        a2 = (g - 1) / 2 * (1 - vr * vr - vt * vt)
        return [vt, (vt * vt * vr - a2 * (2 * vr + vt / np.tan(t))) / (a2 - vt * vt)]

    def hit(t, y):
        return y[1]
    hit.terminal, hit.direction = True, 1
    r = solve_ivp(rhs, (s, 1e-9), y0, method="DOP853", rtol=1e-11, atol=1e-13, events=hit)
    if len(r.t_events[0]) == 0:
        return None
    v2 = r.y_events[0][0][0] ** 2
    return np.degrees(r.t_events[0][0]), np.sqrt(2 / (g - 1) * v2 / (1 - v2))


def cone_weak_max(M, g):
    """shock angle of the largest cone angle (end of the weak branch), coarse"""
    mu = float(ref.mu(M))
    s = mu + (90 - mu) * np.linspace(.02, .98, 25)
    c = [(cone(M, x, g) or (0, 0))[0] for x in s]
    return s[int(np.argmax(c))], max(c)


@prop("A08")
def a08(ck):
    sw = lambda n: f(ck, "ShockWave", n)
    ck.module("aerokit.common._ode")
    C, SI, MI = "conical cone angle", "conical shock angle inversion", "conical Mach inversion"
    for n in (C, SI, MI, "detached cone: reported", "no deflection: Mach wave"):
        ck.require(n)
    ck.rule = "a decision compares one returned angle or Mach number with an independent Taylor-Maccoll integration (DOP853, velocity formulation)"
    near = 0
    for k in range(ck.n(300, 6000)):
        g = float(gen.gamma(ck, 1, 1.1, 1.67)[0])
        M = float(np.clip(gen.mach(ck, 1, 1.05, 20)[0], 1.05, 20))
        if k % 4 == 0:
            g, M = 1.4, float(ck.rng.choice([1.5, 2.0, 3.0, 5.0]))
        mu = float(ref.mu(M))
        fr = float(ck.rng.choice([ck.rng.uniform(.002, 1), ck.rng.uniform(.5, .99), ck.rng.uniform(.002, .2), 1e-3]))
        if k % 32 == 16:  # almost normal shocks take thousands of small steps
            fr = .999
        s = mu + fr * (90 - mu)
        kw = {} if g == 1.4 and ck.rng.random() < .5 else {"gamma": g}
        want = cone(M, s, g)
        if want is None:
            ck.skip(C)
            continue
        near += fr == .999
        got = ck.call(C, sw("conical_deflection_Mach_sigma"), M, s, limit=1_000_000, **kw)
        ck.close(C, got, want[0], atol=2e-3, case=(M, s, g))
        if k % 12 == 0:
            ck.close("conical at 90 degrees", ck.call(C, sw("conical_deflection_Mach_sigma"), M, 90.0, limit=1_000_000, **kw), 0.0, atol=0.02, case=(M, 90.0, g))
    ck.notes["almost normal conical shocks"] = near
    for k in range(ck.n(16, 200)):  # a Mach wave: no cone
        M = float(ck.rng.choice([1.05, 1.2, 1.5, 2., 3., 5., 20.])) if k % 2 else float(ck.rng.uniform(1.05, 20))
        kw = {} if k % 3 == 0 else {"gamma": float(gen.gamma(ck, 1, 1.1, 1.67)[0])}
        mu = float(ref.mu(M))
        ck.close("Mach wave: no deflection", ck.call(C, sw("conical_deflection_Mach_sigma"), M, mu, limit=200_000, **kw), 0.0, atol=1e-6, case=(M, mu, kw))
        ck.close("no deflection: Mach wave", ck.call(SI, sw("conical_sigma_Mach_walldeflection"), M, 0.0, limit=1_000_000, **kw), mu, atol=5e-3, case=(M, 0., kw))
        ck.close("no deflection: sonic normal Mach number", ck.call(MI, sw("conical_Mach_walldeflection_sigma"), 0.0, mu, limit=1_000_000, **kw), M, rtol=2e-3, case=(0., mu, kw))
    for k in range(ck.n(6, 60)):  # steep shocks and usual ones in turn: a computation knows nothing of the one before
        g = 1.4 if k % 2 else float(gen.gamma(ck, 1, 1.1, 1.67)[0])
        for s in (88.5, 90.0, float(ck.rng.uniform(40, 80)), float(ck.rng.uniform(84, 89)), float(ck.rng.uniform(30, 80))):
            M = float(ck.rng.uniform(1.2, 6) / np.sin(np.radians(s))) if s < 90 else float(ck.rng.choice([3., 5., 5.]))
            want = cone(M, s, g) if s < 90 else (0.0,)
            if want is not None:
                ck.close(C + " after another", ck.call(C, sw("conical_deflection_Mach_sigma"), M, s, gamma=g, limit=1_000_000), want[0], atol=2e-3 if s < 90 else .02, case=(M, s, g))
    for k in range(ck.n(60, 1500)):
        g = float(gen.gamma(ck, 1, 1.1, 1.67)[0])
        M = float(np.clip(gen.mach(ck, 1, 1.05, 20)[0], 1.05, 20))
        if k % 4 == 0:
            g, M = 1.4, float(ck.rng.choice([1.5, 2.0, 3.0, 5.0]))
        mu = float(ref.mu(M))
        kw = {} if g == 1.4 and ck.rng.random() < .5 else {"gamma": g}
        sm, cm = cone_weak_max(M, g)
        s = mu + float(ck.rng.uniform(.05, .9)) * (sm - mu)
        if k % 6 == 1 and cm * 1.03 < 85:
            got, out = ck.said(SI, sw("conical_sigma_Mach_walldeflection"), M, float(cm * ck.rng.uniform(1.03, 1.3)), limit=6_000_000, **kw)
            if not isinstance(got, Failed):
                ck.close("detached cone: 90 degrees", got, 90.0, rtol=1e-12, case=(M, cm, g))
                ck.true("detached cone: reported", out, (M, cm, g))
        c = cone(M, s, g)
        if c is None or c[0] > .985 * cm:
            ck.skip(SI)
            continue
        got = ck.call(SI, sw("conical_sigma_Mach_walldeflection"), M, float(c[0]), limit=4_000_000, **kw)
        ck.close(SI, got, s, atol=5e-3, case=(M, c[0], g))
        got = ck.call(MI, sw("conical_Mach_walldeflection_sigma"), float(c[0]), s, limit=4_000_000, **kw)
        ck.close(MI, got, M, rtol=2e-3, case=(c[0], s, g))


@prop("A09")
def a09(ck):
    base(ck, "A09", 90, ("expansion", "polars"), 4)
    PM, IN, MM = (f(ck, "Supersonic", n) for n in ("PrandtlMeyer_Mach", "Mach_PrandtlMeyer", "Mach_PMFmmu"))
    for k in range(ck.n(60, 800)):
        g = float(gen.gamma(ck, 1, 1.05, 2)[0])
        M = np.sort(gen.mach(ck, 12, 1, 60))
        w = ck.call("PM", PM, M, g)
        if not vals(ck, w):
            continue
        ck.close("vanishes at Mach one", ck.call("PM", PM, 1.0, g), 0.0, atol=1e-12, case=g)
        near = 1 + ck.rng.choice([-1, 1], 8) * 10.0 ** ck.rng.uniform(-16, -14, 8)
        for x in (near, float(near[0])):
            ck.close("sonic up to rounding", ck.call("PM", PM, x, g), np.zeros(np.shape(x)), atol=1e-5, case=(x, g))
        a = ck.rng.uniform(1.2, 12, 10)
        h = 1e-4
        w1, w2 = ck.call("PM", PM, a - h, gamma=g), ck.call("PM", PM, a + h, gamma=g)
        if vals(ck, w1, w2):
            ck.close("derivative of a simple wave", (w2 - w1) / (2 * h), ref.dpm_dM(a, g).astype(float), rtol=3e-6, atol=1e-7, case=(a, g))
        ck.close("inverse of the angle", ck.call("inv", IN, w, g), M, rtol=1e-7, case=(M, g))
        mu = np.degrees(np.arcsin(1 / M))
        if g < 1.67:  # the former inversion, by the secant method: far enough from the sonic point
            m = 1.25 + 10.0 ** ck.rng.uniform(-3, 1.4, 4)
            with np.errstate(all="ignore"):
                for x in (m, float(m[0])):
                    ck.close("former inversion", ck.call("old_Mach_PrandtlMeyer", f(ck, "Supersonic", "old_Mach_PrandtlMeyer"), ref.pm(x, g).astype(float), g), x, rtol=2e-5, case=(x, g))
        ck.close("Mach from angle minus Mach angle", ck.call("PMFmmu", MM, w - mu, g), M, rtol=1e-8, case=(M, g))


@prop("A10")
def a10(ck):
    base(ck, "A10", 90, ("expansion", "polars"), 4)
    D, R = f(ck, "Supersonic", "deflection_Mach_IsentropicPsratio"), f(ck, "Supersonic", "IsentropicPsratio_Mach_deflection")
    for k in range(ck.n(80, 1000)):
        g = float(gen.gamma(ck, 1, 1.05, 1.7)[0])
        v = specs._mach_turn(ck, 10, np.full(10, g))
        M, d = v["Mach"], v["dev"]
        kw = {} if g == 1.4 and ck.rng.random() < .5 else {"gamma": g}
        lim = ck.call("PtPs", f(ck, "Isentropic", "PtPs_Mach"), M, **kw), ck.call("PtPs", f(ck, "Isentropic", "PtPs_Mach"), 1.0, **kw)
        if vals(ck, *lim):  # the wave of highest pressure brings the flow back to Mach one, up to rounding
            x = lim[0] / lim[1]
            for m, y in ((M, x), (float(M[0]), float(x[0]))):
                ck.close("wave down to Mach one", ck.call("deflection", D, m, y, **kw), -ref.pm(m, g).astype(float), rtol=1e-7, atol=1e-5, case=(m, g))
        p = ck.call("ratio", R, M, d, **kw)
        if not vals(ck, p):
            continue
        ck.true("compression raises pressure", (p > 1)[d > 1e-6], (M, d, g))
        ck.true("expansion lowers pressure", (p < 1)[d < -1e-6], (M, d, g))
        lim = (ref.ptps(M, g) / ref.ptps(1, g)).astype(float)
        ok = (p < lim * (1 - 1e-9)) & (p > 1e-10)
        if np.any(ok):
            M, d, p = M[ok], d[ok], p[ok]
            q = ck.call("deflection", D, M, p, **kw)
            near = (lim[ok] / p - 1)  # sonic end: deflection behaves as the 3/2 power
            ck.close("both functions describe the same wave", q, -d, rtol=1e-7, atol=1e-5, case=(M, d, g), where=near > 1e-6)


@prop("A11")
def a11(ck):
    base(ck, "A11", 50, ("heat_friction",), 5)
    F = lambda n: f(ck, "Fanno", n)
    for k in range(ck.n(50, 600)):
        g = float(gen.gamma(ck, 1)[0])
        M = gen.mach(ck, 16, .02, 50) if k % 4 else gen.loguni(ck, 16, 1e-8, 10.0 ** min(5.0, 140 * (g - 1) / g - .5))
        P, T, R, V, Pi, S, Fp = (ck.call(n, F(n), M, g) for n in ("Ps_Pscri", "Ts_Tscri", "Rho_Rhocri", "V_Vcri", "Pi_Picri", "NormdS", "maxFparam_Mach"))
        if not vals(ck, P, T, R, V, Pi, S, Fp):
            continue
        c = (M, g)
        ck.close("gas law", P, R * T, rtol=1e-10, case=c)
        ck.close("constant mass flux", R * V, np.ones(16), rtol=1e-10, case=c)
        ck.close("constant total temperature", T * (1 + (g - 1) / 2 * M ** 2), np.full(16, (g + 1) / 2), rtol=1e-10, case=c)
        ck.close("velocity is Mach times sound speed", V, M * np.sqrt(T), rtol=1e-10, case=c)
        ck.true("entropy is maximum at Mach one", S <= 1e-12, c)
        ck.true("friction parameter is not negative", Fp >= -1e-12, c)
        ck.close("total pressure loss gives the entropy", S, -(g - 1) / g * np.log(Pi), rtol=1e-8, atol=1e-10, case=c)
        for n in ("Ps_Pscri", "Ts_Tscri", "Rho_Rhocri", "V_Vcri", "Pi_Picri"):
            ck.close("one at Mach one", ck.call(n, F(n), 1.0, g), 1.0, rtol=1e-12, case=(n, g))
        ck.close("zero at Mach one", ck.call("NormdS", F("NormdS"), 1.0, g), 0.0, atol=1e-12, case=g)
        ck.close("zero at Mach one", ck.call("maxF", F("maxFparam_Mach"), 1.0, g), 0.0, atol=1e-12, case=g)
        # momentum balance dp + rho V dV = -(gamma M^2 p/2) * dF, dF the friction parameter 4f dx/D
        a = ck.rng.uniform(.2, 4, 8)
        h = 1e-4 * a
        lo, hi = a - h, a + h
        vals_ = [ck.call(n, F(n), x, g) for n in ("Ps_Pscri", "V_Vcri", "maxFparam_Mach") for x in (lo, a, hi)]
        if vals(ck, *vals_):
            p0, p1, p2, v0, v1, v2, f0, f1, f2 = vals_
            lhs = (p2 - p0) + g * p1 * a ** 2 / v1 * (v2 - v0)
            ck.close("friction momentum balance", lhs, g * a ** 2 * p1 / 2 * (f2 - f0), rtol=1e-5, atol=1e-8, case=(a, g))


@prop("A12")
def a12(ck):
    base(ck, "A12", 50, ("heat_friction",), 5)
    F = lambda n: f(ck, "Rayleigh", n)
    for k in range(ck.n(50, 600)):
        g = float(gen.gamma(ck, 1)[0])
        M = gen.mach(ck, 16, .02, 50) if k % 4 else gen.loguni(ck, 16, 1e-8, 10.0 ** min(5.0, 140 * (g - 1) / g - .5))
        P, T, R, V, Ti, Pi, S = (ck.call(n, F(n), M, g) for n in ("Ps_Pscri", "Ts_Tscri", "Rho_Rhocri", "V_Vcri", "Ti_Ticri", "Pi_Picri", "NormdS"))
        if not vals(ck, P, T, R, V, Ti, Pi, S):
            continue
        c = (M, g)
        ck.close("gas law", P, R * T, rtol=1e-10, case=c)
        ck.close("constant mass flux", R * V, np.ones(16), rtol=1e-10, case=c)
        ck.close("constant impulse", P * (1 + g * M ** 2), np.full(16, 1 + g), rtol=1e-10, case=c)
        ck.close("velocity is Mach times sound speed", V, M * np.sqrt(T), rtol=1e-10, case=c)
        t = (1 + (g - 1) / 2 * M ** 2) / ((g + 1) / 2)
        ck.close("total temperature ratio", Ti, T * t, rtol=1e-10, case=c)
        ck.close("total pressure ratio", np.log(Pi), np.log(P) + g / (g - 1) * np.log(t), rtol=1e-9, atol=1e-10, case=c)
        ck.close("entropy of the ratios", S, np.log(T) - (g - 1) / g * np.log(P), rtol=1e-9, atol=1e-11, case=c)
        for n in ("Ps_Pscri", "Ts_Tscri", "Rho_Rhocri", "V_Vcri", "Ti_Ticri", "Pi_Picri"):
            ck.close("one at Mach one", ck.call(n, F(n), 1.0, g), 1.0, rtol=1e-12, case=(n, g))
        rest = [0.0, np.float64(0), np.zeros(3), np.array([0.0, .5])][k % 4]  # heating starts from a gas at rest
        first = lambda n: (lambda v: v if isinstance(v, Failed) else np.ravel(v)[0])(ck.call(n, F(n), rest, g))
        for n, w in (("Ps_Pscri", g + 1), ("Ts_Tscri", 0.0), ("Ti_Ticri", 0.0), ("V_Vcri", 0.0), ("Pi_Picri", (g + 1) * (2 / (g + 1)) ** (g / (g - 1))), ("SubMach_TiTicri", 0.0)):
            ck.close("gas at rest", first(n), w, rtol=1e-12, case=(n, rest, g))
        q = float(np.round(g, 3))
        near = np.array([1.0, 1.0, *(1 + ck.rng.choice([-1, 1], 4) * 10.0 ** ck.rng.uniform(-16, -8, 4))])
        x = ck.call("Ti", F("Ti_Ticri"), near, q)
        if vals(ck, x):  # one up to rounding
            for n in ("SubMach_TiTicri", "SupMach_TiTicri"):
                ck.close("sonic up to rounding", ck.call(n, F(n), x, q), np.ones(6), atol=1e-5, case=(n, near, q))
                ck.close("sonic up to rounding", ck.call(n, F(n), float(x[0]), q), 1.0, atol=1e-5, case=(n, 1.0, q))
        ck.close("maximum heating at default gamma", ck.call("maxTi", F("maxTiratio_Mach"), M), 1 / ref.rayleigh.Ti(M, 1.4).astype(float), rtol=1e-10, case=M)


@prop("A13")
def a13(ck):
    base(ck, "A13", 200)
    T, I = f(ck, "Propulsion", "ThrustFunction"), f(ck, "Propulsion", "Mach_ThrustFunction")
    ck.require("inverse of the thrust function")
    for k in range(ck.n(120, 2000)):
        g = float(gen.gamma(ck, 1, 1.05, 1.7)[0])
        sup = ck.rng.random() < .5
        M = float(np.clip(gen.mach(ck, 1, 1.001 if sup else 1e-3, 1000 if sup else .999)[0], 1e-3, 1000))
        m0 = float(ck.rng.uniform(1.01, 10) if sup else ck.rng.uniform(.05, .99))
        q = float(np.round(g, 3))
        near = np.array([1.0, 1.0, *(1 + ck.rng.choice([-1, 1], 4) * 10.0 ** ck.rng.uniform(-16, -8, 4))])
        x = ck.call("thrust", T, near, q)
        if vals(ck, x):  # least thrust up to rounding
            for y, w in ((x, np.ones(6)), (float(x[2]), 1.0)):
                ck.close("sonic up to rounding", ck.call("inv", I, y, m0, q), w, atol=1e-5, case=(near, m0, q))
        t = ck.call("thrust", T, M, g)
        if vals(ck, t):
            e = 1e-6 if abs(M - 1) > .01 else 1e-4
            ck.close("inverse of the thrust function", ck.call("inv", I, t, m0, g), M, rtol=e, case=(M, m0, g))
            # impulse is conserved through a normal shock while total pressure drops
            if sup:
                m2, pt = float(ref.down_mn(M, g)), float(ref.pt_ratio(M, g))
                t2 = ck.call("thrust", T, m2, g)
                ck.close("impulse conserved through a shock", t2, t, rtol=1e-8, case=(M, g))
