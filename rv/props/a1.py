"""A01-A07: isentropic flow, mass flow, normal and oblique shocks."""
import numpy as np

from .. import gen, ref, scenes, specs
from ..core import prop, Failed
from ..specs import taps, of


def f(ck, mod, name):
    return getattr(ck.module("aerokit.aero." + mod), name)


def base(ck, pid, n, scenes_used=(), ns=2):
    """direct and nested observations of every contract of the property"""
    for s in of(pid):
        ck.require(s.name)
    with ck.tapped(taps(pid)):
        for s in of(pid):
            s.drive(ck, ck.n(n, n * 10))
        scenes.nested(ck, scenes_used, ck.n(ns, ns * 10))
    ck.rule = "each decided event is one completed call (direct or nested in another module) judged by its contract, or one relation between calls"


def vals(ck, *a):
    return not any(isinstance(x, Failed) for x in a)


@prop("A01")
def a01(ck):
    base(ck, "A01", 60, ("nozzle", "riemann", "states", "engines", "expansion"))
    m = "aerokit.aero.Isentropic"
    for k in range(ck.n(60, 800)):
        g = float(gen.gamma(ck, 1)[0])
        M = gen.mach(ck, 20, 0, 100)
        t, p = ck.call("TtTs", f(ck, "Isentropic", "TtTs_Mach"), M, g), ck.call("PtPs", f(ck, "Isentropic", "PtPs_Mach"), M, gamma=g)
        if not vals(ck, t, p):
            continue
        ck.true("ratios are at least one", (t >= 1) & (p >= 1), (M, g))
        ck.close("Pt/Ps is (Tt/Ts)**(g/(g-1))", np.log(p), g / (g - 1) * np.log(t), rtol=1e-10, atol=1e-12, case=(M, g))
        ck.close("Mach_TtTs inverts TtTs_Mach", ck.call("inv", f(ck, "Isentropic", "Mach_TtTs"), t, g), M, rtol=1e-9, atol=1e-7 / np.sqrt(g - 1), case=(M, g))
        ck.close("Mach_PtPs inverts PtPs_Mach", ck.call("inv", f(ck, "Isentropic", "Mach_PtPs"), p, g), M, rtol=1e-9, atol=1e-7 / np.sqrt(g - 1), case=(M, g),
                 where=np.isfinite(p) & (p < 1e250))
        Tt, r = float(gen.loguni(ck, 1, 1, 5e3)[0]), float(gen.loguni(ck, 1, .1, 5e3)[0])
        V = ck.call("V", f(ck, "Isentropic", "Velocity_MachTt"), M, Tt, r, g)
        if vals(ck, V):
            cp = g * r / (g - 1)
            ck.close("total enthalpy balance", cp * Tt / t + V ** 2 / 2, np.full(20, cp * Tt), rtol=1e-10, case=(M, Tt, r, g))
        # one Mach number, several temperatures or gases
        T = ck.rng.integers(1, 3000, 4)
        T = T if ck.rng.random() < .5 else T * float(ck.rng.uniform(.5, 1.5))
        R = int(ck.rng.integers(1, 900)) if ck.rng.random() < .5 else ck.rng.uniform(1, 900, 4)
        Mi = int(ck.rng.integers(1, 9)) if ck.rng.random() < .3 else float(M[0])
        V, ti = ck.call("V", f(ck, "Isentropic", "Velocity_MachTt"), Mi, T, R, g), 1 + (g - 1) / 2 * Mi ** 2
        if vals(ck, V):
            ck.close("total enthalpy balance", g * R / (g - 1) * T / float(ti) + V ** 2 / 2, g * R / (g - 1) * T, rtol=1e-10, case=(Mi, T, R, g))


@prop("A02")
def a02(ck):
    base(ck, "A02", 80, ("nozzle", "expansion"))
    S_, W = f(ck, "MassFlow", "Sigma_Mach"), f(ck, "MassFlow", "WeightMassFlow")
    for k in range(ck.n(80, 1000)):
        g = float(gen.gamma(ck, 1)[0])
        M = np.sort(gen.mach(ck, 24, .01, 100))
        s, w, w1 = ck.call("Sigma", S_, M, g), ck.call("W", W, M, gamma=g), ck.call("W", W, 1.0, gamma=g)
        if not vals(ck, s, w, w1):
            continue
        ck.close("area ratio is W(1)/W(M)", s, w1 / w, rtol=1e-10, case=(M, g))
        mirrored = ck.call("Sigma", S_, -M, g), ck.call("W", W, -M, gamma=g)
        ck.close("flow in the other direction", mirrored[0], -s, rtol=1e-12, case=(M, g))
        ck.close("flow in the other direction", mirrored[1], -w, rtol=1e-12, case=(M, g))
        ck.close("area ratio is one at Mach one", ck.call("Sigma", S_, 1.0, g), 1.0, rtol=1e-12, case=g)
        ck.true("area ratio at least one", s >= 1 - 1e-12, (M, g))
        sub, sup = s[M <= 1], s[M >= 1]
        ck.true("decreasing subsonic", np.diff(sub) <= 1e-12 * sub[:-1] if len(sub) > 1 else True, (M, g))
        ck.true("increasing supersonic", np.diff(sup) >= -1e-12 * sup[:-1] if len(sup) > 1 else True, (M, g))


@prop("A03")
def a03(ck):
    base(ck, "A03", 90, ("nozzle", "expansion"), 4)
    S_, I = f(ck, "MassFlow", "Sigma_Mach"), f(ck, "MassFlow", "Mach_Sigma")
    for k in range(ck.n(150, 1500)):  # the area ratio computed for an almost sonic flow is one up to rounding
        g = float(np.round(ck.rng.uniform(1.03, 1.9), 3))
        M = np.array([1.0, 1.0, *(1 + ck.rng.choice([-1, 1], 4) * 10.0 ** ck.rng.uniform(-16, -8, 4))])
        s = ck.call("Sigma", S_, M, g)
        if not vals(ck, s):
            continue
        i = int(ck.rng.integers(6))
        for x, q in ((s, M), (float(s[i]), M[i])):
            for n, r in (("MachSub_Sigma", ck.call("sub", f(ck, "MassFlow", "MachSub_Sigma"), x, g)), ("MachSup_Sigma", ck.call("sup", f(ck, "MassFlow", "MachSup_Sigma"), x, g)),
                         ("Mach_Sigma", ck.call("inv", I, x, .5, g)), ("Mach_Sigma", ck.call("inv", I, x, 2., g))):
                ck.close("sonic up to rounding", r, np.ones(np.shape(x)), atol=5e-3, case=(n, q, g))


@prop("A04")
def a04(ck):
    base(ck, "A04", 70, ("nozzle", "riemann", "states", "shocks", "polars"))
    sw = lambda n: f(ck, "ShockWave", n)
    for k in range(ck.n(80, 1000)):
        g = float(gen.gamma(ck, 1)[0])
        M = np.sort(gen.mach(ck, 16, 1, 100))
        p, r, t, m2, pt = (ck.call(n, sw(n), M, g) for n in ("Ps_ratio", "Rho_ratio", "Ts_ratio", "downstream_Mn", "Pt_ratio"))
        if not vals(ck, p, r, t, m2, pt):
            continue
        c = (M, g)
        # upstream rho=1, p=1/g, a=1, V=M
        p1, p2, V2 = 1 / g, p / g, m2 * np.sqrt(t)
        ck.close("conservation of mass", r * V2, M, rtol=1e-9, case=c)
        ck.close("conservation of momentum", p2 + r * V2 ** 2, p1 + M ** 2, rtol=1e-9, case=c)
        ck.close("conservation of total enthalpy", g / (g - 1) * p2 / r + V2 ** 2 / 2, 1 / (g - 1) + M ** 2 / 2, rtol=1e-9, case=c)
        ck.close("gas law", p, r * t, rtol=1e-10, case=c)
        ck.true("total pressure loss", pt <= 1 + 1e-9, c)
        ck.true("total pressure ratio decreases", np.diff(pt) <= 1e-9, c)
        ck.true("downstream subsonic", m2 <= 1 + 1e-12, c)
        ok = m2 ** 2 > (g - 1) / (2 * g) * (1 + 1e-6)
        ck.close("downstream Mach is an involution", ck.call("m2", sw("downstream_Mn"), m2, g), M, rtol=1e-6, case=c, where=ok & (M < 20))


@prop("A05")
def a05(ck):
    base(ck, "A05", 120, ("nozzle", "shocks"), 4)
    sw = lambda n: f(ck, "ShockWave", n)
    ck.require("no shock raises total pressure: reported")
    for k in range(ck.n(100, 1500)):
        g = float(gen.gamma(ck, 1, 1.05, 1.7)[0])
        if k % 10 == 0:
            q = 1 + float(10.0 ** ck.rng.uniform(-9, 2))
            x, out = ck.said("Mn_Pt_ratio above one", sw("Mn_Pt_ratio"), q, g)
            if vals(ck, x):
                ck.close("no shock raises total pressure: Mach one", x, 1.0, rtol=1e-12, case=(q, g))
                ck.true("no shock raises total pressure: reported", out, (q, g))
        M = float(np.clip(gen.mach(ck, 1, 1.001, 30)[0], 1.001, 30))
        ps, pt = ck.call("Ps_ratio", sw("Ps_ratio"), M, g), ck.call("Pt_ratio", sw("Pt_ratio"), M, gamma=g)
        if vals(ck, ps, pt):
            ck.close("Mn_Ps_ratio inverts Ps_ratio", ck.call("Mn_Ps_ratio", sw("Mn_Ps_ratio"), ps, g), M, rtol=1e-9, case=(M, g))
            ck.close("Mn_Pt_ratio inverts Pt_ratio", ck.call("Mn_Pt_ratio", sw("Mn_Pt_ratio"), pt, g), M, rtol=1e-6, case=(M, g))


@prop("A06")
def a06(ck):
    base(ck, "A06", 50, ("shocks", "polars"), 3)
    sw = lambda n: f(ck, "ShockWave", n)
    for k in range(ck.n(80, 1000)):
        g = float(gen.gamma(ck, 1)[0])
        M = float(max(1.02, gen.mach(ck, 1, 1.02, 1000)[0]))
        c = (M, g)
        mu = np.degrees(np.arcsin(1 / M))
        sig = mu + (90 - mu) * ck.rng.uniform(.001, .999, 15)
        d = ck.call("defl", sw("deflection_Mach_sigma"), M, sig, g)
        if not vals(ck, d):
            continue
        ck.close("mirrored shock, mirrored deflection", ck.call("defl", sw("deflection_Mach_sigma"), M, -sig, g), -d, rtol=1e-12, atol=1e-12, case=(c, -sig))
        mn = M * np.sin(np.radians(sig))
        rr, p = ck.call("Rho_ratio", sw("Rho_ratio"), mn, g), ck.call("Ps_ratio", sw("Ps_ratio"), mn, g)
        if vals(ck, rr, p):
            # tangential velocity preserved: tan(sig-d) = (Vn/r)/Vt
            ck.close("tangential velocity", np.tan(np.radians(sig - d)) * rr, np.tan(np.radians(sig)), rtol=1e-8, case=(c, sig))
            ok = p > 1 + 1e-6
            s2 = np.clip((mn * (1 - 0)) / M, 0, 1)
            ck.close("deflection from pressure ratio", ck.call("defl_p", sw("deflection_Mach_ShockPsratio"), M, p, g), d, rtol=1e-7, atol=1e-6,
                     case=(c, p), where=ok & (s2 < 1 - 1e-9))
        if k % 4 == 0:  # the shock of highest pressure is normal to the flow, up to rounding
            m = np.sort(gen.mach(ck, 20, 1.001, 100))
            pm = ck.call("Ps_ratio", sw("Ps_ratio"), m, g)
            if vals(ck, pm):
                pm = pm * (1 - ck.rng.choice([0, 1e-16, 1e-15], 20))
                for x, y in ((m, pm), (float(m[0]), float(pm[0]))):
                    ck.close("deflection of a normal shock", ck.call("defl_p", sw("deflection_Mach_ShockPsratio"), x, y, g), np.zeros(np.shape(x)), atol=2e-3, case=(x, y, g))
                    ck.close("downstream Mach of a normal shock", ck.call("down_p", sw("downstreamMach_Mach_ShockPsratio"), x, y, g), ref.down_mn(x, g).astype(float), rtol=1e-6, case=(x, y, g))
        dm, sm = ck.call("dev_Max", sw("dev_Max"), M, g), ck.call("sigma_DevMax", sw("sigma_DevMax"), M, gamma=g)
        if vals(ck, dm, sm):
            ck.true("detachment is the maximum deflection", d <= dm + 1e-8, (c, sig), {"max": dm, "seen": np.max(d)})
            ck.close("detachment point is on the polar", ck.call("defl", sw("deflection_Mach_sigma"), M, sm, g), dm, atol=1e-9, case=c)
        m1 = float(1 + ck.rng.choice([0, 10.0 ** ck.rng.uniform(-14, -2)]))  # limit of a Mach wave normal to the flow
        for n, w in (("sigma_DevMax", ref.sig_max), ("sigma_Sonic", ref.sig_sonic)):
            for q in (g, float(np.round(g, 3)), 1.317):
                ck.close("almost sonic upstream flow", ck.call(n, sw(n), m1, gamma=q), float(w(m1, q)), atol=1e-5, case=(n, m1, q))
        ss = ck.call("sigma_Sonic", sw("sigma_Sonic"), M, g)
        ds = ck.call("dev_Sonic", sw("dev_Sonic"), M, g)
        if vals(ck, ss, ds):
            mns = M * np.sin(np.radians(ss))
            m2 = ck.call("downstream_Mn", sw("downstream_Mn"), mns, g)
            ck.close("sonic point has Mach one downstream", m2 / np.sin(np.radians(ss - ds)), 1.0, rtol=1e-6, case=c)


@prop("A07")
def a07(ck):
    base(ck, "A07", 120, ("shocks",), 4)
    sw = lambda n: f(ck, "ShockWave", n)
    for n in ("weak: no solution gives the Mach angle", "strong: no solution gives 90"):
        ck.require(n)
    for k in range(ck.n(150, 2500)):
        g = float(gen.gamma(ck, 1, 1.05, 1.7)[0])
        M = float(max(1.01, gen.mach(ck, 1, 1.01, 50)[0]))
        dm = float(ref.defl(M, ref.sig_max(M, g), g))
        sm, mu = float(ref.sig_max(M, g)), float(ref.mu(M))
        kw = dict(gamma=g)
        if g == 1.4 and ck.rng.random() < .5:
            kw = {}
        d = dm * float(ck.rng.choice([ck.rng.random(), 1e-3, .3, .9, .99])) * .9995
        c = (M, d, g)
        w, s = ck.call("weak", sw("weaksigma_Mach_deflection"), M, d, **kw), ck.call("strong", sw("strongsigma_Mach_deflection"), M, d, **kw)
        if vals(ck, w, s):
            ck.true("weak angle between Mach angle and detachment", mu - 1e-6 <= w <= sm + 1e-6, c, w)
            ck.true("strong angle between detachment and 90", sm - 1e-6 <= s <= 90 + 1e-9, c, s)
            ck.close("weak reproduces the deflection", ref.defl(M, w, g), d, rtol=1e-6, atol=1e-6, case=c)
            ck.close("strong reproduces the deflection", ref.defl(M, s, g), d, rtol=1e-6, atol=1e-6, case=c)
        d = float(min(89.0, dm + ck.rng.choice([1e-3 * dm + 1e-6, .01, .1, 1, 10]) * (1 + ck.rng.random())))
        (w, ow), (s, os_) = ck.said("weak", sw("weaksigma_Mach_deflection"), M, d, **kw), ck.said("strong", sw("strongsigma_Mach_deflection"), M, d, **kw)
        if vals(ck, w, s):
            ck.true("no solution is reported", ow and os_, (M, d, g), {"weak": ow, "strong": os_})
            ck.close("weak: no solution gives the Mach angle", w, mu, rtol=1e-9, case=(M, d, g))
            ck.close("strong: no solution gives 90", s, 90.0, rtol=1e-12, case=(M, d, g))
        # user supplied initial angle close to the weak solution
        d = float(dm * ck.rng.uniform(.05, .95))
        w0 = float(ref.sig_weak(M, d, g)) if k % 5 == 0 else None
        if w0:
            sd = float(ck.rng.choice([-1., 1., 1.]))  # the sign of the deflection is that of the shock angle
            r = ck.call("iterative with initial angle", sw("sigma_Mach_deflection"), M, sd * d, init=w0 + .2 * ck.rng.uniform(-1, 1) * min(sm - w0, w0 - mu), **kw)
            ck.close("iterative with initial angle", r, sd * w0, atol=5e-4, case=(M, sd * d, g))
            # or close to the strong one
            s0 = float(ref.sig_strong(M, d, g))
            sd = float(ck.rng.choice([-1., 1., 1.]))
            r = ck.call("iterative with initial angle", sw("sigma_Mach_deflection"), M, sd * d, init=s0 + .2 * ck.rng.uniform(-1, 1) * min(s0 - sm, 90 - s0), **kw)
            ck.close("iterative with initial angle near the strong solution", r, sd * s0, atol=5e-4, case=(M, sd * d, g))
            # several deflections from one initial angle, or from one each
            ds = d * np.linspace(.985, 1, int(ck.rng.integers(2, 5)))
            for nm, sol in (("weak", ref.sig_weak), ("strong", ref.sig_strong)):
                w = np.array([float(sol(M, v, g)) for v in ds])
                i0 = w if ck.rng.random() < .5 else float(w[-1])
                if np.ndim(i0) == 0 and np.max(abs(w - i0)) > .2 * min(abs(sm - w).min(), *((w - mu) if nm == "weak" else (90 - w))):
                    continue
                r = ck.call("iterative with initial angle", sw("sigma_Mach_deflection"), M, ds, init=i0, **kw)
                ck.close("iterative, array with initial angle", r, w, atol=5e-4, case=(M, ds, g, nm))
