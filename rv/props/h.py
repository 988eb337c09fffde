"""Real gas data (H01), degree trigonometry (H02), default gas (H03), variable denominations (H04)."""
import contextlib
import copy
import io
import math
import re

import numpy as np

from .. import core, gen, scenes, specs
from ..core import Failed, prop
from ..ref import L

# --------------------------------------------------------------------------- H01
# air at low density (JANAF / Keenan and Kaye): T [K], Cp [J/kg/K]
AIR_CP = ((250, 1003.1), (300, 1004.9), (400, 1013.5), (500, 1029.5), (600, 1051.1), (800, 1098.9), (1000, 1141.1), (1200, 1175.2),
          (1500, 1211.2), (1800, 1238.), (2000, 1252.))
# enthalpy of air above 0 K [J/kg]
AIR_H = ((300, 300.2e3), (500, 503.0e3), (1000, 1046.0e3), (1500, 1636.0e3), (2000, 2252.1e3))


def deriv(f, T, h):
    """Richardson extrapolated central difference and an estimate of its error"""
    d = lambda s: (f(T + s) - f(T - s)) / (2 * s)
    a, b, c = d(h), d(h / 2), d(h / 4)
    r1, r2 = (4 * b - a) / 3, (4 * c - b) / 3
    return (16 * r2 - r1) / 15, abs(r2 - r1)


@prop("H01")
def h01(ck):
    ck.assumptions += ["entropy and enthalpy are compared with heat capacity to the relative precision 2e-5 of the published coefficients"]
    rg, ke = ck.module("aerokit.aero.ThermoRealGas"), ck.module("aerokit.aero.ThermoKerosen")
    R = rg.rconst
    ck.close("gas constant of air", [rg.rconst, ke.r_air], [287.04, 287.04], rtol=2e-3)
    r = ck.rng
    for m in ("air dH/dT = Cp", "air dPhi/dT = Cp/(r T ln10)", "air gamma of Cp", "kerosene dH/dT = Cp", "kerosene dPhi/dT = Cp/(r T ln10)",
              "effective heating value"):
        ck.require(m, 200)

    def val(mech, f, *a):
        v = ck.call(mech, f, *a)
        return None if isinstance(v, Failed) else v

    for k in range(ck.n(800, 60000)):
        T = float(r.uniform(200, 3000)) if k % 8 else float(r.choice([200, 250, 298.15, 300, 500, 1000, 1500, 2000, 2500, 3000]))
        if k % 11 == 0:
            T = int(T)
        h = float(r.uniform(1, 6))
        for tag, mod, scale in (("air", rg, 1), ("kerosene", ke, 1)):
            cp = val(tag + " Cp", mod.Cp, T)
            if cp is None:
                continue
            d, e = deriv(lambda t: float(val(tag + " Enthalpy", mod.Enthalpy, t)), T, h)
            ck.close(tag + " dH/dT = Cp", d, cp, rtol=2e-5, atol=4 * e + 1e-6, case=(T, h))
            d, e = deriv(lambda t: float(val(tag + " Phi", mod.Phi, t)), T, h)
            ck.close(tag + " dPhi/dT = Cp/(r T ln10)", d * T * math.log(10) * R, cp, rtol=2e-5, atol=(4 * e + 1e-12) * T * R * 2.4, case=(T, h))
        cp, g = val("air Cp", rg.Cp, T), val("air Gamma", rg.Gamma, T)
        if cp is not None and g is not None:
            ck.close("air gamma of Cp", g, cp / (cp - R), rtol=1e-10, case=T)
        d, e = deriv(lambda t: float(val("Pc_eff", ke.Pc_eff, t)), T, h)
        ck.close("effective heating value", -d, val("kerosene Cp", ke.Cp, T), rtol=2e-5, atol=4 * e + 1e-4, case=(T, h))
        T2 = float(r.uniform(200, 3000))
        ck.close("heating value and enthalpy", ke.Pc_eff(T) + ke.Enthalpy(T), ke.Pc_eff(T2) + ke.Enthalpy(T2), rtol=1e-6, case=(T, T2))
        # monotone in temperature: heat capacity of air above 250 K, enthalpy, entropy
        lo, hi = sorted((T, T2))
        if hi - lo > 1:
            for tag, mod in (("air", rg), ("kerosene", ke)):
                ck.true(tag + " enthalpy and entropy increase", mod.Enthalpy(lo) < mod.Enthalpy(hi) and mod.Phi(lo) < mod.Phi(hi), (lo, hi))
            ck.true("heating value decreases", ke.Pc_eff(lo) > ke.Pc_eff(hi), (lo, hi))
            ck.true("air gamma decreases", lo < 300 or rg.Gamma(lo) > rg.Gamma(hi), (lo, hi))
    for T, c in AIR_CP:
        ck.close("air Cp table", rg.Cp(T), c, rtol=.008, case=T)
        ck.close("air gamma table", rg.Gamma(T), c / (c - 287.04), rtol=.004, case=T)
    for T, hh in AIR_H:
        ck.close("air enthalpy table", rg.Enthalpy(T), hh, rtol=.008, case=T)
    ck.close("lower heating value of kerosene", ke.Pc_inf(), 43.1e6, rtol=2e-3)
    ck.close("effective heating value near ambient", ke.Pc_eff(300.), ke.Pc_inf(), rtol=.02)


# --------------------------------------------------------------------------- H02
PI = L("3.14159265358979323846264338327950288")


def _angles(ck, n):
    r = ck.rng
    a = r.uniform(-720, 720, n)
    k = r.random(n)
    a = np.where(k < .2, r.integers(-48, 49, n) * 15.0, a)
    a = np.where((k >= .2) & (k < .35), np.sign(a) * gen.loguni(ck, n, 1e-12, 1e-2), a)
    a = np.where((k >= .35) & (k < .5), np.sign(a) * gen.loguni(ck, n, 1e3, 1e6), a)
    return np.where((k >= .5) & (k < .6), r.integers(-8, 9, n) * 90.0 + r.choice([-1, 1], n) * gen.loguni(ck, n, 1e-9, 1e-2), a)


@prop("H02")
def h02(ck):
    ck.assumptions += ["an angle is converted to radians with a relative error of at most 2 ulp"]
    dg = ck.module("aerokit.aero.degree")
    r = ck.rng
    for m in ("cos", "sin", "tan", "acos", "asin", "atan", "atan2", "sin(asin)", "cos(acos)", "atan2 quadrant"):
        ck.require(m, 20)
    eps = 2.3e-16
    for k in range(ck.n(250, 6000)):
        form = str(r.choice(gen.SCALAR_FORMS + gen.ARRAY_FORMS))
        n = 30 if form != "large" else 400
        x = gen.as_form(ck, _angles(ck, n), form)
        X = np.fmod(np.asarray(x, L), L(360))
        t = X * PI / 180
        dx = 3 * eps * np.abs(np.asarray(x, float)) * float(PI) / 180 + eps * 4
        s, c = np.sin(t), np.cos(t)
        for f, w, tol in (("cos", c, dx), ("sin", s, np.minimum(dx, 3 * eps + 3 * eps * np.abs(np.asarray(x, float)))),
                          ("tan", s / c, dx / np.asarray(np.maximum(c * c, 1e-30), float) * 1.5)):
            ok = np.abs(np.asarray(c, float)) > 1e-7 if f == "tan" else None
            ck.close(f, ck.call(f, getattr(dg, f), x), np.asarray(w, float), rtol=4e-16, atol=tol, case=x, where=ok)
        y = r.uniform(-1, 1, n)
        y = np.where(r.random(n) < .2, r.choice([-1., 0., 1., .5, -.5, .25], n), y)
        y = np.where(r.random(n) < .1, np.sign(y) * (1 - gen.loguni(ck, n, 1e-12, 1e-2)), y)
        y = gen.as_form(ck, y, form)
        Y = np.asarray(y, L)
        for f, w, lo, hi in (("acos", np.arccos(Y), 0, 180), ("asin", np.arcsin(Y), -90, 90), ("atan", np.arctan(Y), -90, 90)):
            v = ck.call(f, getattr(dg, f), y)
            ck.close(f, v, np.asarray(w * 180 / PI, float), rtol=5e-16, atol=1e-300, case=y)
            if not isinstance(v, Failed):
                ck.true(f + " principal range", (np.asarray(v) >= lo) & (np.asarray(v) <= hi), y)
        if form in gen.ARRAY_FORMS:  # no angle has a sine beyond one
            far = np.asarray(r.choice([-1, 1], 6) * (1 + 10.0 ** r.uniform(-9, 3, 6)))
            with np.errstate(invalid="ignore"):
                ck.true("no angle beyond one", np.isnan(dg.asin(far)) & np.isnan(dg.acos(far)), far)
        ck.close("sin(asin)", ck.call("sin", dg.sin, dg.asin(y)), np.asarray(Y, float), atol=3e-16, rtol=3e-16, case=y)
        ck.close("cos(acos)", ck.call("cos", dg.cos, dg.acos(y)), np.asarray(Y, float), atol=5e-16, rtol=3e-16, case=y)
        z = gen.as_form(ck, r.choice([-1, 1], n) * gen.loguni(ck, n, 1e-8, 1e12), form)
        ck.close("atan", ck.call("atan", dg.atan, z), np.asarray(np.arctan(np.asarray(z, L)) * 180 / PI, float), rtol=5e-16, case=z)
        # two arguments: every quadrant, axes and signed zeros
        a, b = r.normal(0, 3, n), r.normal(0, 3, n)
        a = np.where(r.random(n) < .15, r.choice([0.0, -0.0, 1, -1], n), a)
        b = np.where(r.random(n) < .15, r.choice([0.0, -0.0, 1, -1], n), b)
        a, b = (gen.as_form(ck, a, form), gen.as_form(ck, b, form)) if r.random() < .7 or form in gen.SCALAR_FORMS else (gen.as_form(ck, a, form), float(b[0]))
        A, B = np.broadcast_arrays(np.asarray(a, L), np.asarray(b, L))
        v = ck.call("atan2", dg.atan2, a, b)
        ck.close("atan2", v, np.asarray(np.arctan2(A, B) * 180 / PI, float), rtol=5e-16, atol=1e-300, case=(a, b))
        if not isinstance(v, Failed):
            h = np.hypot(A, B).astype(float)
            w = np.asarray(v, float)
            ck.true("atan2 quadrant", np.where(h > 0, (np.sin(w * np.pi / 180) * A.astype(float) >= -1e-12) & (np.cos(w * np.pi / 180) * B.astype(float) >= -1e-12), True)
                    & (np.abs(w) <= 180), (a, b))


# --------------------------------------------------------------------------- H03
@contextlib.contextmanager
def default_gas(defg, g, r):
    """the configuration the check asks for, put back afterwards whatever happened"""
    keep = {n: getattr(defg, n, None) for n in ("_gamma", "_r", "_saved_gamma", "_saved_r")}
    defg.set_gamma(g)
    defg.set_r_ideal(r)
    try:
        yield
    finally:
        for n, v in keep.items():
            if v is None:
                if hasattr(defg, n):
                    delattr(defg, n)
            else:
                setattr(defg, n, v)


def pack(x):
    """comparable content of a result"""
    if isinstance(x, Failed):
        return ("raised", type(x.exc).__name__)
    if isinstance(x, (list, tuple)):
        return tuple(pack(v) for v in x)
    if isinstance(x, dict):
        return tuple((k, pack(v)) for k, v in sorted(x.items()))
    if hasattr(x, "rho") and hasattr(x, "p"):
        return pack([x.rho, x.u, x.p, x._gamma])
    a = np.asarray(x)
    return (a.shape, a.astype(float).tobytes()) if a.dtype.kind in "iufb" else (a.shape, a.astype(complex).tobytes())


def near(x, y, tol=1e-12):
    """same content to round-off"""
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        return len(x) == len(y) and all(near(a, b, tol) for a, b in zip(x, y))
    if isinstance(x, Failed) or isinstance(y, Failed):
        return isinstance(x, Failed) and isinstance(y, Failed)
    a, b = np.asarray(x, float), np.asarray(y, float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=tol, atol=1e-13, equal_nan=True))


def explicit_scene(ck, r, g):
    """computations of every part of the package with all gas properties given"""
    nz, rp, us, md, inf = (ck.module("aerokit." + m) for m in ("instance.nozzle", "instance.riemann", "aero.unsteady1D", "aero.model1D",
                                                                  "instance.unsteady_inflow"))
    sw, tj, tf, gg = (ck.module("aerokit." + m) for m in ("aero.ShockWave", "engine.turbojet", "engine.turbofan", "engine.gasgenerator"))
    eu = ck.module("aerokit.stability.Euler")
    k = int(r.integers(6))
    if k == 0:
        x = np.linspace(0, 1, 12)
        sec = 1 + 3 * (x - r.uniform(.3, .6)) ** 2
        opt = {}
        if r.random() < .5:
            opt["AsoAc"] = float(sec[-1] / sec.min() * r.choice([1., 1.2]))
        if r.random() < .5:
            opt["ref_rttot"] = float(r.uniform(1, 1e5))
        if r.random() < .5:
            opt["scale_ps"] = float(r.uniform(.1, 10))
        o = nz.nozzle(x, sec, gamma=g, **opt, **({"NPR": float(r.uniform(1.02, 6))} if r.random() < .5 else {}))
        o.set_NPR(float(r.uniform(1.02, 6)))
        a, npr = float(r.uniform(1.1, 4)), float(r.uniform(1.01, 8))
        return [o.NPR0, o.NPRsw, o.NPR1, o.Mach(), o.Ps(), o.Ptot(), nz.Ms_from_AsAc_NPR(a, npr, gamma=g), nz.Madapt_from_AsAc_NPR(a, npr, gamma=g),
                nz.NPR_choked_subsonic(a, g), nz.NPR_choked_supersonic(a, gamma=g), nz.NPR_shock_at_exit(a, g)]
    if k == 1:
        q = [us.unsteady_state(float(r.uniform(.5, 2)), float(r.uniform(-.3, .3)), float(r.uniform(.5, 2)), gamma=g) for _ in range(2)]
        pb = rp.riemann_pb(*q)
        s = pb.qsol(np.linspace(-2, 2, 9))
        ip = inf.inflow_pb(q[0])
        ip.solve_with_pt0_rtt0(float(q[0].Ptot() * 1.3), float(q[0].rTtot()))
        return [pb.pstar(), pb.ustar(), pb.left_fastest(), pb.right_fastest(), s.rho, s.u, s.p, s.Mach(), ip.pstar(), ip.ustar(), ip.qstarL().rho]
    if k == 2:
        a = md.state(float(r.uniform(.5, 2)), float(r.uniform(2, 4)), float(r.uniform(.2, 1)), gamma=g)
        b, c = a.state_RH(), a.state_isentropic_Mach(float(r.uniform(.2, 2)))
        out = [a.Mach(), a.Ptot(), a.rTtot(), b.rho, b.u, b.p, b.Mach(), b.Ptot(), c.rho, c.u, c.p, c.Ptot()]
        for n, v in (("p", r.uniform(.5, 1.9)), ("M", r.uniform(.1, 3)), ("u", r.uniform(.1, 1.5))):
            getattr(a, "compute_from_pt_rtt_" + n)(2., 1.5, float(v))
            out += [a.rho, a.u, a.p, a.Ptot(), a.copy().Mach()]
        w = us.unsteady_state(1.1, .3, .8, gamma=g)
        return out + [w.delta_u_shock(1.4), w.delta_u_expansion(.5), w.rho_through_shock(2.), w.rho_through_isentropic(.3), w.copysymmetric().Mach(), w.copy().Mach()]
    if k == 3:
        M = float(r.uniform(1.6, 4))
        s = float(np.degrees(np.arcsin(1 / M)) * 1.3)
        return [sw.conical_deflection_Mach_sigma(M, s, g), sw.dev_Max(M, gamma=g), sw.weaksigma_Mach_deflection(M, 4., g), sw.sigma_Mach_deflection(M, 4., g)]
    if k == 4:
        out = []
        opt = {q: float(r.uniform(.85, 1)) for q in ("xi_inlet", "xi_cc", "eta_cc", "etapolCHP", "etapolTHP", "eta_shaft") if r.random() < .4}
        for o in (gg.base(float(r.uniform(8, 30)), 1500., g, 1.33, 287., 290., **opt), tj.turbojet_opt(float(r.uniform(8, 30)), 1500., g, 1.33, 287., 290., **opt),
                  tf.turbofan_adapt(float(r.uniform(8, 30)), 1500., float(r.uniform(.5, 9)), .6, g, 1.33, 287., 290., **opt)):
            o.flight_conditions(250., 3e4, .7)
            o.update()
            out += [o.far, o.Tt45, o.Pt45, o.thermal_efficiency()]
        return out
    e = eu.Euler1D(8, 0., 1.)
    e.set_basestate(md.state(1 + .1 * e.x, .3 + .1 * e.x, 1 - .1 * e.x, gamma=g))
    k = r.random()
    if k < .3:
        e.set_BC("sym", "sym")
    elif k < .5:
        e.set_BC("per", "per")
    else:
        e.set_basestate(md.state(1 + .1 * e.x, .8 + .1 * e.x, 1 - .1 * e.x, gamma=g))
        e.set_BC({"type": "RH", "dM0dx": float(r.uniform(0, 1))}, "sym")
    with contextlib.redirect_stdout(io.StringIO()):
        return list(e.get_RHS_time_matrices())


FIXED = ("Fanno", "Rayleigh", "Propulsion")  # gamma=1.4 is their documented signature


@prop("H03")
def h03(ck):
    ck.assumptions += ["only process-wide settings reached through aerokit.common.defaultgas are considered",
                       "functions whose signature documents gamma=1.4 may use this value"]
    r = ck.rng
    defg = ck.module("aerokit.common.defaultgas")
    for m in ("default gas after set", "default gas after save", "default gas after restore", "computation leaves default gas",
              "explicit gamma is independent of default gas", "omitted gamma is 1.4 at start", "omitted gamma is the default gas in force"):
        ck.require(m, 20)
    ck.close("initial default gas", [defg.gamma(), defg.r_ideal()], [1.4, 287.1], rtol=1e-12)
    for m in scenes.MODULES:  # a value frozen at import is that of the initial default gas
        ck.module(m)
    closed = [s for s in specs.SPECS.values() if "gamma" in s.args and s.name != "Rayleigh.maxTiratio_Mach"]

    def model_run(n):
        """random history against a model of the settings"""
        with default_gas(defg, 1.4, 287.1):
            cur, saved, trail = [1.4, 287.1], None, []
            for _ in range(n):
                k = r.random()
                if k < .2:
                    op = ("set_gamma", float(gen.gamma(ck, 1)[0]))
                    defg.set_gamma(op[1])
                    cur[0] = op[1]
                elif k < .4:
                    op = ("set_r_ideal", float(r.uniform(50, 4200)))
                    defg.set_r_ideal(op[1])
                    cur[1] = op[1]
                elif k < .52:
                    op = ("save",)
                    defg.save_default()
                    saved = list(cur)
                elif k < .68 and saved is not None:
                    op = ("restore",)
                    if isinstance(ck.call("restore_default", defg.restore_default), Failed):
                        return
                    cur = list(saved)
                else:
                    op = ("compute",)
                    j = int(r.integers(3))
                    if j == 0:
                        s = closed[int(r.integers(len(closed)))]
                        pos, kw = s.draw(ck, n=4)
                        op = ("compute", s.name)
                        ck.call("computation " + s.name, s.get(ck), *pos, **kw)
                    elif j == 1:
                        g = float(r.choice([1.2, 1.3, 1.4, 1.6]))
                        op = ("compute", "objects", g)
                        ck.call("computation", explicit_scene, ck, r, g)
                    else:
                        n_ = str(r.choice([q for q in scenes.ALL if q not in ("polars", "conical", "stability")]))
                        op = ("compute", n_)
                        with contextlib.suppress(ArithmeticError, ValueError):
                            scenes.ALL[n_](ck, np.random.default_rng(int(r.integers(1 << 30))))
                trail.append(op)
                got = [defg.gamma(), defg.r_ideal()]
                name = {"compute": "computation leaves default gas", "save": "default gas after save", "restore": "default gas after restore"}.get(
                    op[0], "default gas after set")
                ck.true(name, got == cur, trail[-10:], {"got": got, "expected": cur, "saved": saved})
                if got != cur:
                    defg.set_gamma(cur[0])
                    defg.set_r_ideal(cur[1])

    for _ in range(ck.n(40, 1200)):
        model_run(int(r.integers(6, 30)))

    # explicit gas: bit-identical whatever the default
    for s in closed:
        for _ in range(ck.n(4, 60)):
            pos, kw = s.draw(ck, n=6, omit=False)
            if "r" in s.args and len(pos) <= s.args.index("r"):
                kw.setdefault("r", 300.)
            a = ck.call(s.name, s.get(ck), *pos, **kw)
            with default_gas(defg, float(r.uniform(1.1, 1.9)), float(r.uniform(100, 900))):
                b = ck.call(s.name, s.get(ck), *pos, **kw)
            ck.true("explicit gamma is independent of default gas", pack(a) == pack(b), (s.name, pos, kw))
    for _ in range(ck.n(90, 1500)):
        g, seed = float(r.choice([1.2, 1.3, 1.4, 1.6])), int(r.integers(1 << 30))
        a = ck.call("computation", explicit_scene, ck, np.random.default_rng(seed), g)
        with default_gas(defg, float(r.uniform(1.1, 1.9)), float(r.uniform(100, 900))):
            b = ck.call("computation", explicit_scene, ck, np.random.default_rng(seed), g)
        ck.true("explicit gamma is independent of default gas", isinstance(a, Failed) or pack(a) == pack(b), ("objects", g, seed))
    in_force(ck, defg, closed)


def omitting(ck, closed):
    """(name, documented to follow the default gas, f(*explicit gas or nothing)) of computations that accept an omitted gamma"""
    r = ck.rng
    out = []

    def add(name, follows, f):
        out.append((name, follows, f))

    for s in closed:
        fn = s.get(ck)
        _, kw = s.draw(ck, n=3, form="1-d" if s.forms != "scalar" else "float", omit=False)
        pos, kw = s.draw(ck, n=3, form="1-d" if s.forms != "scalar" else "float", omit=True)
        if "r" in s.args and len(pos) <= s.args.index("r"):
            kw.setdefault("r", 300.)
        add(s.name, not s.name.startswith(FIXED), lambda g=None, fn=fn, pos=pos, kw=kw: fn(*pos, **kw) if g is None else fn(*pos, **kw, gamma=g))
    md, us, nz, sw = (ck.module("aerokit." + m) for m in ("aero.model1D", "aero.unsteady1D", "instance.nozzle", "aero.ShockWave"))
    G = lambda g: {} if g is None else {"gamma": g}
    add("model1D.state", True, lambda g=None: md.state(1.2, .7, 2.1, **G(g)).asound())
    add("unsteady1D.unsteady_state", True, lambda g=None: us.unsteady_state(1.2, .7, 2.1, **G(g)).asound())
    a = float(r.uniform(1.4, 3))
    regimes = {"subsonic": 1.005, "shocked": .55 * a + .5, "supersonic": 60., "jet_shock": 3 * a - 1}
    for n in ("NPR_choked_subsonic", "NPR_choked_supersonic", "NPR_shock_at_exit"):
        add("nozzle." + n, True, lambda g=None, n=n: getattr(nz, n)(a, **G(g)))
    for n in ("Ms_from_AsAc_NPR", "Madapt_from_AsAc_NPR"):
        for q, p in regimes.items():
            add("nozzle.%s:%s" % (n, q), True, lambda g=None, n=n, p=p: getattr(nz, n)(a, p, **G(g)))
    M = float(r.uniform(1.8, 3))
    s = float(np.degrees(np.arcsin(1 / M)) * 1.4)
    add("ShockWave.conical_deflection_Mach_sigma", True, lambda g=None: sw.conical_deflection_Mach_sigma(M, s, **G(g)))
    add("ShockWave.conical_sigma_Mach_walldeflection", True, lambda g=None: sw.conical_sigma_Mach_walldeflection(M, 8., **G(g)))
    return out


def in_force(ck, defg, closed):
    r = ck.rng
    for rep in range(ck.n(1, 12)):
        for name, follows, f in omitting(ck, closed):
            call = lambda *a: ck.call("omitted gamma " + name, f, *a)
            x = call()
            ck.true("omitted gamma is 1.4 at start", near(x, call(1.4)), name)
            g = float(r.choice([1.3, 1.25, 1.5]))
            with default_gas(defg, g, 287.1):
                x = call()
            w = call(g)
            if near(x, w):
                ck.true("omitted gamma is the default gas in force", True, (name, g))
            elif near(x, call(1.4)):
                if follows:
                    ck.decide("default-gas-frozen:" + name, False, (name, g), {"got": x, "with the default gas given": w})
                else:
                    ck.skip("omitted gamma is the default gas in force")
                # the explicit gas makes the difference
                ck.true("omitted gamma is the default gas in force", not near(w, call(1.4)), (name, g))
            else:
                ck.decide("omitted gamma is the default gas in force", False, (name, g), {"got": x, "default gas": w, "gamma 1.4": call(1.4)})
    # gas constant and engines
    Is, gg, tj, tf = (ck.module("aerokit." + m) for m in ("aero.Isentropic", "engine.gasgenerator", "engine.turbojet", "engine.turbofan"))
    R = float(r.uniform(250, 270))
    with default_gas(defg, 1.4, R):
        v = ck.call("Velocity_MachTt", Is.Velocity_MachTt, .8, 300.)
    a, b = Is.Velocity_MachTt(.8, 300., r=R), Is.Velocity_MachTt(.8, 300., r=287.1)
    if not near(v, a):
        ck.decide("default-gas-frozen:Isentropic.Velocity_MachTt:r" if near(v, b) else "omitted r is the default gas in force", False, R, {"got": v, "expected": a})
    else:
        ck.true("omitted r is the default gas in force", True, R)
    for n, cls, extra in (("gasgenerator.base", gg.base, ()), ("turbojet.turbojet_opt", tj.turbojet_opt, ()), ("turbofan.turbofan_adapt", tf.turbofan_adapt, (4., .6))):
        with default_gas(defg, 1.3, R):
            o = ck.call(n, cls, 20., 1500., *extra)
        if isinstance(o, Failed):
            continue
        got = [o.gam_cold, o.gam_hot, o.r_cold, o.r_hot]
        if got == [1.3, 1.3, R, R]:
            ck.true("omitted gas of engines is the default gas in force", True, n)
        else:
            ck.decide("default-gas-frozen:" + n if got == [1.4, 1.4, 287.1, 287.1] else "omitted gas of engines is the default gas in force", False, n, got)


# --------------------------------------------------------------------------- H04
CX = {'P': 'P', 'p': 'P', 'Ps': 'P', 'rho': 'RHO', 'T': 'T', 'V': 'U', 'Vx': 'U_X', 'Vy': 'U_Y', 'Vz': 'U_Z', 'u_avg': 'U_AVG',
      'rho_avg': 'RHO_AVG', 'tauw_avg': 'TauWallAvg', 'mulam_avg': 'MU_LAM_AVG', 't_avg': 'T_AVG', 'u_rms': 'U_RMS', 'u_rey': 'U_REY'}
OF = {'u_avg': 'Uavg', 'rho_avg': 'rhoAVG'}
SOFT = {"cx": (['IC3', 'ic3', 'CharlesX', 'cx', 'charlesx', 'CX', 'Charlesx', 'iC3', 'CHARLESX'], CX),
        "of": (['OpenFOAM', 'of', 'openfoam', 'ofoam', 'OF', 'Openfoam', 'oFoam', 'OPENFOAM'], OF)}


def variants(r, s):
    k = int(r.integers(4))
    return (s, s.upper(), s.lower(), s.swapcase())[k]


class Names:
    """model of the database: variable -> denomination"""

    def __init__(self, table):
        self.t = dict(table)

    def answers(self, var):
        if var in self.t:
            return {self.t[var]}
        return {v for k, v in self.t.items() if k.lower() == var.lower()}


def quiet(fn, *a):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        try:
            return ("value", fn(*a), buf.getvalue())
        except Exception as e:
            return ("error", e, buf.getvalue())


@prop("H04")
def h04(ck):
    ck.assumptions += ["added variables differ by more than capital letters"]
    r = ck.rng
    dv = ck.module("aerokit.common.dicovar")
    db = dv.dicoVar
    for m in ("lookup", "lookup of unknown variable raises", "unknown software raises", "duplicate addition raises", "change of unknown variable raises",
              "restored names", "database content", "change with other capital letters", "printed database after an operation that changes nothing", "expression Mach", "expression Mx"):
        ck.require(m, 10)
    for how in (db.get, db, db.__getitem__):
        ck.true("initial software", quiet(how, "rho_avg")[1] == "RHO_AVG", str(how))
    try:
        pristine = {}
        for soft, (names, table) in SOFT.items():  # names of each software before any change
            if quiet(dv.setDicoVar, names[0])[0] == "value":
                pristine[soft] = {k: db.get(k) for k in list(db.keys())}
        for _ in range(ck.n(120, 4000)):
            history(ck, dv, db, pristine)
        # independent databases
        for _ in range(ck.n(10, 100)):
            a, b = quiet(dv._DicoVar, "cx")[1], quiet(dv._DicoVar, "of")[1]
            a.setVar("u_avg", "other")
            ck.true("databases are independent", b.get("u_avg") == "Uavg" and quiet(dv._DicoVar, "cx")[1].get("u_avg") == "U_AVG" and a["U_AVG"] == "other", "cx, of")
    finally:
        quiet(dv.setDicoVar, "IC3")
    try:
        expressions(ck, dv)
    finally:
        quiet(dv.setDicoVar, "IC3")


def content(db):
    return {k: db._dv[k] for k in db._dv} if hasattr(db, "_dv") else {k: db.get(k) for k in db.keys()}


def history(ck, dv, db, pristine):
    r = ck.rng
    soft = str(r.choice(list(SOFT)))
    names, table = SOFT[soft]
    res = quiet(dv.setDicoVar, str(r.choice(names)))
    if not ck.true("known software", res[0] == "value", (soft, str(res[1]))):
        return
    trail = [("software", soft)]
    first = {k: db.get(k) for k in list(db.keys())}
    ck.true("restored names", first == pristine.get(soft) and all(first.get(k) == v for k, v in table.items()), trail, {k: (first.get(k), v) for k, v in table.items() if first.get(k) != v})
    m = Names({**first, **table})
    for _ in range(int(r.integers(5, 40))):
        before = {k: db.get(k) for k in list(db.keys())}
        op = str(r.choice(["get", "get", "get", "unknown", "add", "dup", "set", "set", "setunknown", "setcase", "software", "badsoftware", "print"]))
        cs = trail[-12:]
        refusing = op in ("badsoftware", "dup", "setunknown", "unknown", "get") and r.random() < .4
        shown = quiet(db.printDatabase)[2] if refusing else None
        how = int(r.integers(3))
        look = lambda q: quiet((db.get, db, db.__getitem__)[how], q)
        if op == "get":
            q = variants(r, str(r.choice(list(m.t))))
            res = look(q)
            ck.true("lookup", res[0] == "value" and res[1] in m.answers(q), (cs, q, how), {"got": str(res[1]), "expected": sorted(m.answers(q))})
        elif op == "unknown":
            q = "".join(r.choice(list("abcxyz_"), 6)) + "?"
            if r.random() < .6:  # almost a known name: cut short, prolonged, or misspelt
                t = str(r.choice(list(m.t)))
                i = int(r.integers(len(t)))
                q = [t[:i], t[i:] if i else "", t + str(r.choice(list("_sx1. "))), " " + t, t[:i] + t[i + 1:], t.replace("_", "-") if "_" in t else t + "?"][int(r.integers(6))]
                if m.answers(q):
                    continue
            res = look(q)
            ck.true("lookup of unknown variable raises", res[0] == "error" and isinstance(res[1], (ValueError, KeyError)), (cs, q, how), str(res[1]))
        elif op == "add":
            q, v = "new_" + "".join(r.choice(list("abcdefgh"), 8)), "N" + "".join(r.choice(list("ABCD"), 5))
            if m.answers(q):
                continue
            if r.random() < .3:
                q = q.title()
            res = quiet(db.addVar, q, v)
            ck.true("addition", res[0] == "value", (cs, q), str(res[1]))
            m.t[q] = v
            trail.append(("add", q, v))
        elif op == "dup":
            q = str(r.choice(list(m.t)))
            res = quiet(db.addVar, q, "Z")
            ck.true("duplicate addition raises", res[0] == "error" and isinstance(res[1], (ValueError, KeyError)), (cs, q), str(res[1]))
        elif op == "set":
            q, v = str(r.choice(list(m.t))), "S" + "".join(r.choice(list("ABCDefg_"), 6))
            res = quiet(db.setVar, q, v)
            ck.true("change", res[0] == "value", (cs, q), str(res[1]))
            m.t[q] = v
            trail.append(("set", q, v))
        elif op == "setcase":
            # other capital letters: refused, or the variable is changed under all of its spellings
            q0 = str(r.choice(list(m.t)))
            q, v = variants(r, q0), "S" + "".join(r.choice(list("ABCDefg_"), 6))
            if q in m.t or len([k for k in m.t if k.lower() == q.lower()]) > 1:
                continue
            res = quiet(db.setVar, q, v)
            if res[0] == "value":
                ck.true("change with other capital letters", all(quiet(db.get, x)[1] == v for x in (q, q0, q0.upper(), q0.lower())), (cs, q, v))
                m = Names({k: db.get(k) for k in list(db.keys())})
                trail.append(("set", q, v))
            else:
                ck.true("change with other capital letters", isinstance(res[1], (ValueError, KeyError)) and {k: db.get(k) for k in list(db.keys())} == before, (cs, q, v))
        elif op == "setunknown":
            q = "".join(r.choice(list("abcxyz_"), 6)) + "?"
            res = quiet(db.setVar, q, "Z")
            ck.true("change of unknown variable raises", res[0] == "error" and isinstance(res[1], (ValueError, KeyError)), (cs, q), str(res[1]))
        elif op == "software":
            soft = str(r.choice(list(SOFT)))
            names, table = SOFT[soft]
            n = str(r.choice(names))
            res = quiet(dv.setDicoVar, n)
            trail.append(("software", n))
            if not ck.true("known software", res[0] == "value", (cs, n), str(res[1])):
                return
            now = {k: db.get(k) for k in list(db.keys())}
            ck.true("restored names", all(now.get(k) == v for k, v in table.items()) and now == pristine.get(soft), (cs, n))
            m = Names({**now, **table})
        elif op == "badsoftware":
            n = str(r.choice(["fluent", "", "cx2", "OpenFOAM ", "xyz", "ic", "Charles"]))
            res = quiet(dv.setDicoVar, n)
            ck.true("unknown software raises", res[0] == "error" and isinstance(res[1], (ValueError, KeyError)), (cs, n), str(res[1]))
        else:
            res = quiet(dv.printDicoVar if r.random() < .5 else db.printDatabase)
            ok = res[0] == "value" and all(("%s => %s" % kv) in res[2] for kv in m.t.items())
            ck.true("printed database", ok, cs, res[2][-300:])
        ck.true("database object is kept", dv.dicoVar is db, cs)
        if refusing:
            ck.true("printed database after an operation that changes nothing", quiet(db.printDatabase)[2] == shown, (cs, op), shown[:200])
        now = {k: db.get(k) for k in list(db.keys())}
        if op in ("get", "unknown", "dup", "setunknown", "badsoftware", "print"):
            ck.true("operation changes nothing", now == before, (cs, op))
        ck.true("database content", now == m.t, (cs, op), {k: (now.get(k), m.t.get(k)) for k in set(now) | set(m.t) if now.get(k) != m.t.get(k)})
        if now != m.t:
            return


def evaluate(expr, fields):
    """value of a vtk calculator expression on named fields (vectors as rows)"""
    env = {"sqrt": np.sqrt, "ln": np.log, "log10": np.log10, "atan": np.arctan, "acos": np.arccos, "asin": np.arcsin, "exp": np.exp,
           "mag": lambda v: np.sqrt((np.asarray(v) ** 2).sum(axis=-1)), "abs": np.abs, "cos": np.cos, "sin": np.sin, "tan": np.tan}
    env.update(fields)
    return eval(expr.replace("^", "**"), {"__builtins__": {}}, env)


def expressions(ck, dv):
    r = ck.rng
    ev = ck.module("aerokit.common.extendvar")
    for k in range(ck.n(80, 3000)):
        quiet(dv.setDicoVar, "cx")
        names = dict(CX)
        for q in ("P", "rho", "V", "Vx", "Vy", "Vz"):
            if r.random() < (.5 if k % 4 else 0):
                names[q] = "F" + "".join(r.choice(list("ABCDEFG"), 7))
                quiet(dv.dicoVar.setVar, q, names[q])
        if r.random() < .3:
            quiet(dv.dicoVar.addVar, "extra", "EXTRA")
            names["extra"] = "EXTRA"
        d = ck.call("expressions_from_rhopv", ev.expressions_from_rhopv)
        if isinstance(d, Failed):
            continue
        n = 6
        rho, p = gen.loguni(ck, n, .05, 10), gen.loguni(ck, n, 1e2, 1e6)
        V = r.normal(0, 300, (n, 3))
        V[:, 0] = np.abs(V[:, 0]) + 1
        fields = {names["rho"]: rho, names["P"]: p, names["V"]: V, names["Vx"]: V[:, 0], names["Vy"]: V[:, 1], names["Vz"]: V[:, 2]}
        if len(fields) < 6:
            continue
        a = np.sqrt(1.4 * p / rho)
        M = np.sqrt((V ** 2).sum(1)) / a
        want = {"Pt": p * (1 + .2 * M ** 2) ** 3.5, "T": p / rho / 287.1, "S": np.log(p / rho ** 1.4), "V": M * a, "a": a, "Mach": M, "Mx": V[:, 0] / a,
                "alpha": np.degrees(np.arctan2(V[:, 1], V[:, 0]))}
        for q, w in want.items():
            if not ck.true("expression given", q in d, (q, sorted(names.items()))):
                continue
            try:
                v = evaluate(d[q], fields)
            except Exception as e:
                ck.decide("expression " + q, False, (q, d[q], sorted(names.items())), "%s: %s" % (type(e).__name__, e))
                continue
            ck.close("expression " + q, v, w, rtol=1e-10, atol=1e-12, case=(d[q], rho, p, V))
        for q, w in names.items():
            if q not in want:
                ck.true("expression of a named field", d.get(q) == w, (q, d.get(q), w))
        ck.true("expressions of these names only", set(d) == set(names) | set(want), (sorted(set(d) ^ (set(names) | set(want))), sorted(names)))
        kept = dict(d)
        d["mine"], d["Pt"] = "1", "0"
        d.pop("Mach", None)
        again = ck.call("expressions_from_rhopv", ev.expressions_from_rhopv)
        if not isinstance(again, Failed):
            ck.true("expressions after the caller edited an earlier answer", again == kept, {q: (again.get(q), kept.get(q)) for q in set(again) | set(kept) if again.get(q) != kept.get(q)})
        ck.true("expressions change no name", all(dv.dicoVar.get(q) == w for q, w in names.items()), sorted(names.items()))
