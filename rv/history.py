"""Sessions: uses of the repository split into steps, so that several of them can be interleaved.

Each session is a generator depending only on its seed; every step yields the numbers a user would
read.  `python -m rv.history` runs sessions one after the other in a fresh process (stdin: JSON list
of [name, seed], stdout: pickle)."""
import importlib
import io
import json
import os
import pickle
import sys
from concurrent.futures import ThreadPoolExecutor

import numpy as np

if __name__ == "__main__":
    sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
    sys.dont_write_bytecode = True

from . import scenes, specs  # noqa: E402


class Env:
    """what scenes and contracts need of a check"""

    def __init__(self, seed):
        self.rng = np.random.default_rng(seed)

    def module(self, name):
        return importlib.import_module(name)


def _m(n):
    return importlib.import_module("aerokit." + n)


def function(env, r):
    """calls of closed-form functions and inversions"""
    names = [n for n in specs.SPECS if specs.SPECS[n].draw]
    for _ in range(4):
        s = specs.SPECS[str(r.choice(names))]
        pos, kw = s.draw(env, n=5)
        yield getattr(_m(s.mod[len("aerokit."):]), s.fn)(*pos, **kw)


def reused_array(env, r):
    """the same array object with new content, the same arguments twice"""
    for _ in range(3):
        s = specs.SPECS[str(r.choice(["Isentropic.PtPs_Mach", "Isentropic.TtTs_Mach", "MassFlow.Sigma_Mach", "MassFlow.WeightMassFlow", "ShockWave.Ps_ratio",
                                      "ShockWave.downstream_Mn", "ShockWave.Pt_ratio", "Supersonic.PrandtlMeyer_Mach", "ShockWave.dev_Max",
                                      "MassFlow.MachSup_Sigma", "MassFlow.MachSub_Sigma", "Supersonic.Mach_PrandtlMeyer", "ShockWave.sigma_Sonic"]))]
        f = getattr(_m(s.mod[len("aerokit."):]), s.fn)
        a = r.uniform(1.1, 5, 4)
        for g in (1.4, 1.3):
            yield f(a, g)
            a += r.uniform(.1, .5)
            yield f(a, gamma=g)
        yield f(float(a[0]))
        yield f(float(a[0]), 1.3)
        yield f(int(a[0]) + 1)


def near(env, r):
    """results at arguments very close to others already asked (the others are not asked in the process of reference)"""
    sw, pr, nz, rp, us, ns, om, tj, tf, od, io_ = (_m(n) for n in (
        "aero.ShockWave", "aero.Propulsion", "instance.nozzle", "instance.riemann", "aero.unsteady1D", "common.numspectral", "stability.OrrSommerfeld",
        "engine.turbojet", "engine.turbofan", "common._ode", "instance.unsteady_inflow"))
    names = [n for n in specs.SPECS if specs.SPECS[n].draw]

    def contract(v, k):
        pos, kw = v
        return getattr(_m(s.mod[len("aerokit."):]), s.fn)(*[x * k for x in pos], **{n: x * k for n, x in kw.items()})

    def nozzle(v, k):
        o = nz.nozzle(np.linspace(0, 1, 9), 1 + v[0] * k * (np.linspace(0, 1, 9) - .3) ** 2, gamma=1.3 * k, NPR=1.05 + v[1] * k)
        return [o.NPR0, o.NPRsw, o.NPR1, o.Mach(), o.Ps(), o.Ptot()]

    def exits(v, k):
        return [f(1.05 + 3 * v[0] * k, 1.05 + 5 * v[1] * k) for f in (nz.Ms_from_AsAc_NPR, nz.Madapt_from_AsAc_NPR)] + [nz.NPR_shock_at_exit(1.05 + 3 * v[0] * k)]

    def riemann(v, k):
        o = rp.riemann_pb(us.unsteady_state(v[0] * k, v[1] * k, v[2] * k, gamma=1.3), us.unsteady_state(v[3] * k, -.2, 1. * k, gamma=1.3))
        q = o.qsol(v * k)
        return [o.pstar(), o.ustar(), o.qstarL().rho, o.qstarR().rho, q.rho, q.u, q.p]

    def inflow(v, k):
        o = io_.inflow_pb(us.unsteady_state(1. * k, .3 * v[0], 1. * k))
        o.solve_with_pt0_rtt0(1.5 + v[1] * k, 1. + .3 * v[2] * k)
        return [o.pstar(), o.ustar(), o.qstarL().rho, o.qstarR().rho]

    def cone(v, k):
        return [sw.conical_deflection_Mach_sigma((2 + v[0]) * k, (40 + 9 * v[1]) * k, 1.3 * k), sw.deflection_Mach_sigma((2 + v[0]) * k, 50 * k),
                sw.sigma_Mach_deflection((2.5 + v[0]) * k, 8. * k), sw.dev_Max((1.5 + v[0]) * k), sw.dev_Sonic((1.5 + v[0]) * k)]

    def engine(v, k):
        a, b = tj.turbojet_opt((15 + v[0]) * k, 1500. * k, etapolCHP=.9 * k), tf.turbofan_adapt(25. * k, (1500 + v[1]) * k, 5. * k, .7 * k)
        for o in (a, b):
            o.flight_conditions(T0=250 * k, P0=4e4 * k, M0=.8 * v[2] * k)
            o.update()
        return [a.norm_thrust(), a.far, a.Sfc(), b.norm_thrust(), b.V9, b.V19, b.propulsive_efficiency()]

    def grid(v, k):
        c = ns.ChebCollocation(9, -v[0] * k, 1 + v[1] * k)
        m = om.OrrSommerfeldModel(9, -v[0] * k, 1 + v[1] * k, basestate={"alpha": 1 + v[2] * k, "Reynolds": 900 * k, "uprofile": lambda x: v[3] * k * x})
        m.set_BC("wall", "wall")
        f = np.cos(c.x)
        return [c.x, np.array(c.matder(1)), np.array(c.matder(2)), c.extrapol(f, np.array([.1, .2]) * k), c.fit_to_gauss(c.x * k, f)] + [np.array(q) for q in m.get_RHS_time_matrices()]

    def ode(v, k):
        F = lambda x, y: -v[0] * y
        return [np.array(q[-1]) for a in (od.RK4(F, 0., v * k, 1. * k, .1), od.RKF45(F, 0., v * k, 1. * k, .1, 1e-7)) for q in a]

    def thrust(v, k):
        return [pr.Mach_ThrustFunction(pr.ThrustFunction(1.2 + v[0] * k), 2.), pr.Mach_ThrustFunction(pr.ThrustFunction(.9 * v[1] * k), .5)]
    objects = [nozzle, exits, riemann, inflow, cone, engine, grid, ode, thrust]
    for i in range(8):
        if i < 4:
            s = specs.SPECS[str(r.choice(names))]
            v, f = s.draw(env, n=int(r.choice([1, 4]))), contract
            if r.random() < .6:  # scalars
                one = lambda x: float(np.ravel(x)[0]) if np.ndim(x) else x
                v = [one(x) for x in v[0]], {n: one(x) for n, x in v[1].items()}
        else:
            f, v = objects[int(r.integers(len(objects)))], r.uniform(.2, 1, 4)
        close = [1 + float(r.choice([-1, 1])) * 10.0 ** float(r.uniform(-8, -2)) for _ in range(2)]
        if not ALONE:
            for k in close:
                try:
                    f(v, k)
                except Exception:  # the neighbour may be outside the domain
                    pass
        yield f(v, 1)


ALONE = False


def _outcome(f, *a):
    try:
        return "returned %s" % type(f(*a)).__name__
    except Exception as e:
        return "raised " + type(e).__name__


def direct(env, r):
    """functions without a contract, scalars and arrays in turn"""
    sup, sw, pr, it, dg = _m("aero.Supersonic"), _m("aero.ShockWave"), _m("aero.Propulsion"), _m("aero.IterativeSolve"), _m("aero.degree")
    cf, nz, rg, ke = _m("aero.CompressibleFlow"), _m("instance.nozzle"), _m("aero.ThermoRealGas"), _m("aero.ThermoKerosen")
    g = float(r.choice([1.2, 1.3, 1.4, 1.6]))
    M, a, A = float(r.uniform(1.3, 6)), float(r.uniform(.1, .9)), float(r.uniform(1.05, 9))
    om = float(r.uniform(-60, 20))
    calls = [lambda: sup.Mach_PMFmmu(om, g), lambda: sup.Mach_PMFmmu(np.array([om, om + 1, om + 2.]), g), lambda: sup.old_Mach_PrandtlMeyer(25 * a + 1, 1.4),
             lambda: pr.Mach_ThrustFunction(pr.ThrustFunction(M, g), 2., g), lambda: pr.Mach_ThrustFunction(pr.ThrustFunction(np.array([a, .5 * a]), g), .5, g),
             lambda: it.secant_solve(lambda x: x + .3 * np.sin(x), 10 * a, 1.), lambda: it.secant_solve(lambda x: np.exp(.3 * x), np.array([1.5, 2 + a]), 1.),
             lambda: [f(x) for f in (dg.acos, dg.asin, dg.atan) for x in (a, np.array([a, -a, .1]))], lambda: [f(100 * a) for f in (dg.cos, dg.sin, dg.tan)],
             lambda: dg.atan2(np.array([a, -a]), np.array([-1., 2.])), lambda: [nz.NPR_choked_subsonic(A, g), nz.NPR_choked_supersonic(A, g), nz.NPR_shock_at_exit(A, g)],
             lambda: [nz.Ms_from_AsAc_NPR(A, 1 + 4 * a), nz.Madapt_from_AsAc_NPR(A, 1 + 4 * a)], lambda: nz.NPR_choked_supersonic(np.array([A, A + 1, 1.5]), g),
             lambda: [f(1000 * a + 300) for m in (rg, ke) for f in (m.Cp, m.Enthalpy, m.Phi)], lambda: [rg.Gamma(2000 * a + 200), ke.Pc_eff(1500 * a + 200)],
             lambda: sw.sigma_Mach_deflection(M, np.array([1., -2., 3.]) * a, gamma=g), lambda: [sw.Mn_Pt_ratio(a), sw.Mn_Pt_ratio(a, g)],
             lambda: sw.Mn_Pt_ratio(1 + a), lambda: [sw.weaksigma_Mach_deflection(M, 80., g), sw.strongsigma_Mach_deflection(M, 80., g)],
             # computations that end with a message or an exception
             lambda: it.secant_solve(lambda x: x ** 9, 0., a + 1), lambda: it.secant_solve(lambda x: x ** 7, np.array([0., 1e-9]), np.array([1., 2.]) + a),
             lambda: _outcome(_m("instance.riemann").riemann_pb, *[_m("aero.unsteady1D").unsteady_state(1., v, 1.) for v in (-9 - M, 9 + M)]),
             lambda: _outcome(_m("common.dicovar").dicoVar.get, "unknown"), lambda: _outcome(_m("stability.Euler").Euler1D(6).set_BC, "sym", "none"),
             lambda: _outcome(_m("stability.Euler").Euler1D(6).get_RHS_time_matrices),
             lambda: [cf.Mach_Sigma(A, .5), cf.Mach_Sigma(A, 2.), cf.deflection_Mach_IsentropicPsratio(M, .9), cf.IsentropicPsratio_Mach_deflection(M, -3. * a)]]
    for i in r.integers(len(calls), size=8):
        yield calls[int(i)]()


def cones(env, r):
    sw = _m("aero.ShockWave")
    M, s, g = float(r.uniform(1.8, 5)), float(r.uniform(40, 60)), float(r.choice([1.3, 1.4]))
    for _ in range(2):
        d = sw.conical_deflection_Mach_sigma(M, s, g)
        yield d
        yield sw.conical_sigma_Mach_walldeflection(M, .4 * d, g)
        yield sw.conical_Mach_walldeflection_sigma(.5 * d, s, gamma=g)
        yield sw.conical_deflection_Mach_sigma(M, s)


def nozzle(env, r):
    nz = _m("instance.nozzle")
    x = np.linspace(0, 1, int(r.integers(8, 40)))
    o = nz.nozzle(x, 1 + r.uniform(.5, 3) * (x - r.uniform(.2, .6)) ** 2, gamma=float(r.choice([1.2, 1.3, 1.4, 1.6])), NPR=float(r.uniform(1.01, 4)))
    yield [o.NPR0, o.NPRsw, o.NPR1, o.Mach(), o.Ps(), o.Ptot()]
    nprs = [1.001 + f * (1.2 * o.NPR1 - 1) for f in r.random(3)]
    for npr in nprs + nprs[::-1]:
        o.set_NPR(npr)
        yield [o.Mach(), o.Ps(), o.Ptot()]
        yield [nz.Ms_from_AsAc_NPR(o.AsoAc, npr), nz.Madapt_from_AsAc_NPR(o.AsoAc, npr), nz.NPR_shock_at_exit(o.AsoAc, o.gamma)]


def riemann(env, r):
    rp, us = _m("instance.riemann"), _m("aero.unsteady1D")
    g = float(r.choice([1.3, 1.4, 5 / 3]))
    q = [us.unsteady_state(float(r.uniform(.2, 4)), float(r.uniform(-.5, .5)), float(r.uniform(.2, 8)), gamma=g) for _ in range(3)]
    a = rp.riemann_pb(q[0], q[1])
    yield [a.pstar(), a.ustar()]
    b = rp.riemann_pb(q[1], q[2])
    for pb in (b, a, b, a):
        yield [pb.pstar(), pb.ustar(), pb.left_fastest(), pb.right_fastest(), pb.qstarL().rho, pb.qstarR().rho, len(repr(pb))]
        s = pb.qsol(np.sort(r.uniform(-3, 3, 9)))
        yield [s.rho, s.u, s.p, s.Mach()]


def inflow(env, r):
    m, us = _m("instance.unsteady_inflow"), _m("aero.unsteady1D")
    q = us.unsteady_state(1.0, float(r.uniform(0, .4)), 1.0, gamma=1.4)
    pb = m.inflow_pb(q)
    c = [(float(q.Ptot() * r.uniform(1.05, 2)), float(q.rTtot() * r.uniform(.8, 1.4))) for _ in range(2)]
    for pt, rtt in c + c[::-1]:
        pb.solve_with_pt0_rtt0(pt, rtt)
        yield [pb.pstar(), pb.ustar(), pb.qstarL().rho, pb.qstarR().rho, pb.left_fastest(), pb.right_fastest(), len(repr(pb))]


def states(env, r):
    md, us = _m("aero.model1D"), _m("aero.unsteady1D")
    g = float(r.choice([1.3, 1.4, 5 / 3]))
    a = md.state(float(r.uniform(.2, 5)), float(r.uniform(2, 4)), float(r.uniform(.2, 1)), gamma=g)
    read = lambda s: [s.rho, s.u, s.p, s.Mach(), s.Ptot(), s.rTtot(), s.massflow(), s.left_acoustic(), s.right_acoustic()]
    yield read(a)
    b, c, d = a.copy(), a.state_RH(), a.state_isentropic_Mach(float(r.uniform(.2, 2)))
    yield read(b) + read(c) + read(d)
    b.compute_from_pt_rtt_p(2., 1.5, float(r.uniform(.3, 1.9)))
    yield read(b) + read(a)
    e = us.unsteady_state(float(r.uniform(.2, 5)), float(r.uniform(-1, 1)), float(r.uniform(.2, 3)), gamma=g)
    p = e.p * r.uniform(1.1, 5)
    yield [e.delta_u_shock(p), e.delta_u_expansion(e.p * .5), e.rho_through_shock(p), e.rho_through_isentropic(p)]
    f = e.copysymmetric()
    f.compute_from_pt_rtt_M(2., 1.5, .5)
    yield read(e) + read(f) + read(a) + read(c)
    h = md.state(r.uniform(.2, 5, 4), r.uniform(-1, 1, 4), r.uniform(.2, 3, 4), g)
    yield [h.size, a.size, len(repr(h))] + read(h) + read(h[1]) + read(h[-1])
    w = e._rankinehugoniot_from_ushock(e.u - e.asound() * float(r.uniform(1.1, 3)))
    yield read(w) + read(h[2]) + read(e)


def engine(env, r):
    tj, tf, gg = _m("engine.turbojet"), _m("engine.turbofan"), _m("engine.gasgenerator")
    k = int(r.integers(3))
    kw = dict(gam_hot=float(r.choice([1.3, 1.33])), r_hot=289., etapolCHP=.9, etapolTHP=.9, eta_cc=.98)
    if k == 0:
        o = gg.base(float(r.uniform(8, 30)), float(r.uniform(1300, 1700)), **kw)
    elif k == 1:
        o = tj.turbojet_opt(float(r.uniform(8, 30)), float(r.uniform(1300, 1700)), **kw)
    else:
        o = tf.turbofan_adapt(float(r.uniform(15, 40)), float(r.uniform(1400, 1700)), float(r.uniform(2, 9)), .7, **kw)
    c = [(float(r.uniform(220, 290)), float(r.uniform(2e4, 1e5)), float(r.uniform(.1, .85))) for _ in range(2)]
    for T0, P0, M0 in c + c[:1]:
        o.flight_conditions(T0=T0, P0=P0, M0=M0)
        yield [o.T0, o.P0, o.M0]
        o.update()
        yield [o.far, o.Tt45, o.Pt45, o.Wsp_cc(), o.thermal_efficiency()]
        if k:
            yield [o.V9, o.norm_thrust(), o.spec_thrust(), o.Sfc(), o.propulsive_efficiency(), o.thermoprop_efficiency()]


def staged(env, r):
    cy, di, dc = _m("engine.Cycle_Turbofan"), _m("engine.propu_be"), _m("engine.propu_be_double_corps")
    g, h = cy.Gaz(1.4, 287.), cy.Gaz(1.33, 291.6, 42800e3)
    lam, pi, Tt4, m = float(r.uniform(4, 10)), float(r.uniform(20, 40)), float(r.uniform(1400, 1700)), float(r.uniform(100, 300))
    out = lambda o: [v for n, v in sorted(vars(o).items()) if isinstance(v, (int, float, np.floating)) and not n.startswith("current")]
    a = cy.cycle_taux_fan_fixe(lam, pi, Tt4, m, g, h, float(r.uniform(1.3, 1.6)))
    yield out(a)
    b = cy.cycle_taux_fan_calcule(lam, pi, Tt4, m, g, h, float(r.uniform(.3, .7)))
    yield out(b)
    a.calculs_5_to_9()
    b.calculs_5_to_9()
    yield out(a)
    yield out(b)
    yield dc.calculs(lam, pi, Tt4, m, .6)
    for o in (a, b):
        o.show_perfo()
        o.show_attributes()
    yield out(b) + out(a)
    dc.calculs_tau_optimum(lam, pi, Tt4, m)
    yield di.calculs(lam, pi, Tt4, 1.5, m) or []
    yield out(a) + out(b)


def spectral(env, r):
    ns = _m("common.numspectral")
    a = ns.ChebCollocation(int(r.integers(5, 24)), float(r.uniform(-2, 0)), float(r.uniform(.5, 2)))
    b = ns.ChebCollocation(int(r.integers(5, 24)))
    for c in (a, b, a):
        yield [c.x, np.array(c.matder(1)), c.matder(2) @ np.sin(c.x)]
        f = np.cos(c.x)
        yield [c.extrapol(f, np.linspace(0, .4, 7)), c.fit_to_gauss(c.x, f)]
    yield [a.matder(3) @ np.sin(a.x), b.matder(1) @ b.x, b.xi]


def euler(env, r):
    eu, md = _m("stability.Euler"), _m("aero.model1D")
    e = eu.Euler1D(int(r.integers(8, 16)), 0., float(r.uniform(.5, 2)))
    x = e.x
    c = r.uniform(-.1, .1, 3)
    base = [md.state(1 + c[0] * x, .3 + c[1] * x, 1 + k * c[2] * x, gamma=1.4 - .05 * k) for k in (1, 2)]
    for q, bc in ((base[0], ("sym", "sym")), (base[1], ("per", "per")), (base[0], ("sym", "sym"))):
        e.set_basestate(q)
        e.set_BC(*bc)
        yield [np.array(m) for m in e.get_RHS_time_matrices()]
        v, _ = e.solve_eig()
        yield sorted_eig(v)
        v, w, o = e.select_and_sort(realmin=.5, realmax=10., sort="real")
        yield [len(v)]
        if len(v):
            z = e.converge_eigenpair(v[o[0]] * 1.001, w[:, o[0]], 3)[0]
            yield [np.abs(z)] if np.isfinite(z) else []
    q = md.state(1 + c[0] * x, .4 + c[1] * x, 1 + c[2] * x, gamma=1.4)
    e.set_basestate(q)
    e.set_BC({"type": "RH", "dM0dx": float(r.uniform(-1, 1))}, "sym")
    yield [np.array(m) for m in e.get_RHS_time_matrices()]


def sorted_eig(v):
    """well conditioned part of a spectrum"""
    v = v[np.isfinite(v)]
    v = v[np.abs(v) < 8]
    return np.sort(np.abs(v))


def poiseuille(env, r):
    m = _m("stability.OrrSommerfeld").Poiseuille(int(r.integers(24, 40)), alpha=float(r.uniform(.8, 1.2)), Reynolds=float(r.uniform(500, 5000)))
    yield [np.array(q) for q in m.get_RHS_time_matrices()]
    m.solve_eig()
    for k in range(2):
        v, w, o = m.select_and_sort(realmin=.1, realmax=1., imagmin=-.6, imagmax=1, sort=("imag", "real")[k])
        yield [v[o[0]].real, v[o[0]].imag]
        z = m.converge_eigenpair(v[o[0]] * (1 + 1e-4j), w[:, o[0]], *((4,) if k else ()))[0]
        yield [z.real, z.imag]


def integrator(env, r):
    od = _m("common._ode")
    k, y0 = float(r.uniform(.3, 2)), r.uniform(-1, 1, 2)
    F = lambda x, y: np.array([y[1], -k * y[0]])
    for fn, a in ((od.RK4, (.05,)), (od.RKF45, (.1, 1e-8)), (od.RKF45, (.1,)), (od.RK4, (.1,))):
        X, Y = fn(F, 0., y0, float(1 + k), *a)
        yield [X, Y]


def variables(env, r):
    """expressions of the derived quantities; the answer belongs to the caller, who edits it"""
    ev = _m("common.extendvar")
    for _ in range(3):
        d = ev.expressions_from_rhopv()
        yield [x for q in ("Pt", "T", "S", "a", "Mach", "Mx", "alpha", "V") for x in (q, str(d.get(q)))] + [len(d)]
        if not ALONE:
            d[str(r.choice(["Pt", "Mach", "alpha"]))] = "1"
            d["edited"] = "2"


def plots(env, r):
    import matplotlib.pyplot as plt
    yield scenes.polars(env, r)
    st = _m("aero.plot.defaultstyle")
    for how in (st.figure_theta_sigma, st.figure_theta_pressure):
        f = how(figsize=(4, 3))
        yield [float(v) for v in f.get_size_inches()] + [float(f.gca().get_yscale() == "log")]
        plt.close(f)


def atomic(name):
    def session(env, r):
        yield scenes.ALL[name](env, r)
    return session


SESSIONS = {f.__name__: f for f in (function, near, direct, cones, reused_array, nozzle, riemann, inflow, states, engine, staged, spectral, euler, poiseuille, integrator, variables, plots)}
for _n in ("shocks", "expansion", "conical", "heat_friction", "gases"):
    SESSIONS["scene " + _n] = atomic(_n)
TOL = {"euler": 1e-6, "poiseuille": 1e-6}


def copied(x):
    if isinstance(x, (list, tuple)):
        return [copied(v) for v in x]
    a = np.array(x)
    return a if a.dtype != object else [copied(v) for v in a.ravel()]


class Session:
    """one started session; step() appends what it yields"""

    def __init__(self, name, seed):
        self.name, self.seed = name, seed
        self.env = Env(seed)
        self.g = SESSIONS[name](self.env, self.env.rng)
        self.out, self.live = [], []
        self.done = False

    def step(self):
        try:
            x = next(self.g)
            self.live.append(x)
            self.out.append(copied(x))
        except StopIteration:
            self.done = True
        except Exception as e:
            self.out.append("raised " + type(e).__name__)
            self.done = True
        return self.done


def alike(x, y, tol):
    if isinstance(x, str) or isinstance(y, str):
        return x is y or (isinstance(x, str) and isinstance(y, str) and x == y)
    if isinstance(x, list) or isinstance(y, list):
        return isinstance(x, list) and isinstance(y, list) and len(x) == len(y) and all(alike(a, b, tol) for a, b in zip(x, y))
    if x.shape != y.shape:
        return False
    if x.dtype.kind not in "iufcb":
        return bool(np.all(x == y))
    fin = np.abs(x[np.isfinite(x)])
    return bool(np.allclose(x, y, rtol=tol, atol=tol * (float(fin.max()) if fin.size else 0), equal_nan=True))


def main():
    import contextlib
    import warnings
    global ALONE
    ALONE = True
    jobs = json.load(sys.stdin)
    out = []
    real = sys.stdout.buffer
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        def run(job):
            s = Session(*job)
            with np.errstate(all="ignore"):
                while not s.step():
                    pass
            return s.out
        if "--threads" in sys.argv:
            sys.setswitchinterval(1e-5)
            with ThreadPoolExecutor(4) as pool:
                out = list(pool.map(run, jobs))
        else:
            out = [run(j) for j in jobs]
    real.write(pickle.dumps(out))


if __name__ == "__main__":
    from rv import history
    history.main()
