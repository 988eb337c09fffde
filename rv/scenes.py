"""Replayable usage scenes: each runs one realistic use of several modules of the repository with
parameters drawn from the given generator and returns the numbers a user would read.  They supply
nested calls for the contracts and the histories of I04."""
import numpy as np


def _imp(ck, n):
    return ck.module("aerokit." + n)


def nozzle(ck, r):
    nz = _imp(ck, "instance.nozzle")
    n = int(r.integers(8, 60))
    x = np.linspace(0, 1, n)
    sec = 1 + r.uniform(.2, 1.5) * (x - r.uniform(.2, .6)) ** 2 * 4
    g = float(r.choice([1.2, 1.3, 1.4, 1.4, 1.4, 1.6]))
    o = nz.nozzle(x, sec, gamma=g)
    out = [o.NPR0, o.NPRsw, o.NPR1]
    for f in r.random(3):
        npr = 1.001 + f * (1.2 * o.NPR1 - 1)
        o.set_NPR(npr)
        out += [o.Mach(), o.Ps(), o.Ptot()]
        out += [nz.Ms_from_AsAc_NPR(o.AsoAc, npr), nz.Madapt_from_AsAc_NPR(o.AsoAc, npr)]
    return out


def riemann(ck, r):
    rp, us = _imp(ck, "instance.riemann"), _imp(ck, "aero.unsteady1D")
    g = float(r.choice([1.4, 1.4, 1.3, 5 / 3]))
    q = [us.unsteady_state(float(r.uniform(.1, 5)), float(r.uniform(-.5, .5)), float(r.uniform(.1, 10)), gamma=g) for _ in range(2)]
    pb = rp.riemann_pb(*q)
    s = pb.qsol(np.linspace(-3, 3, 31))
    return [pb.pstar(), pb.ustar(), pb.left_fastest(), pb.right_fastest(), s.rho, s.u, s.p, s.Mach(), s.Ptot()]


def inflow(ck, r):
    m, us = _imp(ck, "instance.unsteady_inflow"), _imp(ck, "aero.unsteady1D")
    q = us.unsteady_state(1.0, float(r.uniform(0, .4)), 1.0, gamma=1.4)
    pb = m.inflow_pb(q)
    pb.solve_with_pt0_rtt0(float(q.Ptot() * r.uniform(1.05, 2)), float(q.rTtot() * r.uniform(.8, 1.4)))
    return [pb.pstar(), pb.ustar(), pb.qstarL().rho, pb.qstarR().rho]


def states(ck, r):
    md = _imp(ck, "aero.model1D")
    g = float(r.choice([1.4, 1.4, 1.3, 5 / 3]))
    a = md.state(float(r.uniform(.1, 5)), float(r.uniform(1.5, 4)), float(r.uniform(.1, 1)), gamma=g)
    out = [a.Mach(), a.Ptot(), a.rTtot(), a.left_acoustic(), a.right_acoustic(), a.massflow()]
    if a.Mach() > 1:
        b = a.state_RH()
        out += [b.rho, b.u, b.p]
    b = a.state_isentropic_Mach(float(r.uniform(.1, 3)))
    out += [b.rho, b.u, b.p]
    a.compute_from_pt_rtt_p(2.0, 3.0, float(r.uniform(.2, 1.9)))
    out += [a.rho, a.u]
    a.compute_from_pt_rtt_M(2.0, 3.0, float(r.uniform(.2, 1.9)))
    out += [a.rho, a.u]
    a.compute_from_pt_rtt_u(2.0, 3.0, float(r.uniform(.2, 1.9)))
    out += [a.rho, a.p]
    return out


def polars(ck, r):
    import matplotlib.pyplot as plt
    out = []
    M = float(r.uniform(1.2, 6))
    g = float(r.choice([1.4, 1.4, 1.3, 5 / 3]))
    fig = plt.figure()
    try:
        sp, ip = _imp(ck, "aero.plot.shockpolar"), _imp(ck, "aero.plot.isentropicpolar")
        pm = _imp(ck, "aero.Supersonic").PrandtlMeyer_Mach(M, g)
        sp.plot_theta_sigma(M, gamma=g, npts=20, devmax=True, sonic=True)
        sp.plot_theta_pressure(M, gamma=g, npts=20, devmax=True, sonic=True, thet_init=2.0, p_init=3.0)
        ip.plot_theta_pressure(M, [-.5 * pm, .5 * pm], gamma=g, npts=20, curve="both")
        for ln in fig.axes[0].lines:
            out += [np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)]
    finally:
        plt.close(fig)
    return out


def shocks(ck, r):
    sw = _imp(ck, "aero.ShockWave")
    g = float(r.choice([1.4, 1.4, 1.3, 5 / 3]))
    M = float(r.uniform(1.3, 8))
    dm = sw.dev_Max(M, g)
    d = float(dm * r.uniform(.05, .95))
    out = [dm, sw.sigma_DevMax(M, g), sw.dev_Sonic(M, g), sw.sigma_Sonic(M, gamma=g), sw.weaksigma_Mach_deflection(M, d, g),
           sw.strongsigma_Mach_deflection(M, d, g), sw.sigma_Mach_deflection(M, d, gamma=g), sw.Mn_Pt_ratio(sw.Pt_ratio(M, g), g)]
    p = 1 + r.uniform(.1, .9) * (sw.Ps_ratio(M, g) - 1)
    out += [sw.deflection_Mach_ShockPsratio(M, p, g), sw.downstreamMach_Mach_ShockPsratio(M, p, g)]
    return out


def expansion(ck, r):
    su, cf = _imp(ck, "aero.Supersonic"), _imp(ck, "aero.CompressibleFlow")
    M = r.uniform(1.1, 6, 4)
    d = r.uniform(-10, 0, 4)
    p = su.IsentropicPsratio_Mach_deflection(M, d)
    return [p, su.deflection_Mach_IsentropicPsratio(M, p), cf.Mach_PrandtlMeyer(cf.PrandtlMeyer_Mach(M)), cf.Mach_PtPs(cf.PtPs_Mach(M)),
            cf.WeightMassFlow(M), cf.Mach_Sigma(cf.Sigma_Mach(M)), cf.Mach_TtTs(cf.TtTs_Mach(M)), cf.Velocity_MachTi(M, 300.0)]


def conical(ck, r):
    sw = _imp(ck, "aero.ShockWave")
    M = float(r.uniform(1.5, 4))
    s = float(np.degrees(np.arcsin(1 / M)) * r.uniform(1.2, 1.6))
    return [sw.conical_deflection_Mach_sigma(M, s)]


def engines(ck, r):
    tj, tf = _imp(ck, "engine.turbojet"), _imp(ck, "engine.turbofan")
    a = tj.turbojet_opt(float(r.uniform(8, 30)), float(r.uniform(1300, 1700)), gam_hot=1.33, r_hot=289.0, etapolCHP=.9, etapolTHP=.9, eta_cc=.98)
    b = tf.turbofan_adapt(float(r.uniform(15, 40)), float(r.uniform(1400, 1700)), float(r.uniform(2, 9)), .7, gam_hot=1.33, etapolTBP=.9, etapolfan=.9)
    out = []
    for e in (a, b):
        e.flight_conditions(T0=float(r.uniform(220, 290)), P0=float(r.uniform(2e4, 1e5)), M0=float(r.uniform(.1, .85)))
        e.update()
        out += [e.far, e.Tt45, e.V9, e.norm_thrust(), e.spec_thrust(), e.Sfc(), e.thermal_efficiency(), e.propulsive_efficiency(), e.thermoprop_efficiency()]
    return out


def heat_friction(ck, r):
    fa, ra = _imp(ck, "aero.Fanno"), _imp(ck, "aero.Rayleigh")
    M = r.uniform(.2, 3, 5)
    out = [f(M) for f in (fa.maxFparam_Mach, fa.Pi_Picri, fa.NormdS, ra.maxTiratio_Mach, ra.Ti_Ticri, ra.NormdS)]
    return out + [ra.SubMach_TiTicri(.7), ra.SupMach_TiTicri(.7)]


def gases(ck, r):
    rg, ke, dg = _imp(ck, "aero.ThermoRealGas"), _imp(ck, "aero.ThermoKerosen"), _imp(ck, "aero.degree")
    T = float(r.uniform(300, 2000))
    return [dg.sin(T), dg.atan2(T, -3.0), rg.Cp(T), rg.Gamma(T), rg.Enthalpy(T), rg.Phi(T), ke.Cp(T), ke.Enthalpy(T), ke.Phi(T), ke.Pc_eff(T)]


def spectral(ck, r):
    ns = _imp(ck, "common.numspectral")
    c = ns.ChebCollocation(int(r.integers(5, 30)), float(r.uniform(-2, 0)), float(r.uniform(.5, 2)))
    f = np.cos(c.x)
    return [c.x, c.matder(1) @ f, c.matder(2) @ f, c.extrapol(f, np.linspace(0, .4, 7)), c.fit_to_gauss(c.x, f)]


def stability(ck, r):
    m = _imp(ck, "stability.OrrSommerfeld").Poiseuille(int(r.integers(20, 40)), alpha=1.0, Reynolds=float(r.uniform(500, 5000)))
    v, _ = m.solve_eig()
    v, w, o = m.select_and_sort(realmin=.1, realmax=1., imagmin=-2, imagmax=1, sort="imag")
    eu, md = _imp(ck, "stability.Euler"), _imp(ck, "aero.model1D")
    e = eu.Euler1D(12, 0.0, 1.0)
    x = e.x
    e.set_basestate(md.state(1 + .1 * x, .3 + .1 * x, 1 - .1 * x))
    e.set_BC("sym", "sym")
    b, a = e.get_RHS_time_matrices()
    return [v[o].real, v[o].imag, b, a]


ALL = {f.__name__: f for f in (nozzle, riemann, inflow, states, polars, shocks, expansion, conical, engines, heat_friction,
                                  gases, spectral, stability)}


def nested(ck, names, n):
    """run scenes for their nested calls; a scene that raises is a violation of the calling property"""
    for _ in range(n):
        for k in names:
            ck.call("scene:" + k, ALL[k], ck, ck.rng, limit=20_000_000)

MODULES = ["aerokit." + m for m in """aero.CompressibleFlow aero.Fanno aero.Isentropic aero.IterativeSolve aero.MassFlow aero.Propulsion aero.Rayleigh aero.ShockWave aero.Supersonic
aero.ThermoKerosen aero.ThermoRealGas aero.degree aero.model1D aero.nozzle aero.plot.defaultstyle aero.plot.isentropicpolar aero.plot.shockpolar aero.refstate
aero.riemann aero.unsteady1D common.defaultgas common.dicovar common.extendvar common.numspectral engine.Cycle_Turbofan engine.gasgenerator
engine.propu_be engine.propu_be_double_corps engine.turbofan engine.turbojet instance.nozzle instance.riemann instance.unsteady_inflow stability.Euler
stability.OrrSommerfeld""".split()]
