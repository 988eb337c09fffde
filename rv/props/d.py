"""D01-D02 nozzle: limits, regimes and fields."""
import numpy as np

from .. import gen, ref, scenes
from ..core import prop, Failed
from ..ref import L, l

NM = "aerokit.instance.nozzle"


def vals(*a):
    return not any(isinstance(x, Failed) for x in a)


class Ref:
    """one-dimensional flow through a nozzle of exit area ratio A"""

    def __init__(s, A, g):
        s.A, s.g = l(A), l(g)
        s.Msub, s.Msup = ref.mach_sigma_sub(s.A, s.g), ref.mach_sigma_sup(s.A, s.g)
        s.Msh = ref.down_mn(s.Msup, s.g)
        s.NPR0 = ref.ptps(s.Msub, s.g)
        s.NPR1 = ref.ptps(s.Msup, s.g)
        # static pressure behind a shock at the exit
        s.NPRsw = s.NPR1 / ref.ps_ratio(s.Msup, s.g)

    def regime(s, npr):
        return "subsonic" if npr < s.NPR0 else "shock inside" if npr < s.NPRsw else "overexpanded" if npr < s.NPR1 else "underexpanded"

    def margin(s, npr):
        return float(min(np.min(abs(l(npr) / x - 1)) for x in (s.NPR0, s.NPRsw, s.NPR1)))

    def exit_choked(s, npr):
        """subsonic exit Mach of a choked nozzle at exit pressure 1/npr: A*ps*M*sqrt(g*tau) = massflow(1)"""
        k = ref.massflow(1, s.g) * l(npr) / s.A
        f = lambda m: np.sqrt(s.g) * m * np.sqrt(ref.tau(m, s.g))
        return ref.bisect(f, k, L(0), L(1))

    def exit_mach(s, npr):
        k = s.regime(npr)
        if k == "subsonic":
            return ref.mach_ptps(l(npr), s.g)
        return s.exit_choked(npr) if k == "shock inside" else s.Msup

    def adapted_mach(s, npr):
        k = s.regime(npr)
        if k in ("subsonic", "underexpanded"):
            return ref.mach_ptps(l(npr), s.g)
        if k == "shock inside":
            return s.exit_choked(npr)
        # oblique shock of the given pressure ratio on the supersonic exit flow
        pr = s.NPR1 / l(npr)
        mn = ref.mn_ps_ratio(pr, s.g)
        sig = np.arcsin(mn / s.Msup) / ref.DEG
        return ref.down_mach_sigma(s.Msup, sig, s.g)


def draw_area(ck):
    r = ck.rng
    k = r.random()
    if k < .15:
        return float(r.choice([1.5, 2., 2.636, 3., 4., 10.]))
    if k < .3:
        return float(1 + 10.0 ** r.uniform(-4, -1))
    return float(1 + 10.0 ** r.uniform(-1.5, 1.5))


def draw_npr(ck, f, reg=None):
    r = ck.rng
    reg = reg or str(r.choice(["subsonic", "shock inside", "overexpanded", "underexpanded"]))
    lo, hi = {"subsonic": (L(1), f.NPR0), "shock inside": (f.NPR0, f.NPRsw), "overexpanded": (f.NPRsw, f.NPR1),
              "underexpanded": (f.NPR1, f.NPR1 * 40)}[reg]
    x = r.random()
    t = x if r.random() < .6 else 10.0 ** r.uniform(-4, 0) if r.random() < .5 else 1 - 10.0 ** r.uniform(-4, 0)
    npr = float(lo + (hi - lo) * l(t))
    if r.random() < .1 and lo < np.round(npr) < hi:
        npr = int(round(npr))
    return npr


def draw_gamma(ck):
    r = ck.rng
    return 1.4 if r.random() < .3 else float(gen.gamma(ck, 1, 1.05, 1.9)[0])


@prop("D01")
def d01(ck):
    nz, sw = ck.module(NM), ck.module("aerokit.aero.ShockWave")
    ck.rule = "one decision per limit or exit Mach number of one nozzle and pressure ratio"
    for n in ("choked subsonic limit", "shock at exit limit", "adapted limit", "limits are ordered", "nozzle.NPRsw", "exit Mach subsonic", "exit Mach shock inside",
              "exit Mach overexpanded", "exit Mach underexpanded", "adapted Mach overexpanded", "adapted Mach shock inside", "limits of an array"):
        ck.require(n)
    r = ck.rng
    for k in range(ck.n(220, 4000)):
        A, g = draw_area(ck), draw_gamma(ck)
        f = Ref(A, g)
        if f.Msup > 40:
            ck.skip("beyond Mach 40")
            continue
        ga, gk = ((), {}) if g == 1.4 and r.random() < .5 else ((g,), {}) if r.random() < .5 else ((), {"gamma": g})
        lim = {}
        for n, fn, w in (("choked subsonic limit", nz.NPR_choked_subsonic, f.NPR0), ("shock at exit limit", nz.NPR_shock_at_exit, f.NPRsw),
                         ("adapted limit", nz.NPR_choked_supersonic, f.NPR1)):
            lim[n] = ck.call(n, fn, A, *ga, **gk)
            # relative accuracy: d(ln NPR)/d(ln A) stays below ~2*g*M^2/(M^2-1)*...; 1e-7 covers the area round-off near throat
            ck.close(n, lim[n], float(w), rtol=1e-9 + 3e-15 / (A - 1) ** .5, case=(A, g))
        if all(vals(x) for x in lim.values()):
            a, b, c = lim.values()
            ck.true("limits are ordered", 1 < a < b < c, (A, g), [a, b, c])
        # object: the section law gives the same ratio
        o = None
        for reg in ("subsonic", "shock inside", "overexpanded", "underexpanded"):
            npr = draw_npr(ck, f, reg)
            if f.margin(npr) < 1e-6 or npr <= 1 or f.regime(npr) != reg:
                ck.skip("pressure ratio on a limit")
                continue
            m = ck.call("exit Mach " + reg, nz.Ms_from_AsAc_NPR, A, npr, *ga, **gk)
            want = float(f.exit_mach(npr))
            rt = 1e-8 + 1e-12 / (A - 1)
            at = 3e-15 / abs(want) + (3e-15 / (A - 1) if reg == "shock inside" else 0)
            ck.close("exit Mach " + reg, m, want, rtol=rt, atol=at, case=(A, npr, g))
            if vals(m) and reg in ("subsonic", "shock inside"):
                # direct statements: conserve mass through the throat, match the outside pressure
                pt = float(ref.ptps(m, g)) / npr
                if reg == "shock inside":
                    ck.close("choked exit conserves mass", pt * A * float(ref.massflow(m, g)), float(ref.massflow(1, g)), rtol=1e-8, case=(A, npr, g))
                    ck.true("shock loses total pressure", pt < 1 + 1e-9, (A, npr, g))
                else:
                    ck.close("subsonic exit has no loss", pt, 1.0, rtol=1e-9, case=(A, npr, g))
            m = ck.call("adapted Mach " + reg, nz.Madapt_from_AsAc_NPR, A, npr, *ga, **gk)
            ck.close("adapted Mach " + reg, m, float(f.adapted_mach(npr)), rtol=rt * (10 if reg == "overexpanded" else 1), atol=at, case=(A, npr, g))
        if vals(lim["shock at exit limit"]):  # the flow adapts continuously when the shock leaves the exit
            for _ in range(3):
                npr = float(lim["shock at exit limit"]) * (1 + float(r.choice([0, 2.3e-16, 5e-16, 10.0 ** r.uniform(-15, -9)])))
                ck.close("shock leaves the exit", ck.call("adapted Mach", nz.Madapt_from_AsAc_NPR, A, npr, *ga, **gk), float(f.Msh), rtol=1e-6 + 1e-12 / (A - 1), case=(A, npr, g))
        if k % 3 == 0:
            n = int(r.integers(3, 12))
            x = np.linspace(0, 1, n)
            sec = 1 + abs(x - x[n // 2]) * r.uniform(.2, 3)
            kw = {} if g == 1.4 else {"gamma": g}
            force = r.random() < .5
            o = ck.call("nozzle", nz.nozzle, x, sec, A, **kw) if force else ck.call("nozzle", nz.nozzle, x, sec, **kw)
            if vals(o):
                AA = A if force else sec[-1] / sec.min()
                ff = Ref(AA, g)
                c = (AA, g, "forced" if force else "from section")
                for n, w in (("NPR0", ff.NPR0), ("NPRsw", ff.NPRsw), ("NPR1", ff.NPR1), ("Msub", ff.Msub), ("Msup", ff.Msup), ("Msh", ff.Msh), ("AsoAc", AA)):
                    ck.close("nozzle." + n, getattr(o, n), float(w), rtol=1e-8 + 1e-12 / (AA - 1), case=c)
        if k % 5 == 0:
            Av = np.array([draw_area(ck) for _ in range(6)])
            gv = gen.gamma(ck, 6, 1.1, 1.9) if r.random() < .5 else g
            ff = Ref(Av, np.broadcast_to(gv, Av.shape))
            ok = np.asarray(ff.Msup < 40)
            for fn, w in ((nz.NPR_choked_subsonic, ff.NPR0), (nz.NPR_shock_at_exit, ff.NPRsw), (nz.NPR_choked_supersonic, ff.NPR1)):
                v = ck.call("limits of an array", fn, Av, gv)
                ck.close("limits of an array", v, w.astype(float), rtol=1e-9 + 3e-15 / (Av - 1) ** .5, case=(Av, gv), where=ok)


def section(ck):
    """a convergent-divergent section law; returns coordinates, sections and index of the throat"""
    r = ck.rng
    k = r.random()
    n = int(r.choice([r.integers(3, 12), r.integers(12, 80), r.integers(80, 400), r.integers(400, 3000)], p=[.3, .3, .3, .1]))
    x = np.linspace(0, r.choice([1., 2., .3]), n)
    if k < .5:
        # smooth: parabolic or sinusoidal
        xt = r.uniform(.15, .7)
        y = x / x[-1]
        p = r.choice([1, 2, 3])
        s = 1 + np.where(y < xt, r.uniform(.1, 4) * np.abs(y - xt) ** p, r.uniform(.1, 8) * np.abs(y - xt) ** p)
        if r.random() < .5:
            s = s / s.min()
    elif k < .8:
        # random monotone convergent then divergent, throat at a station
        nc = int(r.integers(1, n - 1)) if r.random() < .8 else 0  # 0: purely divergent, throat at the inlet
        up = 1 + np.cumsum(r.exponential(1, n - nc - 1)) * r.uniform(.01, .5)
        do = 1 + np.cumsum(r.exponential(1, nc)) * r.uniform(.01, .5)
        s = np.concatenate([do[::-1], [1.0], up])
        if r.random() < .3 and nc > 1:
            s[nc - 1] = 1.0  # throat of constant section
    elif k < .87 and n > 5:
        # sections that are not monotone on either side of the throat
        s = 1 + 10.0 ** r.uniform(-3, 1, n)
        s[int(r.integers(1, n - 1))] = 1.0
    else:
        s = 2.0 - np.sin(np.linspace(r.uniform(0, 1), r.uniform(2, 3), n))
    s = s * float(r.choice([1., 1., 1e-4, .37, 25., r.uniform(.01, 100)]))
    s = np.maximum(s, 0)
    if r.random() < .1:
        # sections counted in whole units (areas of a drawing in mm^2): an array of integers
        s = np.maximum(np.round(s / s.min() * r.choice([1, 3, 7, 1000])), 1).astype(int)
    if s[-1] <= s.min() * (1 + 1e-4):
        return section(ck)
    if r.random() < .3:  # the order of the sections is that of the flow, whatever the abscissas
        x = [-x, x + 1e3, x - .5 * x[-1], 1e-6 * x, np.arange(n), x[::-1] * 2, np.sort(r.random(n))][int(r.integers(7))]
    if r.random() < .12 and n < 2 ** 15:
        x = (x / np.max(np.abs(x)) * 100).astype(r.choice([np.float32, np.float16, np.int16]))
    return x, s


@prop("D02")
def d02(ck):
    nz = ck.module(NM)
    ck.rule = "one decision per field property of one nozzle and pressure ratio (all stations)"
    for n in ("mass flow is uniform", "subsonic before the throat", "exit pressure", "exit Mach", "shock loss", "supersonic divergent", "no loss without shock",
              "static pressure is isentropic", "later pressure ratio leaves earlier fields", "shock position"):
        ck.require(n)
    r = ck.rng
    where = np.zeros(4)
    inlet = 0
    for k in range(ck.n(260, 4000)):
        x, s = section(ck)
        g = draw_gamma(ck)
        s0 = s.copy()
        kw = {} if g == 1.4 and r.random() < .6 else {"gamma": g}
        A = float(s[-1] / s.min())
        force = r.random() < .25
        if force:
            A = A * float(r.choice([1.0, r.uniform(1.0, 1.4)]))
            kw["AsoAc"] = A
        f = Ref(A, g)
        if f.Msup > 40:
            continue
        ctor = r.random() < .3
        npr0 = draw_npr(ck, f)
        if ctor and npr0 > 1:
            kw["NPR"] = npr0
        if r.random() < .2:
            kw["ref_rttot"] = float(r.uniform(.5, 3e5))
        o = ck.call("nozzle", nz.nozzle, x, s, **kw)
        if not vals(o):
            continue
        area = l(s) * l(A) / l(s[-1])
        it = int(np.argmin(s))
        if hasattr(o, "ithroat"):
            ck.decide("throat station", s[o.ithroat] <= s.min() * (1 + 1e-11), (s, A), o.ithroat)
        inlet += it == 0
        prev = None
        seq = ([npr0] if "NPR" in kw else []) + [draw_npr(ck, f) for _ in range(int(r.integers(1, 4)))]
        if r.random() < .3:
            # one pressure ratio asked again, at once or later
            j = int(r.integers(len(seq)))
            seq.insert(j + 1 if r.random() < .6 else len(seq), seq[j])
        for i, npr in enumerate(seq):
            if npr <= 1 or f.margin(npr) < 1e-5:
                ck.skip("pressure ratio on a limit")
                continue
            if not (i == 0 and "NPR" in kw):
                if isinstance(ck.call("set_NPR", o.set_NPR, npr), Failed):
                    continue
            M, p, pt = ck.call("Mach", o.Mach), ck.call("Ps", o.Ps), ck.call("Ptot", o.Ptot)
            if not vals(M, p, pt):
                continue
            c = {"A": A, "gamma": g, "NPR": npr, "stations": len(s), "section": s, "history": seq[:i], "kw": sorted(kw)}
            if prev is not None:
                ck.decide("later pressure ratio leaves earlier fields", all(np.array_equal(a, b) for a, b in zip(*prev)), c)
            prev = ((M, p, pt), tuple(np.array(v, copy=True) for v in (M, p, pt)))
            if r.random() < .15:  # what the caller does with the fields is undone by the next computation, even of the same ratio
                for v in (M, p, pt):
                    if isinstance(v, np.ndarray) and v.flags.writeable:
                        v *= -2.
                if isinstance(ck.call("set_NPR", o.set_NPR, npr), Failed):
                    continue
                M, p, pt = ck.call("Mach", o.Mach), ck.call("Ps", o.Ps), ck.call("Ptot", o.Ptot)
                if not vals(M, p, pt):
                    continue
                prev = None
                ck.notes["fields computed again after an edit"] = ck.notes.get("fields computed again after an edit", 0) + 1
            reg = f.regime(npr)
            if reg == "shock inside" and np.any(np.diff(s[it:]) < -1e-12 * s[it]):
                ck.skip("shock in a divergent with several positions")
                prev = None
                continue
            where[["subsonic", "shock inside", "overexpanded", "underexpanded"].index(reg)] += 1
            if not ck.decide("fields cover the stations", all(np.shape(v) == s.shape and np.all(np.isfinite(v)) for v in (M, p, pt)), c, [M, p, pt]):
                continue
            ar = area.astype(float)
            # mass flow: inviscid perfect gas of uniform total temperature; d(ln m)/dM vanishes at M = 1
            m = pt * ar * np.asarray(ref.massflow(M, g), float)
            tot = float(ref.massflow(1, g)) if reg != "subsonic" else A * float(ref.massflow(ref.mach_ptps(l(npr), g), g))
            ck.close("mass flow is uniform", m, np.full(s.shape, tot), rtol=1e-7, case=c)
            ck.close("static pressure is isentropic", p * np.asarray(ref.ptps(M, g), float), pt, rtol=1e-9, case=c)
            ck.true("subsonic before the throat", M[: it + 1] <= 1 + 1e-7, c)
            ck.close("inlet total pressure", pt[: it + 1], np.ones(it + 1), rtol=1e-12, case=c)
            if not force and reg != "subsonic":
                ck.close("sonic throat", M[it], 1.0, atol=1e-6, case=c)
            if reg in ("subsonic", "shock inside"):
                ck.close("exit pressure", p[-1], 1 / npr, rtol=1e-7, case=c)
            we = float(f.exit_mach(npr))
            ck.close("exit Mach", M[-1], we, rtol=1e-7 + 1e-10 / (A - 1) + 1e-13 / we ** 2, case=c)
            if reg != "shock inside":
                ck.close("no loss without shock", pt, np.ones(s.shape), rtol=1e-9, case=c)
            if reg == "subsonic":
                ck.true("subsonic everywhere", M < 1 + 1e-7, c)
            elif reg != "shock inside":
                ck.true("supersonic divergent", M[it + 1:][ar[it + 1:] > 1 + 1e-9] > 1, c)
            else:
                loss = ref.ptps(l(we), g) / l(npr)
                if 1 - loss < 1e-9:
                    ck.skip("vanishing shock")
                    continue
                msh = ref.mn_pt_ratio(loss, g)
                ash = float(ref.sigma(msh, g))
                tol = 2e-5 + 1e-9 / float(1 - loss)
                div = np.arange(s.size) > it
                before, after = div & (ar < ash * (1 - tol)), div & (ar > ash * (1 + tol))
                sup = div & (ar > 1 + 1e-7)
                ck.true("shock position", np.all(M[before & sup] > 1) and np.all(M[after] < 1 + 1e-12) and (np.any(after) or ash * (1 + tol) >= ar[-1]), c,
                        {"shock area ratio": ash, "throat": it, "Mach": M})
                want = np.where(after, float(loss), 1.0)
                ck.close("shock loss", pt, want, rtol=1e-6, case=c, where=~div | before | after)
                # total pressure drops once, along the divergent
                d = np.diff(pt)
                ck.true("total pressure drops once", np.count_nonzero(np.abs(d) > 1e-12) == 1 and np.all(d <= 1e-12), c, pt)
        ck.decide("coordinates are those given", np.array_equal(getattr(o, "x", x), x), c if seq else None)
        ck.decide("section law is not modified", np.array_equal(s, s0), c if seq else None)
        if k % 9 == 0:
            # exact limits given by the object itself
            for n, npr, w in (("NPR0", o.NPR0, f.Msub), ("NPR1", o.NPR1, f.Msup)):
                if npr <= 1:
                    continue
                if not isinstance(ck.call("limit " + n, o.set_NPR, npr), Failed):
                    ck.close("fields at the limit " + n, o.Mach()[-1], float(w), rtol=2e-6 + 1e-6 / (A - 1) ** .5, case=(n, A, g, s))
                    ck.close("fields at the limit " + n, o.Ps()[-1], 1 / npr, rtol=2e-6 + 1e-6 / (A - 1) ** .5, case=(n, A, g, s))
    # convergent nozzle: throat at the exit
    for k in range(ck.n(20, 300)):
        n = int(r.integers(2, 40))
        s = float(10 ** r.uniform(-3, 2)) * (1 + np.linspace(r.uniform(.1, 5), 0, n) ** r.choice([1, 2]))
        g = draw_gamma(ck)
        o = ck.call("convergent", nz.nozzle, np.arange(n), s, gamma=g)
        if not vals(o):
            continue
        crit = float(ref.ptps(1, g))
        if hasattr(o, "ithroat"):
            ck.decide("throat station", s[o.ithroat] <= s.min() * (1 + 1e-11), (s, "convergent"), o.ithroat)
        ck.close("convergent limit", [o.NPR0, o.NPR1], [crit, crit], rtol=1e-6, case=(s, g))
        for npr in (1 + (crit - 1) * r.uniform(.01, .99), crit * r.uniform(1.01, 20)):
            if isinstance(ck.call("convergent", o.set_NPR, float(npr)), Failed):
                continue
            we = float(ref.mach_ptps(min(npr, crit), g))
            c = (s, g, npr)
            ck.close("convergent exit Mach", o.Mach()[-1], we, rtol=1e-6, case=c)
            w = np.asarray(ref.mach_sigma_sub(l(s) / l(s[-1]) * ref.sigma(l(we), g), np.broadcast_to(g, s.shape)), float)
            ck.close("convergent Mach", o.Mach(), w, rtol=1e-6, atol=2e-6, case=c)
            ck.close("convergent Ps", o.Ps(), 1 / np.asarray(ref.ptps(w, g), float), rtol=1e-5, case=c)
    ck.notes["nozzles with the throat at the inlet"] = inlet
    ck.notes["fields observed per regime (subsonic, shock, over-, under-expanded)"] = where.tolist()
    with ck.tapped({}):
        scenes.nested(ck, ("nozzle",), ck.n(3, 30))
