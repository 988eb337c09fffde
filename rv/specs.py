"""Contracts of the closed-form flow functions (families A, reused by H03, I01, I02 and I04).

A Spec states, for one public function, what an observed call must have returned.  It judges the
observation only: nothing depends on how the function is written."""
import numpy as np

from . import core, gen, ref
from .ref import L, l

G14 = 1.4
SPECS = {}


class Spec:
    def __init__(self, mod, fn, args, *, pid, ref=None, inv=None, dom, gen, rtol=1e-10, atol=0.0, defaults=None,
                 forms="any", scalar_extra=None):
        self.mod, self.fn, self.args, self.pid = mod, fn, args, pid
        self.ref, self.inv, self.dom, self.gen = ref, inv, dom, gen
        self.rtol, self.atol = rtol, atol
        self.defaults = {"gamma": G14}
        self.defaults.update(defaults or {})
        self.forms = forms
        self.name = mod.rsplit(".", 1)[-1] + "." + fn
        SPECS[self.name] = self

    # -- oracle
    def judge(self, ck, args, res, mech=None):
        mech = mech or self.name
        a = {}
        for k in self.args:
            v = args[k] if k in args else self.defaults.get(k)
            if v is None:
                return ck.skip(mech)
            try:
                a[k] = l(v)
            except (TypeError, ValueError):
                return ck.skip(mech)
        try:
            b = dict(zip(a, np.broadcast_arrays(*a.values())))
        except ValueError:
            return ck.skip(mech)
        with np.errstate(all="ignore"):
            ok = np.asarray(self.dom(**b), bool) & np.all([np.isfinite(v) for v in b.values()], axis=0)
            if not np.any(ok):
                return ck.skip(mech)
            case = {k: (args[k] if k in args else "(omitted)") for k in self.args}
            if self.inv:
                return self._judge_inverse(ck, mech, b, ok, res, case)
            want = self.ref(**b)
            tol = l(self.atol) + self.rtol * np.abs(want)
            for k in b:  # numerical conditioning of the observed arguments
                for s in (1 + 2e-14, 1 - 2e-14):
                    w = self.ref(**{**b, k: b[k] * s})
                    d = np.abs(w - want)
                    tol = tol + np.where(np.isfinite(d), d, 0)
        ck.close(mech, res, np.asarray(want), rtol=0.0, atol=tol, case=case, where=ok & np.isfinite(want))

    def _judge_inverse(self, ck, mech, b, ok, res, case):
        target, fwd, lo, hi, xtol = self.inv
        t = b[target]
        o = {k: v for k, v in b.items() if k != target}
        try:
            x = l(res)
        except (TypeError, ValueError):
            return ck.decide(mech, False, case, {"not a number": repr(res)[:100]})
        if x.size != t.size or (x.size != 1 and x.shape != t.shape):
            return ck.decide(mech + ":shape", False, case, {"got shape": x.shape, "expected shape": t.shape})
        x = x.reshape(t.shape)
        a, z = l(lo(**o)), l(hi(**o))
        inside = (x >= a * (1 - 2e-6)) & (x <= z * (1 + 2e-6))
        f1 = fwd(np.clip(x * (1 - xtol) - 1e-14, a, z), **o)
        f2 = fwd(np.clip(x * (1 + xtol) + 1e-14, a, z), **o)
        e = 1e-12 * np.abs(t) + self.atol
        brk = (np.minimum(f1, f2) - e <= t) & (t <= np.maximum(f1, f2) + e)
        bad = ok & ~(inside & brk)
        d = None
        if np.any(bad):
            i = int(np.flatnonzero(np.ravel(bad))[0])
            d = {"index": i, "got": np.ravel(x)[i], "allowed range": [np.ravel(np.broadcast_to(a, x.shape))[i], np.ravel(np.broadcast_to(z, x.shape))[i]],
                 "target": np.ravel(t)[i], "value at result": np.ravel(fwd(np.clip(x, a, z), **o))[i],
                 "bad elements": int(bad.sum())}
        ck.decide(mech, not np.any(bad), case, d, size=x.size)

    def contract(self):
        return lambda ck, name, args, res: self.judge(ck, args, res)

    # -- workload
    def draw(self, ck, n=12, form=None, omit=None):
        """positional and keyword arguments of one call"""
        r = ck.rng
        if form is None:
            if self.forms == "scalar":
                form = str(r.choice(gen.SCALAR_FORMS[:2]))
            else:
                form = str(r.choice(gen.SCALAR_FORMS + gen.ARRAY_FORMS))
        m = 1 if form in gen.SCALAR_FORMS + ("size-1",) else (n * int(r.choice([40, 250])) if form == "large" else n)
        vec_gamma = form not in gen.SCALAR_FORMS and self.forms != "scalar" and r.random() < 0.3
        if omit is None:
            omit = r.random() < 0.2
        g = gen.gamma(ck, 1, *self.grange) if not vec_gamma else gen.gamma(ck, m, *self.grange)
        if omit:
            g = np.array([G14])
            vec_gamma = False
        if m > 1 and not vec_gamma and r.random() < .3:
            # neighbouring values only: a whole array in one narrow range
            big = self.gen(ck, 8 * m, np.broadcast_to(g, (8 * m,)))
            by = str(r.choice([k for k in big if np.ndim(big[k])]))
            i = np.argsort(np.asarray(big[by]), kind="stable")
            j = int(r.integers(7 * m + 1))
            i = i[j:j + m]
            i = i if r.random() < .5 else r.permutation(i)
            v = {k: (np.asarray(x)[i] if np.ndim(x) else x) for k, x in big.items()}
        else:
            v = self.gen(ck, m, np.broadcast_to(g, (m,)))
        out = {}
        for k in self.args:
            if k != "gamma" and k in self.defaults and r.random() < 0.15:
                continue
            if k == "gamma":
                if omit:
                    continue
                out[k] = gen.as_form(ck, g, form) if vec_gamma else gen.as_form(ck, g, "float")
            else:
                out[k] = gen.as_form(ck, np.asarray(v[k], float), "float" if k in self.scalar_args else form)
        # legal scalar / array mixtures
        if form not in gen.SCALAR_FORMS and self.forms != "scalar" and len(out) > 1 and r.random() < 0.3:
            k = str(r.choice(list(out)))
            mixed = dict(out)
            mixed[k] = float(np.ravel(out[k])[0])
            a = {**self.defaults, **mixed}
            if np.all(self.dom(**dict(zip(self.args, np.broadcast_arrays(*[l(a[q]) for q in self.args]))))):
                out = mixed
        # integers in place of some values, whatever the type of the others
        if self.forms != "scalar" and r.random() < 0.25:
            k = str(r.choice([k for k in out]))
            if k != "gamma":
                w = np.rint(np.asarray(out[k], float))
                whole = dict(out)
                whole[k] = w.astype(int) if np.ndim(w) else int(w)
                a = {**self.defaults, **whole}
                if np.all(np.abs(w) < 2 ** 53) and np.all(self.dom(**dict(zip(self.args, np.broadcast_arrays(*[l(a[q]) for q in self.args]))))):
                    out = whole
        pos, kw = [], {}
        names = list(out)
        npos = int(r.integers(1, len(names) + 1))
        for i, k in enumerate(self.args):
            if k not in out:
                break
            if i < npos:
                pos.append(out[k])
            else:
                kw[k] = out[k]
        for k in out:
            if k not in kw and self.args.index(k) >= len(pos):
                kw[k] = out[k]
        return pos, kw

    grange = (1.02, 2.0)
    scalar_args = ()

    def get(self, ck):
        return getattr(ck.module(self.mod), self.fn)

    def drive(self, ck, n):
        """n monitored direct calls (the tap judges them)"""
        for _ in range(n):
            pos, kw = self.draw(ck)
            ck.call(self.name, self.get(ck), *pos, **kw)

    def tap(self):
        return {(self.mod, self.fn): self.contract()}


def taps(pid=None, names=None):
    out = {}
    for s in SPECS.values():
        if (pid is None or s.pid == pid) and (names is None or s.name in names):
            out.update(s.tap())
    return out


def of(pid):
    return [s for s in SPECS.values() if s.pid == pid]


def S(*a, grange=None, **k):
    s = Spec(*a, **k)
    if grange:
        s.grange = grange
    return s


AERO = "aerokit.aero."
gok = lambda gamma: (gamma > 1.005) & (gamma <= 2.0 + 1e-12)


def _m(lo, hi):
    return lambda ck, n, g: {"Mach": gen.mach(ck, n, lo, hi)}


# ------------------------------------------------------------------ A01
I = AERO + "Isentropic"
S(I, "TtTs_Mach", ["Mach", "gamma"], pid="A01", ref=lambda Mach, gamma: ref.tau(Mach, gamma),
  dom=lambda Mach, gamma: gok(gamma) & (np.abs(Mach) <= 1001), gen=_m(0, 1000), rtol=1e-12)
S(I, "PtPs_Mach", ["Mach", "gamma"], pid="A01", ref=lambda Mach, gamma: ref.ptps(Mach, gamma),
  dom=lambda Mach, gamma: gok(gamma) & (np.abs(Mach) <= 1001), gen=_m(0, 1000), rtol=1e-11)
S(I, "Mach_TtTs", ["TtTs", "gamma"], pid="A01", ref=lambda TtTs, gamma: ref.mach_tau(np.maximum(TtTs, 1), gamma),
  dom=lambda TtTs, gamma: gok(gamma) & (TtTs >= 1), gen=lambda ck, n, g: {"TtTs": np.maximum(1, ref.tau(gen.mach(ck, n, 0, 1000), g).astype(float))},
  rtol=1e-11, atol=1e-14)
S(I, "Mach_PtPs", ["PtPs", "gamma"], pid="A01", ref=lambda PtPs, gamma: ref.mach_ptps(np.maximum(PtPs, 1), gamma),
  dom=lambda PtPs, gamma: gok(gamma) & (PtPs >= 1) & (PtPs < 1e280),
  gen=lambda ck, n, g: {"PtPs": np.clip(ref.ptps(gen.mach(ck, n, 0, 1000), g).astype(float), 1, 1e270)}, rtol=1e-10, atol=0)
# (PtPs**a - 1) near one: absolute error of a few ulp on Mach**2
SPECS["Isentropic.Mach_PtPs"].atol = 3e-8
S(I, "Velocity_MachTt", ["Mach", "Tt", "r", "gamma"], pid="A01", ref=lambda Mach, Tt, r, gamma: ref.velocity(Mach, Tt, r, gamma),
  dom=lambda Mach, Tt, r, gamma: gok(gamma) & (np.abs(Mach) <= 1001) & (Tt > 0) & (r > 0), defaults={"r": 287.1},
  gen=lambda ck, n, g: {"Mach": gen.mach(ck, n, 0, 1000), "Tt": gen.loguni(ck, n, 1e-2, 1e4),
                        "r": np.full(n, 287.1) if ck.rng.random() < .3 else gen.loguni(ck, n, 0.1, 5e3)}, rtol=1e-11)

# ------------------------------------------------------------------ A02, A03
MF = AERO + "MassFlow"
S(MF, "WeightMassFlow", ["Mach", "r", "gamma"], pid="A02", ref=lambda Mach, r, gamma: ref.massflow(Mach, gamma),
  dom=lambda Mach, r, gamma: gok(gamma) & (np.abs(Mach) <= 1001), defaults={"r": 287.1},
  gen=lambda ck, n, g: {"Mach": gen.mach(ck, n, 0, 1000), "r": np.full(n, 287.1)}, rtol=1e-11).scalar_args = ("r",)
S(MF, "Sigma_Mach", ["Mach", "gamma"], pid="A02", ref=lambda Mach, gamma: ref.sigma(Mach, gamma),
  dom=lambda Mach, gamma: gok(gamma) & (Mach <= 1001) & (Mach > 1e-9), gen=_m(1e-5, 1000), rtol=1e-11)


def _sig_sub(ck, n, g):
    s = np.where(ck.rng.random(n) < .5, gen.loguni(ck, n, 1, 1e6), 1 + gen.loguni(ck, n, 1e-10, 5))
    s = np.where(ck.rng.random(n) < .15, np.round(s), s)
    return np.where(ck.rng.random(n) < .05, 1.0, s)


def _sig_sup(ck, n, g):
    return np.maximum(1.0, ref.sigma(gen.mach(ck, n, 1, 50), g).astype(float))


_one = lambda gamma, **k: np.ones_like(gamma)
S(MF, "MachSub_Sigma", ["sigma", "gamma"], pid="A03", dom=lambda sigma, gamma: (gamma >= 1.049) & gok(gamma) & (sigma >= 1) & (sigma < 1.01e6),
  inv=("sigma", lambda x, gamma: ref.sigma(x, gamma), lambda gamma: np.full_like(gamma, 1e-8), _one, 1e-9),
  gen=lambda ck, n, g: {"sigma": _sig_sub(ck, n, g)}, grange=(1.05, 2.0))
S(MF, "MachSup_Sigma", ["sigma", "gamma"], pid="A03",
  dom=lambda sigma, gamma: (gamma >= 1.049) & gok(gamma) & (sigma >= 1) & (sigma <= ref.sigma(51, gamma)),
  inv=("sigma", lambda x, gamma: ref.sigma(x, gamma), _one, lambda gamma: np.full_like(gamma, 100), 1e-9),
  gen=lambda ck, n, g: {"sigma": _sig_sup(ck, n, g)}, grange=(1.05, 2.0))


def _gen_mach_sigma(ck, n, g):
    sup = ck.rng.random(n) < .5
    s = np.where(sup, _sig_sup(ck, n, g), _sig_sub(ck, n, g))
    m0 = np.where(sup, ck.rng.uniform(1.001, 20, n), ck.rng.uniform(0.01, 1.0, n))
    m0 = np.where(ck.rng.random(n) < .2, np.where(sup, 2.0, .5), m0)
    return {"sigma": s, "Mach": m0}


S(MF, "Mach_Sigma", ["sigma", "Mach", "gamma"], pid="A03", defaults={"Mach": 2.0},
  dom=lambda sigma, Mach, gamma: (gamma >= 1.049) & gok(gamma) & (sigma >= 1) & np.where(Mach > 1, sigma <= ref.sigma(51, gamma), sigma < 1.01e6),
  inv=("sigma", lambda x, Mach, gamma: ref.sigma(x, gamma), lambda Mach, gamma: np.where(Mach > 1, 1, 1e-8),
       lambda Mach, gamma: np.where(Mach > 1, 100, 1), 1e-9), gen=_gen_mach_sigma, grange=(1.05, 2.0))

# ------------------------------------------------------------------ A04, A05
SW = AERO + "ShockWave"
_mn = lambda ck, n, g: {"Mn": gen.mach(ck, n, 1, 1000)}
_dmn = lambda Mn, gamma: gok(gamma) & (Mn >= 1 - 1e-12) & (Mn <= 1001)
for _f, _r, _t in (("Ps_ratio", ref.ps_ratio, 1e-11), ("Rho_ratio", ref.rho_ratio, 1e-11), ("Ts_ratio", ref.ts_ratio, 1e-11),
                   ("downstream_Mn", ref.down_mn, 1e-10), ("Pt_ratio", ref.pt_ratio, 2e-10)):
    S(SW, _f, ["Mn", "gamma"], pid="A04", ref=lambda Mn, gamma, r=_r: r(Mn, gamma), dom=_dmn, gen=_mn, rtol=_t)
S(SW, "Mn_Ps_ratio", ["Pratio", "gamma"], pid="A05", ref=lambda Pratio, gamma: ref.mn_ps_ratio(np.maximum(Pratio, 1), gamma),
  dom=lambda Pratio, gamma: gok(gamma) & (Pratio >= 1) & (Pratio < 1e7), rtol=1e-11,
  gen=lambda ck, n, g: {"Pratio": np.maximum(1, ref.ps_ratio(gen.mach(ck, n, 1, 2000), g).astype(float))})
S(SW, "Mn_Pt_ratio", ["ptratio", "gamma"], pid="A05", forms="scalar", grange=(1.05, 1.7),
  dom=lambda ptratio, gamma: (gamma >= 1.049) & (gamma <= 1.701) & (ptratio > 0) & (np.log(ptratio) >= ref.ln_pt_ratio(30.5, gamma))
  & (np.log(ptratio) <= ref.ln_pt_ratio(1.00099, gamma)),
  inv=("ptratio", lambda x, gamma: ref.pt_ratio(x, gamma), _one, lambda gamma: np.full_like(gamma, 40), 1e-6),
  gen=lambda ck, n, g: {"ptratio": ref.pt_ratio(np.maximum(1.001, gen.mach(ck, n, 1.001, 30)), g).astype(float)})

# ------------------------------------------------------------------ A06
D = lambda x: x * ref.DEG


def _mach_angle(ck, n, g):
    M = np.maximum(gen.mach(ck, n, 1.01, 1000), 1.01)
    m = ref.mu(M).astype(float)
    f = ck.rng.random(n)
    f = np.where(ck.rng.random(n) < .1, ck.rng.choice([1e-4, 1e-2, .5, .999, 1.0], n), f)
    return {"Mach": M, "sigma": np.minimum(90.0, m + f * (90 - m) + 1e-9)}


def _mach_pr(ck, n, g):
    v = _mach_angle(ck, n, g)
    mn = v["Mach"] * np.sin(np.radians(v["sigma"]))
    p = np.maximum(1 + 1e-9, ref.ps_ratio(np.minimum(mn, v["Mach"] * (1 - 1e-9)), g).astype(float))
    return {"Mach": v["Mach"], "Pratio": p}


_dma = lambda Mach, gamma: gok(gamma) & (Mach >= 1.005) & (Mach <= 1001)
S(SW, "deflection_Mach_sigma", ["Mach", "sigma", "gamma"], pid="A06", ref=lambda Mach, sigma, gamma: ref.defl(Mach, sigma, gamma),
  dom=lambda Mach, sigma, gamma: _dma(Mach, gamma) & (sigma > 0) & (sigma <= 90) & (Mach * np.sin(D(sigma)) >= 1 - 1e-9),
  gen=_mach_angle, atol=1e-10)


def _sig_of_p(Mach, Pratio, gamma):
    return np.arcsin(np.minimum(ref.mn_ps_ratio(Pratio, gamma) / Mach, 1)) / ref.DEG


_dpr = lambda Mach, Pratio, gamma: _dma(Mach, gamma) & (Pratio > 1) & (ref.mn_ps_ratio(Pratio, gamma) <= Mach * (1 - 1e-10))
S(SW, "deflection_Mach_ShockPsratio", ["Mach", "Pratio", "gamma"], pid="A06", dom=_dpr, gen=_mach_pr, atol=1e-9,
  ref=lambda Mach, Pratio, gamma: ref.defl(Mach, _sig_of_p(Mach, Pratio, gamma), gamma))
S(SW, "downstreamMach_Mach_ShockPsratio", ["Mach", "Pratio", "gamma"], pid="A06", dom=_dpr, gen=_mach_pr, rtol=1e-9,
  ref=lambda Mach, Pratio, gamma: ref.down_mach_sigma(Mach, _sig_of_p(Mach, Pratio, gamma), gamma))
for _f, _r in (("sigma_DevMax", ref.sig_max), ("sigma_Sonic", ref.sig_sonic),
               ("dev_Max", lambda M, g: ref.defl(M, ref.sig_max(M, g), g)), ("dev_Sonic", lambda M, g: ref.defl(M, ref.sig_sonic(M, g), g))):
    S(SW, _f, ["Mach", "gamma"], pid="A06", dom=_dma, ref=lambda Mach, gamma, r=_r: r(Mach, gamma),
      gen=lambda ck, n, g: {"Mach": np.maximum(1.01, gen.mach(ck, n, 1.01, 1000))}, atol=1e-8)

# ------------------------------------------------------------------ A07
DMAX = 0.9995


def _mach_dev(lo):
    def f(ck, n, g):
        M = np.maximum(gen.mach(ck, n, 1.01, 50), 1.01)
        d = ref.defl(M, ref.sig_max(M, g), g).astype(float)
        f = ck.rng.random(n)
        f = np.where(ck.rng.random(n) < .15, ck.rng.choice([0.0, 1e-6, 1e-3, .99, .999], n), f * .999)
        if lo < 0:
            f = f * ck.rng.choice([-1, 1], n)
        v = f * d
        k = np.round(v)
        v = np.where((ck.rng.random(n) < .1) & (np.abs(k) <= .99 * d), k, v)
        return {"Mach": M, "deflection": v}
    return f


_ddev = lambda Mach, deflection, gamma: (gamma >= 1.049) & (gamma <= 1.701) & (Mach >= 1.0099) & (Mach <= 50.5) & \
    (np.abs(deflection) <= DMAX * ref.defl(Mach, ref.sig_max(Mach, gamma), gamma))
S(SW, "weaksigma_Mach_deflection", ["Mach", "deflection", "gamma"], pid="A07", forms="scalar", grange=(1.05, 1.7),
  dom=lambda Mach, deflection, gamma: _ddev(Mach, deflection, gamma) & (deflection >= 0),
  ref=lambda Mach, deflection, gamma: ref.sig_weak(Mach, deflection, gamma), gen=_mach_dev(0), atol=1e-5)
S(SW, "strongsigma_Mach_deflection", ["Mach", "deflection", "gamma"], pid="A07", forms="scalar", grange=(1.05, 1.7),
  dom=lambda Mach, deflection, gamma: _ddev(Mach, deflection, gamma) & (deflection >= 0),
  ref=lambda Mach, deflection, gamma: ref.sig_strong(Mach, deflection, gamma), gen=_mach_dev(0), atol=1e-5)
S(SW, "sigma_Mach_deflection", ["Mach", "deflection", "gamma"], pid="A07", forms="scalar", grange=(1.05, 1.7), dom=_ddev,
  ref=lambda Mach, deflection, gamma: np.where(deflection < 0, -1, 1) * ref.sig_weak(Mach, np.abs(deflection), gamma),
  gen=_mach_dev(-1), atol=5e-4)

# ------------------------------------------------------------------ A09, A10
SUP = AERO + "Supersonic"
S(SUP, "PrandtlMeyer_Mach", ["Mach", "gamma"], pid="A09", ref=lambda Mach, gamma: ref.pm(Mach, gamma),
  dom=lambda Mach, gamma: gok(gamma) & (Mach >= 1) & (Mach <= 1001), gen=_m(1, 1000), atol=1e-10)


def _pm_angle(ck, n, g):
    w = ref.pm(gen.mach(ck, n, 1, 60), g).astype(float)
    return {"omega": np.where(ck.rng.random(n) < .08, 0.0, w)}


S(SUP, "Mach_PrandtlMeyer", ["omega", "gamma"], pid="A09", grange=(1.05, 2.0),
  dom=lambda omega, gamma: (gamma >= 1.049) & gok(gamma) & (omega >= 0) & (omega <= ref.pm(61, gamma)),
  inv=("omega", lambda x, gamma: ref.pm(np.maximum(x, 1), gamma), _one, lambda gamma: np.full_like(gamma, 1e4), 1e-8),
  gen=_pm_angle, atol=1e-10)
S(SUP, "Mach_PMFmmu", ["om_m_mun", "gamma"], pid="A09", ref=lambda om_m_mun, gamma: ref.mach_pm_minus_mu(om_m_mun, gamma),
  dom=lambda om_m_mun, gamma: gok(gamma) & (om_m_mun >= -90) & (om_m_mun <= ref.pm(201, gamma) - ref.mu(201)),
  gen=lambda ck, n, g: (lambda M: {"om_m_mun": (ref.pm(M, g) - ref.mu(M)).astype(float)})(gen.mach(ck, n, 1, 200)), rtol=1e-9)


def _mach_turn(ck, n, g):
    M = np.maximum(gen.mach(ck, n, 1.01, 30), 1.01)
    w = ref.pm(M, g).astype(float)
    lim = np.minimum(0.97 * ref.pm_max(g).astype(float), ref.pm(45, g).astype(float))
    f = np.where(ck.rng.random(n) < .75, ck.rng.random(n), 10.0 ** ck.rng.uniform(-7, -1, n))  # some weak waves
    exp_ = -np.maximum(0, lim - w) * f
    comp = w * f * .999
    d = np.where(ck.rng.random(n) < .5, exp_, comp)
    return {"Mach": M, "dev": np.where(ck.rng.random(n) < .1, 0.0, d)}


def _iso_ratio(Mach, dev, gamma):
    M2 = ref.mach_pm(np.maximum(ref.pm(Mach, gamma) - dev, 0), gamma)
    return ref.ptps(Mach, gamma) / ref.ptps(M2, gamma)


def _turn_ok(Mach, dev, gamma):
    w = ref.pm(Mach, gamma) - dev
    return (gamma >= 1.049) & (gamma <= 1.701) & (Mach >= 1.0099) & (Mach <= 30.5) & (w >= 0) & (w <= np.minimum(ref.pm(46, gamma), .975 * ref.pm_max(gamma)))


S(SUP, "IsentropicPsratio_Mach_deflection", ["Mach", "dev", "gamma"], pid="A10", grange=(1.05, 1.7), dom=_turn_ok, ref=_iso_ratio,
  gen=_mach_turn, rtol=2e-6)


def _gen_pr(ck, n, g):
    v = _mach_turn(ck, n, g)
    p = _iso_ratio(l(v["Mach"]), l(v["dev"]), l(g)).astype(float)
    pmax = (ref.ptps(v["Mach"], g) / ref.ptps(1, g)).astype(float)
    return {"Mach": v["Mach"], "Pratio": np.minimum(p, pmax * (1 - 1e-9))}


def _defl_pr(Mach, Pratio, gamma):
    M2 = ref.mach_ptps(ref.ptps(Mach, gamma) / Pratio, gamma)
    return ref.pm(np.maximum(M2, 1), gamma) - ref.pm(Mach, gamma)


S(SUP, "deflection_Mach_IsentropicPsratio", ["Mach", "Pratio", "gamma"], pid="A10", grange=(1.05, 1.7), ref=_defl_pr, gen=_gen_pr,
  dom=lambda Mach, Pratio, gamma: (gamma >= 1.049) & (gamma <= 1.701) & (Mach >= 1.0099) & (Mach <= 30.5) & (Pratio > 1e-12)
  & (Pratio < ref.ptps(Mach, gamma) / ref.ptps(1, gamma) * (1 - 1e-10)), atol=1e-8)

# ------------------------------------------------------------------ A11, A12
FA, RA = AERO + "Fanno", AERO + "Rayleigh"
_d = lambda Mach, gamma: gok(gamma) & (Mach >= 1e-6) & (Mach <= 1001)
for _f, _r, _at in (("maxFparam_Mach", ref.fanno.F, 1e-12), ("Ps_Pscri", ref.fanno.Ps, 0), ("Ts_Tscri", ref.fanno.Ts, 0),
                    ("Rho_Rhocri", ref.fanno.Rho, 0), ("Pi_Picri", ref.fanno.Pi, 0), ("V_Vcri", ref.fanno.V, 0), ("NormdS", ref.fanno.dS, 1e-12)):
    S(FA, _f, ["Mach", "gamma"], pid="A11", ref=lambda Mach, gamma, r=_r: r(Mach, gamma), dom=_d, gen=_m(1e-5, 1000), rtol=1e-10, atol=_at)
for _f, _r, _at in (("maxTiratio_Mach", lambda M, g: 1 / ref.rayleigh.Ti(M, g), 0), ("Ps_Pscri", ref.rayleigh.Ps, 0), ("Ts_Tscri", ref.rayleigh.Ts, 0),
                    ("Ti_Ticri", ref.rayleigh.Ti, 0), ("Rho_Rhocri", ref.rayleigh.Rho, 0), ("Pi_Picri", ref.rayleigh.Pi, 0),
                    ("V_Vcri", ref.rayleigh.V, 0), ("NormdS", ref.rayleigh.dS, 1e-12)):
    S(RA, _f, ["Mach", "gamma"], pid="A12", ref=lambda Mach, gamma, r=_r: r(Mach, gamma), dom=_d, gen=_m(1e-5, 1000), rtol=1e-10, atol=_at)
S(RA, "SubMach_TiTicri", ["Tiratio", "gamma"], pid="A12",
  dom=lambda Tiratio, gamma: gok(gamma) & (Tiratio > 0) & (Tiratio <= 1),
  inv=("Tiratio", lambda x, gamma: ref.rayleigh.Ti(x, gamma), lambda gamma: 0 * gamma, _one, 1e-8),
  gen=lambda ck, n, g: {"Tiratio": np.minimum(1, ref.rayleigh.Ti(gen.mach(ck, n, .01, 1), g).astype(float))})
# Ti/Ticri tends to 1-1/gamma**2 for infinite Mach
S(RA, "SupMach_TiTicri", ["Tiratio", "gamma"], pid="A12",
  dom=lambda Tiratio, gamma: gok(gamma) & (Tiratio <= 1) & (Tiratio >= ref.rayleigh.Ti(1001, gamma)),
  inv=("Tiratio", lambda x, gamma: ref.rayleigh.Ti(x, gamma), _one, lambda gamma: np.full_like(gamma, 1e4), 1e-8),
  gen=lambda ck, n, g: {"Tiratio": np.minimum(1, ref.rayleigh.Ti(gen.mach(ck, n, 1, 1000), g).astype(float))})

# ------------------------------------------------------------------ A13
PR = AERO + "Propulsion"
S(PR, "ThrustFunction", ["Mach", "gamma"], pid="A13", ref=lambda Mach, gamma: ref.thrust(Mach, gamma), dom=_d, gen=_m(1e-5, 1000), rtol=1e-10)


def _gen_thrust(ck, n, g):
    sup = ck.rng.random(n) < .5
    M = np.where(sup, gen.mach(ck, n, 1.0005, 1000), gen.mach(ck, n, 1e-4, .9995))
    m0 = np.where(sup, ck.rng.uniform(1.01, 20, n), ck.rng.uniform(.02, 1.0, n))
    return {"thrust": ref.thrust(M, g).astype(float), "Mach": m0}


S(PR, "Mach_ThrustFunction", ["thrust", "Mach", "gamma"], pid="A13", defaults={"Mach": 2.0}, grange=(1.05, 1.7),
  dom=lambda thrust, Mach, gamma: (gamma >= 1.049) & (gamma <= 1.701) & (Mach > 0)
  & (thrust >= ref.thrust(np.where(Mach > 1, 1.0004, .9996), gamma)) & (thrust <= ref.thrust(np.where(Mach > 1, 1001., .99e-4), gamma)),
  inv=("thrust", lambda x, Mach, gamma: ref.thrust(x, gamma), lambda Mach, gamma: np.where(Mach > 1, 1, 1e-6),
       lambda Mach, gamma: np.where(Mach > 1, 1e3, 1), 1e-6), gen=_gen_thrust)


def _judge_maxti(self, ck, args, res, mech=None):
    """known finding: gamma is ignored; any other wrong value keeps the general mechanism"""
    g = np.asarray(args.get("gamma", 1.4), float)
    if not np.allclose(g, 1.4, rtol=1e-12, atol=0):
        try:
            w = np.asarray(1 / ref.rayleigh.Ti(args["Mach"], 1.4)).astype(float)
            r = np.asarray(res, float)
            if r.shape == w.shape and np.allclose(r, w, rtol=1e-9, atol=0):
                return ck.decide("Rayleigh.maxTiratio_Mach:gamma-ignored", False, {"Mach": args["Mach"], "gamma": args["gamma"]},
                                 {"got": r, "value for gamma 1.4": w})
        except (TypeError, ValueError):
            pass
    return Spec.judge(self, ck, args, res, mech)


SPECS["Rayleigh.maxTiratio_Mach"].judge = _judge_maxti.__get__(SPECS["Rayleigh.maxTiratio_Mach"])
