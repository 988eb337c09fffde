"""Engine cycles: gas generator, turbojet, turbofan (G01, G02) and staged turbofan cycles (G03)."""
import contextlib
import io
import re

import numpy as np

from .. import core, gen
from ..core import Failed, prop


def cp(g, r):
    return g * r / (g - 1.0)


def tt_ratio(M, g):
    return 1 + 0.5 * (g - 1) * np.asarray(M, float) ** 2


def pt_ratio(M, g):
    return tt_ratio(M, g) ** (g / (g - 1))


# --------------------------------------------------------------------------- station balances
def station(o, name):
    return np.asarray(getattr(o, name), float)


def balance_core(ck, tag, o, case):
    """every component law of the gas generator, on the stations the object exposes"""
    s = lambda n: station(o, n)
    gc, gh, cpc, cph = o.gam_cold, o.gam_hot, cp(o.gam_cold, o.r_cold), cp(o.gam_hot, o.r_hot)
    T0, P0, M0 = np.asarray(o.T0, float), np.asarray(o.P0, float), np.asarray(o.M0, float)
    OPR, Tt4 = np.asarray(o.OPR, float), np.asarray(o.Tt4, float)
    c = lambda law, got, want, **k: ck.close(tag + " " + law, got, np.broadcast_to(want, np.broadcast(got, want).shape) if np.ndim(got) else want,
                                             rtol=1e-9, case=case, **k)
    c("flight total temperature", s("Tt0"), T0 * tt_ratio(M0, gc))
    c("flight total pressure", s("Pt0"), P0 * pt_ratio(M0, gc))
    c("flight velocity", s("V0"), M0 * np.sqrt(gc * o.r_cold * T0))
    c("inlet", s("Pt2"), s("Pt0") * o.xi_inlet)
    c("inlet adiabatic", s("Tt2"), s("Tt0"))
    c("compressor ratio", s("Pt3") / s("Pt2"), OPR)
    c("compressor polytropic efficiency", np.log(s("Tt3") / s("Tt2")) * gc / (gc - 1) * o.etapolCHP, np.log(OPR), atol=1e-12)
    c("combustor loss", s("Pt4"), s("Pt3") * o.xi_cc)
    far = s("far")
    c("combustor energy", o.eta_cc * far * o.Pci, (1 + far) * cph * Tt4 - cpc * s("Tt3"), atol=1e-9 * np.max(cph * Tt4))
    c("shaft power", o.eta_shaft * (1 + far) * cph * (Tt4 - s("Tt45")), cpc * (s("Tt3") - s("Tt2")), atol=1e-9 * np.max(cph * Tt4))
    c("turbine polytropic efficiency", np.log(s("Pt45") / s("Pt4")) * (gh - 1) / gh * o.etapolTHP, np.log(s("Tt45") / Tt4), atol=1e-11,
      where=(s("Tt45") > 0) & np.isfinite(s("Pt45")))
    # the gas generator as a whole: fuel power in = enthalpy rise + losses
    wc = cpc * (s("Tt3") - s("Tt2"))
    c("overall energy", (1 + far) * cph * s("Tt45") - cpc * s("Tt2"), o.eta_cc * o.Pci * far - wc * (1 / o.eta_shaft - 1),
      atol=1e-9 * np.max(cph * Tt4))


def jet(ck, tag, o, M, V, Pt, Tt, P, g, r, case):
    """Mach number and velocity of a jet expanded from Pt, Tt to P"""
    ok = Pt >= P * (1 + 1e-12)
    ck.close(tag + " jet Mach", np.where(ok, pt_ratio(M, g) * P, Pt), Pt, rtol=1e-9, case=case, where=ok)
    T = Tt / tt_ratio(M, g)
    ck.close(tag + " jet velocity", np.asarray(V) ** 2, 2 * cp(g, r) * (Tt - T), rtol=1e-8, atol=1e-12 * np.max(np.abs(Tt)) * cp(g, r), case=case, where=ok)
    ck.true(tag + " jet direction", np.asarray(V)[ok if np.ndim(V) else ...] >= 0 if np.any(ok) else True, case)


def domain(o):
    with np.errstate(all="ignore"):
        return bool(np.all(np.isfinite(station(o, "Pt45")) & (station(o, "far") > 0) & (station(o, "Tt45") > 0)))


def cfg(o):
    return {k: v for k, v in vars(o).items() if k in PARAMS}


PARAMS = ("OPR", "Tt4", "Pci", "gam_cold", "gam_hot", "r_cold", "r_hot", "xi_cc", "xi_inlet", "eta_cc", "etapolCHP", "etapolTHP",
          "eta_shaft", "xi_nozzle", "T0", "P0", "M0", "bpr", "etapolfan", "etapolTBP", "fanpower_ratio")


def c_base(ck, name, a, res):
    o = a["self"]
    if not domain(o):
        return ck.skip("gas generator")
    balance_core(ck, "gas generator", o, cfg(o))


def c_turbojet(ck, name, a, res):
    o = a["self"]
    if not domain(o):
        return ck.skip("turbojet")
    s = lambda n: station(o, n)
    if not np.all(s("Pt45") * o.xi_nozzle > o.P0):
        return ck.skip("turbojet")
    ck.close("turbojet nozzle loss", s("Pt9"), s("Pt45") * o.xi_nozzle, rtol=1e-11, case=cfg(o))
    jet(ck, "turbojet", o, s("M9"), s("V9"), s("Pt9"), s("Tt45"), o.P0, o.gam_hot, o.r_hot, cfg(o))


def perfs(ck, tag, o, bpr):
    """performances from the stations: thrust, kinetic power, heat, efficiencies"""
    case = cfg(o)
    s = lambda n: station(o, n)
    if not (domain(o) and np.all(s("Pt9") > o.P0)) or (bpr is not None and not np.all(s("Pt19") > o.P0)):
        return ck.skip(tag)
    far, V9, V0 = s("far"), s("V9"), s("V0")
    F = (1 + far) * V9 - V0
    E = .5 * ((1 + far) * V9 ** 2 - V0 ** 2)
    if bpr is not None:
        V19 = s("V19")
        F = F + bpr * (V19 - V0)
        E = E + .5 * bpr * (V19 ** 2 - V0 ** 2)
    Q = far * o.Pci
    b = 0.0 if bpr is None else bpr
    sF, sE = (1 + np.max(b)) * np.max(V9 + V0), (1 + np.max(b)) * np.max(V9 ** 2 + V0 ** 2)
    aF, aE = 1e-10 * sF, 1e-10 * sE

    def get(m, *args):
        return ck.call(tag + " " + m, getattr(o, m), *args)

    ck.close(tag + " heat", get("Wsp_cc"), Q, rtol=1e-11, case=case)
    ck.close(tag + " kinetic power", get("Wsp_kinEn"), E, rtol=1e-9, atol=aE, case=case)
    ck.close(tag + " thrust", get("norm_thrust"), F, rtol=1e-9, atol=aF, case=case)
    ck.close(tag + " specific thrust", get("spec_thrust"), F / (1 + b), rtol=1e-9, atol=aF, case=case)
    ck.close(tag + " thermal efficiency", get("thermal_efficiency"), E / Q, rtol=1e-9, atol=aE / np.min(Q), case=case)
    ok = (np.abs(E) > 1e-3 * sE) & (np.abs(F) > 1e-3 * sF)
    ck.close(tag + " propulsive efficiency", get("propulsive_efficiency"), F * V0 / np.where(ok, E, 1), rtol=1e-6, case=case, where=ok)
    ck.close(tag + " overall efficiency", get("thermoprop_efficiency"), F * V0 / Q, rtol=1e-9, atol=aF * np.max(V0) / np.min(Q), case=case)
    ck.close(tag + " specific consumption", get("Sfc"), far / np.where(ok, F, 1), rtol=1e-6, case=case, where=ok)
    th, pr, ov = get("thermal_efficiency"), get("propulsive_efficiency"), get("thermoprop_efficiency")
    if not any(isinstance(x, Failed) for x in (th, pr, ov)):
        ck.close(tag + " efficiencies multiply", np.asarray(th) * np.asarray(pr), ov, rtol=1e-9, case=case, where=ok & np.isfinite(pr))
    ideal = get("Wsp_TBP_ideal")
    gh = o.gam_hot
    for P, w in ((o.P0, ideal), (o.P0 * 1.1, get("Wsp_TBP_ideal", o.P0 * 1.1))):
        ck.close(tag + " ideal power turbine", w, (1 + far) * cp(gh, o.r_hot) * s("Tt45") * (1 - (P / s("Pt45")) ** ((gh - 1) / gh)),
                 rtol=1e-9, atol=1e-10 * sE, case=case)


def c_turbofan(ck, name, a, res):
    o = a["self"]
    if not domain(o):
        return ck.skip("turbofan")
    s = lambda n: station(o, n)
    if not np.all(s("Pt45") * o.xi_nozzle > o.P0) or not np.all(np.isfinite(s("Pt5")) & (s("Pt5") > 0) & np.isfinite(s("Pt19"))):
        return ck.skip("turbofan")
    case = cfg(o)
    gc, gh, cpc, cph = o.gam_cold, o.gam_hot, cp(o.gam_cold, o.r_cold), cp(o.gam_hot, o.r_hot)
    far = s("far")
    full = (1 + far) * cph * s("Tt45") * (1 - (o.P0 / (s("Pt45") * o.xi_nozzle)) ** ((gh - 1) * o.etapolTBP / gh))
    power = (1 + far) * cph * (s("Tt45") - s("Tt5"))
    at = 1e-10 * np.max(cph * s("Tt45"))
    ck.close("turbofan turbine share", power, full * o.fanpower_ratio, rtol=1e-9, atol=at, case=case)
    ck.close("turbofan turbine polytropic efficiency", np.log(s("Pt5") / s("Pt45")) * (gh - 1) / gh * o.etapolTBP, np.log(s("Tt5") / s("Tt45")),
             rtol=1e-9, atol=1e-11, case=case)
    fan = o.bpr * cpc * (s("Tt17") - s("Tt2"))
    ck.close("turbofan fan power", fan, np.broadcast_to(o.eta_shaft * power, np.shape(fan)), rtol=1e-9, atol=at * np.max(o.bpr), case=case)
    ck.close("turbofan fan polytropic efficiency", np.log(s("Pt17") / s("Pt2")) * (gc - 1) / gc, np.log(s("Tt17") / s("Tt2")) * o.etapolfan,
             rtol=1e-9, atol=1e-11, case=case)
    ck.close("turbofan core nozzle loss", s("Pt9"), s("Pt5") * o.xi_nozzle, rtol=1e-11, case=case)
    ck.close("turbofan bypass nozzle loss", s("Pt19"), s("Pt17") * o.xi_nozzle, rtol=1e-11, case=case)
    ck.close("turbofan bypass nozzle adiabatic", s("Tt19"), s("Tt17"), rtol=1e-12, case=case)
    jet(ck, "turbofan core", o, s("M9"), s("V9"), s("Pt9"), s("Tt5"), o.P0, gh, o.r_hot, case)
    jet(ck, "turbofan bypass", o, s("M19"), s("V19"), s("Pt19"), s("Tt19"), o.P0, gc, o.r_cold, case)


# --------------------------------------------------------------------------- designs
def design(ck, kind, form):
    """one engine: keyword arguments of the constructor and of flight_conditions.  Missing ones are defaulted"""
    r = ck.rng
    u = r.uniform

    def val(lo, hi, k):
        x = u(lo, hi, k)
        return x

    k = {"OPR": float(u(2, 50)) if r.random() < .85 else float(r.choice([1., 1. + 10.0 ** u(-6, -.3)])), "Tt4": float(u(900, 2100))}
    f = {"T0": float(u(200, 320)), "P0": float(gen.loguni(ck, 1, 1e4, 1.2e5)[0]), "M0": float(u(0, .9 if kind == "turbofan" else 2.5))}
    if r.random() < .1:
        f["M0"] = 0.0
    opt = {"gam_cold": u(1.3, 1.45), "gam_hot": u(1.25, 1.4), "r_cold": u(200, 320), "r_hot": u(200, 320), "xi_inlet": u(.7, 1), "xi_cc": u(.7, 1),
           "eta_cc": u(.7, 1), "Pci": u(30e6, 120e6), "etapolCHP": u(.7, 1), "etapolTHP": u(.7, 1), "eta_shaft": u(.7, 1)}
    if kind != "base":
        opt["xi_nozzle"] = u(.7, 1)
    if kind == "turbofan":
        opt["etapolTBP"], opt["etapolfan"] = u(.7, 1), u(.7, 1)
        k["bpr"], k["fanpower_ratio"] = float(u(.5, 12) if r.random() < .7 else gen.loguni(ck, 1, .02, 40)[0]), float(u(.1, .9) if r.random() < .8 else r.choice([0., 1 - 10.0 ** u(-2.5, -1), 10.0 ** u(-5, -1)]))
    for n, v in opt.items():
        if r.random() < .75:
            k[n] = float(v)
        elif r.random() < .3 and n.startswith(("xi", "eta")):
            k[n] = 1.0
    if form == "1-d":
        m = int(r.integers(2, 12))
        for n, lo, hi in (("OPR", 3, 40), ("Tt4", 1200, 2000), ("bpr", .5, 12), ("fanpower_ratio", .1, .8)):
            if n in k and r.random() < .5:
                k[n] = u(lo if n != "OPR" or r.random() < .8 else 1., hi, m)
        if not any(np.ndim(v) for v in k.values()):
            k["OPR"] = u(3, 30, m)
        k["Tt4"] = np.maximum(k["Tt4"], 1500.) if np.ndim(k["Tt4"]) == 0 else k["Tt4"]
        if np.ndim(k["Tt4"]) == 0:
            k["Tt4"] = float(k["Tt4"])
        for n in opt:  # any parameter can vary along the array
            if n in k and r.random() < .15:
                lo, hi = (.75, 1) if n.startswith(("xi", "eta")) else (.97 * k[n], 1.03 * k[n])
                k[n] = u(lo, hi, m)
        for n in f:
            if r.random() < .1:
                f[n] = f[n] * u(.8, 1.05, m)
    elif form == "mesh":
        b = u(1, 8, 3) if kind == "turbofan" else u(1500, 2000, 3)
        A, B = np.meshgrid(u(3, 30, 4), b)
        k["OPR"] = A
        k["bpr" if kind == "turbofan" else "Tt4"] = B
        if kind == "turbofan":
            k["Tt4"] = float(u(1400, 2000))
    return k, f


def feasible(kind, k, f, dflt):
    """the cycle can run: fuel is burnt and the jets expand"""
    g = dict(dflt)
    g.update(k)
    gc, gh, cpc, cph = g["gam_cold"], g["gam_hot"], cp(g["gam_cold"], g["r_cold"]), cp(g["gam_hot"], g["r_hot"])
    T2 = f["T0"] * tt_ratio(f["M0"], gc)
    T3 = T2 * np.asarray(g["OPR"], float) ** ((gc - 1) / gc / g["etapolCHP"])
    far = (cph * g["Tt4"] - cpc * T3) / (g["eta_cc"] * g["Pci"] - cph * np.asarray(g["Tt4"], float))
    with np.errstate(all="ignore"):
        T45 = g["Tt4"] - cpc * (T3 - T2) / (g["eta_shaft"] * cph * (1 + far))
        P45 = f["P0"] * pt_ratio(f["M0"], gc) * g["xi_inlet"] * g["OPR"] * g["xi_cc"] * (T45 / g["Tt4"]) ** (gh / (gh - 1) / g["etapolTHP"])
        return bool(np.all(far > 1e-4) and np.all(far < .2) and np.all(T45 > 0.1 * np.asarray(g["Tt4"])) and np.all(P45 * g.get("xi_nozzle", 1.) > 1.02 * f["P0"]))


def build(ck, kind, cls, k, f, dflt):
    r = ck.rng
    order = {"base": ["OPR", "Tt4"], "turbojet": ["OPR", "Tt4"], "turbofan": ["OPR", "Tt4", "bpr", "fanpower_ratio"]}[kind]
    kw = dict(k)
    if r.random() < .5:
        args = [kw.pop(n) for n in order]
    else:
        args = []
    o = ck.call(kind + " constructor", cls, *args, **kw)
    if not isinstance(o, Failed):
        want = dict(dflt)
        want.update(k)
        for n, v in want.items():
            if not ck.true(kind + " keeps " + n, np.array_equal(np.asarray(getattr(o, n, None), dtype=object), np.asarray(v, dtype=object)),
                           (kind, n, k), getattr(o, n, None)):
                return None
    return o


def fly(ck, kind, o, f):
    u = ck.rng.random()
    if np.ndim(f["M0"]) == 0 and f["M0"] == 0 and u < .7:  # at rest unless a Mach number is given
        f = dict(f)
        del f["M0"]
        ck.call(kind + " flight_conditions", o.flight_conditions, *([f.pop("T0"), f.pop("P0")] if u < .35 else []), **f)
        ck.true(kind + " at rest by default", np.ndim(o.M0) == 0 and o.M0 == 0, cfg(o), o.M0)
    elif u < .5:
        ck.call(kind + " flight_conditions", o.flight_conditions, f["T0"], f["P0"], f["M0"])
    else:
        ck.call(kind + " flight_conditions", o.flight_conditions, **f)
    ck.call(kind + " update", o.update)


BASE_DEFAULT = {"gam_cold": 1.4, "gam_hot": 1.4, "r_cold": 287.1, "r_hot": 287.1, "xi_inlet": 1., "xi_cc": 1., "eta_cc": 1., "Pci": 42.8e6,
                "etapolCHP": 1., "etapolTHP": 1., "eta_shaft": 1.}
DEFAULT = {"base": BASE_DEFAULT, "turbojet": dict(BASE_DEFAULT, xi_nozzle=1.),
           "turbofan": dict(BASE_DEFAULT, xi_nozzle=1., etapolTBP=1., etapolfan=1.)}


def results(o, kind):
    d = {n: v for n, v in vars(o).items()}
    for m in ("Wsp_cc", "Wsp_TBP_ideal", "thermal_efficiency") + (() if kind == "base" else
                                                                 ("Wsp_kinEn", "norm_thrust", "spec_thrust", "propulsive_efficiency",
                                                                  "thermoprop_efficiency", "Sfc")):
        d[m + "()"] = getattr(o, m)()
    return d


def same(a, b):
    return set(a) == set(b) and all(np.array_equal(np.asarray(a[n]), np.asarray(b[n]), equal_nan=True) for n in a)


def differs(a, b):
    return {n: (core.jsonable(a.get(n)), core.jsonable(b.get(n))) for n in set(a) | set(b)
            if n not in a or n not in b or not np.array_equal(np.asarray(a[n]), np.asarray(b[n]), equal_nan=True)}


def drive(ck, kind, cls, count):
    r = ck.rng
    dflt = DEFAULT[kind]
    done = tries = 0
    while done < count and tries < 40 * count:
        tries += 1
        form = ("scalar", "scalar", "1-d", "mesh")[int(r.integers(4))]
        k, f = design(ck, kind, form)
        if not feasible(kind, k, f, dflt):
            continue
        keep = {n: np.array(v, copy=True) for n, v in k.items() if np.ndim(v)}
        o = build(ck, kind, cls, k, f, dflt)
        if o is None or isinstance(o, Failed):
            done += 1
            continue
        fly(ck, kind, o, f)
        done += 1
        ck.true(kind + " inputs unchanged", all(np.array_equal(k[n], v) for n, v in keep.items()), k)
        if not hasattr(o, "Pt45"):
            continue
        after(ck, kind, o)
        # repeated updates: back to the same conditions through other ones, compared with a fresh engine
        first = results(o, kind)
        ck.call(kind + " update", o.update)
        ck.true(kind + " update is repeatable", same(first, results(o, kind)), cfg(o), differs(first, results(o, kind)))
        for _ in range(int(r.integers(1, 3))):
            k2, f2 = design(ck, kind, "scalar")
            if not feasible(kind, {**k, "OPR": k2["OPR"]} if np.ndim(k["OPR"]) == 0 else k, f2, dflt):
                continue
            if np.ndim(k["OPR"]) == 0:
                o.OPR = k2["OPR"]
            fly(ck, kind, o, f2)
            after(ck, kind, o)
        o.OPR = k["OPR"]
        fly(ck, kind, o, f)
        again = results(o, kind)
        ck.true(kind + " update forgets former conditions", same(first, again), cfg(o), differs(first, again))
        # the same object given another design is that design
        if r.random() < .6:
            for _ in range(10):
                k3, f3 = design(ck, kind, "scalar")
                if feasible(kind, k3, f3, dflt):
                    o3 = cls(**k3)
                    fly(ck, kind, o3, f3)
                    last, now = dict(dflt, **k), dict(dflt, **k3)
                    names = [n for n in now if not np.array_equal(np.asarray(last[n]), np.asarray(now[n]))]
                    for n in r.permutation(names):
                        setattr(o, n, now[n])
                    fly(ck, kind, o, f3)
                    if hasattr(o, "Pt45") and hasattr(o3, "Pt45"):
                        a, b = results(o, kind), results(o3, kind)
                        ck.true(kind + " given another design", same(a, b), (cfg(o), k), differs(a, b))
                    break
        # elements of an array design are the scalar designs
        if form != "scalar":
            big = [v for v in [*k.values(), *f.values()] if np.ndim(v)]
            shape = np.broadcast_shapes(*[np.shape(v) for v in big])
            i = tuple(int(r.integers(n)) for n in shape)
            ks = {n: (float(np.broadcast_to(v, shape)[i]) if np.ndim(v) else v) for n, v in k.items()}
            fs = {n: (float(np.broadcast_to(v, shape)[i]) if np.ndim(v) else v) for n, v in f.items()}
            p = cls(**ks)
            p.flight_conditions(**fs)
            p.update()
            for n, v in results(p, kind).items():
                w = again[n]
                if np.ndim(w):
                    w = np.broadcast_to(w, shape)[i]
                ck.close(kind + " element of array design " + n, v, w, rtol=1e-11, atol=1e-12 * abs(np.max(np.abs(w))), case=(ks, fs),
                         where=np.isfinite(w))


def after(ck, kind, o):
    if kind == "base":
        gh = o.gam_hot
        Q = np.asarray(o.far) * o.Pci
        w = (1 + np.asarray(o.far)) * cp(gh, o.r_hot) * o.Tt45 * (1 - (o.P0 / np.asarray(o.Pt45)) ** ((gh - 1) / gh))
        at = 1e-10 * np.max(cp(gh, o.r_hot) * np.asarray(o.Tt45))
        ck.close("gas generator heat", o.Wsp_cc(), Q, rtol=1e-11, case=cfg(o))
        ck.close("gas generator ideal power turbine", o.Wsp_TBP_ideal(), w, rtol=1e-9, atol=at, case=cfg(o))
        ck.close("gas generator thermal efficiency", o.thermal_efficiency(), w / Q, rtol=1e-9, atol=at / np.min(Q), case=cfg(o))
        P = .5 * (o.P0 + np.min(o.Pt45))
        ck.close("gas generator ideal power turbine", o.Wsp_TBP_ideal(P), (1 + np.asarray(o.far)) * cp(gh, o.r_hot) * o.Tt45
                 * (1 - (P / np.asarray(o.Pt45)) ** ((gh - 1) / gh)), rtol=1e-9, atol=at, case=cfg(o))
        ck.close("gas generator ideal power turbine", o.Wsp_TBP_ideal(P19=P), o.Wsp_TBP_ideal(P), rtol=1e-12, atol=at * 1e-3, case=cfg(o))
    else:
        perfs(ck, kind, o, getattr(o, "bpr", None) if kind == "turbofan" else None)


TAPS = {("aerokit.engine.gasgenerator", "base.update"): c_base,
        ("aerokit.engine.turbojet", "turbojet_opt.update"): c_turbojet,
        ("aerokit.engine.turbofan", "turbofan_adapt.update"): c_turbofan}


@prop("G01")
def g01(ck):
    ck.assumptions += ["perfect gases with constant heat capacities, as in the code",
                       "designs whose fuel/air ratio is positive and whose jet expands"]
    gg, tj = ck.module("aerokit.engine.gasgenerator"), ck.module("aerokit.engine.turbojet")
    taps = {k: v for k, v in TAPS.items() if "turbofan" not in k[0]}
    ck.require("gas generator overall energy", 100)
    ck.require("turbojet jet velocity", 100)
    ck.require("turbojet efficiencies multiply", 100)
    with ck.tapped(taps):
        drive(ck, "base", gg.base, ck.n(150, 4000))
        drive(ck, "turbojet", tj.turbojet_opt, ck.n(300, 8000))


@prop("G02")
def g02(ck):
    ck.assumptions += ["perfect gases with constant heat capacities, as in the code",
                       "available expansion: to ambient pressure through the nozzle loss at the turbine polytropic efficiency"]
    tf = ck.module("aerokit.engine.turbofan")
    ck.require("turbofan fan power", 100)
    ck.require("turbofan bypass jet velocity", 100)
    ck.require("turbofan efficiencies multiply", 100)
    with ck.tapped(TAPS):
        drive(ck, "turbofan", tf.turbofan_adapt, ck.n(400, 10000))


# --------------------------------------------------------------------------- staged cycles
STAGED = ("P0", "T0", "M0", "xi_e", "eta_c", "eta_f", "eta_comb", "xi_cc", "eta_m", "eta_turb", "xi_tuy")


def staged(p, lam, pi_c, Tt4, m, g, r, gh, rh, Pk, pi_f=None, share=None):
    """reference of the staged turbofan, from the component laws of the course notes of the module"""
    d = {}
    c, ch = cp(g, r), cp(gh, rh)
    d["Pt0"], d["Tt0"] = p["P0"] * pt_ratio(p["M0"], g), p["T0"] * tt_ratio(p["M0"], g)
    d["V0"] = p["M0"] * np.sqrt(g * r * p["T0"])
    d["Tt2"], d["Pt2"] = d["Tt0"], d["Pt0"] * p["xi_e"]
    d["m_c"], d["m_f"] = m / (1 + lam), m * lam / (1 + lam)
    d["Tt3"] = d["Tt2"] * np.exp(np.log(pi_c) * (g - 1) / g / p["eta_c"])
    d["Pt3"] = d["Pt2"] * pi_c
    d["wu_c"] = d["m_c"] * c * (d["Tt3"] - d["Tt2"])
    d["alpha"] = (ch * Tt4 - c * d["Tt3"]) / (p["eta_comb"] * Pk - ch * Tt4)
    d["m_k"] = d["alpha"] * d["m_c"]
    d["Pt4"] = d["Pt3"] * p["xi_cc"]
    mh = d["m_c"] * (1 + d["alpha"]) * ch
    if share is None:
        d["pi_f"] = pi_f
        d["Tt13"] = d["Tt2"] * np.exp(np.log(pi_f) * (g - 1) / g / p["eta_f"])
        d["wu_f"] = d["m_f"] * c * (d["Tt13"] - d["Tt2"])
        d["Tt5"] = Tt4 - (d["wu_f"] + d["wu_c"]) / (mh * p["eta_m"])
        x = d["Tt5"] / Tt4
        d["pi_t"] = x ** (-gh / (gh - 1) / p["eta_turb"]) if x > 0 else np.nan
        d["Pt5"] = d["Pt4"] / d["pi_t"]
    else:
        d["Tt4_etoile"] = Tt4 - d["wu_c"] / (mh * p["eta_m"])
        x = d["Tt4_etoile"] / Tt4
        d["pi_t_c"] = x ** (-gh / (gh - 1) / p["eta_turb"]) if x > 0 else np.nan
        d["Pt4_etoile"] = d["Pt4"] / d["pi_t_c"]
        full = mh * d["Tt4_etoile"] * (1 - (p["P0"] / d["Pt4_etoile"]) ** ((gh - 1) / gh))
        d["wu_fan"] = -share * full
        d["Tt5"] = d["Tt4_etoile"] - share * full / mh
        d["pi_t_f"] = (d["Tt4_etoile"] / d["Tt5"]) ** (gh / (gh - 1) / p["eta_turb"])
        d["Pt5"] = d["Pt4_etoile"] / d["pi_t_f"]
        d["Tt13"] = d["Tt2"] + p["eta_m"] * share * full / (d["m_f"] * c)
        d["pi_f"] = (d["Tt13"] / d["Tt2"]) ** (p["eta_f"] * g / (g - 1))
    d["Pt13"] = d["Pt2"] * d["pi_f"]
    for s, T, P, G, R in (("9", d["Tt5"], d["Pt5"], gh, rh), ("19", d["Tt13"], d["Pt13"], g, r)):
        d["Tt" + s], d["Pt" + s], d["P" + s] = T, P * p["xi_tuy"], p["P0"]
        e = (p["P0"] / d["Pt" + s]) ** ((G - 1) / G)
        d["M" + s] = np.sqrt((1 / e - 1) * 2 / (G - 1)) if e <= 1 else np.nan
        d["V" + s] = np.sqrt(2 * cp(G, R) * T * (1 - e)) if e <= 1 else np.nan
    d["F_c"], d["F_f"] = d["m_c"] * (d["V9"] - d["V0"]), d["m_f"] * (d["V19"] - d["V0"])
    d["F"] = d["F_c"] + d["F_f"]
    d["F_spe"] = d["F"] / m
    d["mk_spe"] = 1e6 * d["m_k"] / d["F"]
    E = .5 * d["m_c"] * ((1 + d["alpha"]) * d["V9"] ** 2 - d["V0"] ** 2) + .5 * d["m_f"] * (d["V19"] ** 2 - d["V0"] ** 2)
    d["eta_th"], d["eta_prop"], d["eta"] = E / (Pk * d["m_k"]), d["F"] * d["V0"] / E, d["F"] * d["V0"] / (Pk * d["m_k"])
    return d


def staged_ok(d, Tt4, p):
    v = [d[k] for k in d]
    return (np.all(np.isfinite(v)) and d["alpha"] > 1e-3 and .1 * Tt4 < d["Tt5"] and d["Pt9"] > 1.02 * p["P0"] and d["Pt19"] > 1.02 * p["P0"]
            and d["F"] > 0.02 * (d["m_c"] * d["V9"] + d["m_f"] * d["V19"]))


def staged_case(ck, mode):
    r = ck.rng
    u = lambda a, b: float(r.uniform(a, b))
    for _ in range(400):
        p = {"P0": u(1.5e4, 1.1e5), "T0": u(200, 310), "M0": u(.05, .9), "xi_e": u(.9, 1), "eta_c": u(.8, 1), "eta_f": u(.8, 1), "eta_comb": u(.9, 1),
             "xi_cc": u(.9, 1), "eta_m": u(.9, 1), "eta_turb": u(.8, 1), "xi_tuy": u(.9, 1)}
        if r.random() < .25:
            p = {"P0": 227e2, "T0": 217., "M0": .8, "xi_e": .97, "eta_c": .9, "eta_f": .89, "eta_comb": .99, "xi_cc": .95, "eta_m": .98,
                 "eta_turb": .88, "xi_tuy": .97}
        a = {"lam": u(1, 12), "pi_c": u(10, 45), "Tt4": u(1100, 2000), "m": u(20, 900)}
        gas = (1.4, 287., 1.33, 291.6, 42800e3) if r.random() < .4 else (u(1.35, 1.42), u(270, 300), u(1.28, 1.38), u(270, 300), u(35e6, 120e6))
        if r.random() < .2:  # other engines: small, huge, high compression, hot, high altitude
            w = lambda lo, hi: float(np.exp(r.uniform(np.log(lo), np.log(hi))))
            p["P0"] = w(1, 1e7)
            a = {"lam": w(.05, 40), "pi_c": w(3, 100), "Tt4": u(900, 2800), "m": w(1e-3, 1e5)}
        last = u(1.15, 2.4) if mode == "pi_f" else (.5 if r.random() < .2 else u(.2, .85))
        if r.random() < .25:
            if mode == "pi_f":
                last = u(1.01, 4)
            else:  # almost all of the work goes to the fan, or hardly any
                last = u(.01, .2) if r.random() < .4 else u(.85, 1)
                if last > .8:
                    p.update(eta_turb=u(.97, 1), xi_tuy=u(.98, 1), xi_cc=u(.98, 1))
        with np.errstate(all="ignore"):
            d = staged(p, a["lam"], a["pi_c"], a["Tt4"], a["m"], *gas, **{mode: last})
        if staged_ok(d, a["Tt4"], p):
            return p, a, gas, last, d
    return None


# what each stage writes and what it needs (attributes)
NEEDS = {
    "pi_f": {"InitialValues": ([], ["Pt0", "Tt0", "V0"]), "stage_2": (["Tt0", "Pt0"], ["Tt2", "Pt2"]),
             "stage_3": (["Tt2", "Pt2"], ["m_c", "Tt3", "Pt3", "wu_c"]), "stage_4": (["Tt3", "Pt3", "m_c"], ["m_k", "alpha", "Pt4"]),
             "stage_13": (["Tt2", "Pt2"], ["m_f", "Tt13", "Pt13", "wu_f"]), "stage_19": (["Tt13", "Pt13"], ["Pt19", "Tt19", "M19", "V19", "F_f"]),
             "stage_5": (["wu_c", "wu_f", "alpha"], ["Tt5", "pi_t", "Pt5"]), "stage_9": (["Tt5", "Pt5"], ["Pt9", "Tt9", "M9", "V9", "F_c"]),
             "perfo": (["F_f", "F_c"], ["F", "F_spe", "mk_spe", "eta_th", "eta_prop", "eta"])},
    "share": {"InitialValues": ([], ["Pt0", "Tt0", "V0"]), "stage_2": (["Tt0", "Pt0"], ["Tt2", "Pt2"]),
              "stage_3": (["Tt2", "Pt2"], ["m_c", "Tt3", "Pt3", "wu_c"]), "stage_4": (["Tt3", "Pt3", "m_c"], ["m_k", "alpha", "Pt4"]),
              "stage_4_etoile": (["wu_c", "alpha", "Pt4"], ["Tt4_etoile", "pi_t_c", "Pt4_etoile"]),
              "stage_5": (["Tt4_etoile", "Pt4_etoile"], ["wu_fan", "Tt5", "pi_t_f", "Pt5"]), "stage_9": (["Tt5", "Pt5"], ["Pt9", "Tt9", "M9", "V9", "F_c"]),
              "stage_13": (["wu_fan"], ["m_f", "Tt13", "pi_f", "Pt13"]), "stage_19": (["Tt13", "Pt13"], ["Pt19", "Tt19", "M19", "V19", "F_f"]),
              "perfo": (["F_f", "F_c"], ["F", "F_spe", "mk_spe", "eta_th", "eta_prop", "eta"])},
    # the common part on its own: it computes nothing before it is told to
    "core": {n: s for n, s in (("InitialValues", ([], ["Pt0", "Tt0", "V0"])), ("stage_2", (["Tt0", "Pt0"], ["Tt2", "Pt2"])),
                               ("stage_3", (["Tt2", "Pt2"], ["m_c", "Tt3", "Pt3", "wu_c"])), ("stage_4", (["Tt3", "Pt3", "m_c"], ["m_k", "alpha", "Pt4"])))},
}


def make(ck, mod, mode, p, a, gas, last):
    name = {"pi_f": "cycle_taux_fan_fixe", "share": "cycle_taux_fan_calcule", "core": "cycle_1_to_4"}[mode]
    cls = type(name, (getattr(mod, name),), dict(p))
    g, h = mod.Gaz(gas[0], gas[1]), mod.Gaz(gas[2], gas[3], gas[4])
    ck.close("gas heat capacity", [g.get_cp(), h.get_cp()], [cp(gas[0], gas[1]), cp(gas[2], gas[3])], rtol=1e-12, case=gas)
    if mode == "core" or mode == "share" and last == .5:
        return ck.call("cycle constructor", cls, a["lam"], a["pi_c"], a["Tt4"], a["m"], g, h)
    return ck.call("cycle constructor", cls, a["lam"], a["pi_c"], a["Tt4"], a["m"], g, h, last)


IGNORED = ("current_stage_corps", "current_stage_fan")


def compare(ck, tag, o, d, case, required=()):
    v = vars(o)
    for n in required:
        ck.true("%s %s computed" % (tag, n), n in v, case)
    for n in d:
        if n in v:
            ck.close("%s %s" % (tag, n), v[n], d[n], rtol=3e-8, case=case)


def numbers(text):
    return [float(x) for x in re.findall(r"[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?", text)]


def printed(ck, mech, fn, *args):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        res = ck.call(mech, fn, *args)
    return res, buf.getvalue()


def shown(ck, tag, o, d, case):
    res, out = printed(ck, tag + " show_perfo", o.show_perfo)
    if isinstance(res, Failed):
        return
    x = [numbers(line.split(":", 1)[-1])[0] for line in out.splitlines() if ":" in line and numbers(line.split(":", 1)[-1])]
    want = [d["F"], d["F_spe"], d["mk_spe"], d["eta_th"], d["eta_prop"], d["eta"]]
    ck.close(tag + " shown performances", x, want, rtol=1e-9, atol=np.array([.5, .005, .005, .0005, .0005, .0005]) * 1.01, case=case)


def history(ck, mod, mode, p, a, gas, last, d, case):
    """random stage calls: each present value is the final one, nothing vanishes, stages only write when ready"""
    r = ck.rng
    o = make(ck, mod, mode, p, a, gas, last)
    if isinstance(o, Failed):
        return
    stages = NEEDS[mode]
    names = list(stages)
    if r.random() < .6:  # restart from nothing computed: an object that has only been given its design
        for n in list(vars(o)):
            if n in d and not (mode == "pi_f" and n == "pi_f"):
                delattr(o, n)
        o.current_stage_corps = o.current_stage_fan = 0
    rewound = False
    trail = []
    for _ in range(int(r.integers(4, 26))):
        if r.random() < .12:
            n = ("calculs_1_to_4", "calculs_5_to_9")[int(r.integers(2)) if mode != "core" else 0]
        elif r.random() < .1:
            both = {"F_c", "F_f"} <= set(vars(o)) and not hasattr(o, "F")  # shown after perfo only
            n = "show_attributes" if mode == "core" or both or r.random() < .5 else "show_perfo"
        elif r.random() < .5:
            ready = [n for n in names if all(hasattr(o, q) for q in stages[n][0]) and not all(hasattr(o, q) for q in stages[n][1])]
            n = ready[int(r.integers(len(ready)))] if ready else names[int(r.integers(len(names)))]
        else:
            n = names[int(r.integers(len(names)))]
        trail.append(n)
        before = dict(vars(o))
        ready = n in stages and all(q in before for q in stages[n][0])
        res, out = printed(ck, "stage " + n, getattr(o, n))
        if isinstance(res, Failed):
            return
        now = vars(o)
        cs = (case, trail[-12:])
        if n == "show_attributes":
            said = dict(x.split(" = ", 1) for x in out.splitlines() if " = " in x)
            ck.true("shown attributes are those of the object", set(before) <= set(said) and set(p) <= set(said)
                    and all(x in ("g", "g_fuel") or said[x] == repr(getattr(o, x)) for x in [*before, *p]), cs, out)
        if n == "show_perfo":
            x = [numbers(t.split(":", 1)[-1])[0] for t in out.splitlines() if ":" in t and numbers(t.split(":", 1)[-1])]
            ck.true("performances are shown when they are known", x == [] or "F" in now and abs(x[0] / d["F"] - 1) < 1e-3 + .6 / abs(d["F"]), cs, out)
        if n.startswith("show_"):
            ck.true("showing changes nothing", list(before) == list(now) and all(before[q] is now[q] for q in now), cs)
        ck.true("no value vanishes", all(q in now for q in before), cs)
        new = [q for q in now if q not in before]
        if n in stages:
            ck.true("stage writes only its outputs", all(q in stages[n][1] or q not in d or q in ("P9", "P19") for q in new), cs, new)
            changed = [q for q in before if q not in IGNORED and not np.array_equal(np.asarray(before[q], object), np.asarray(now[q], object))
                       and not (isinstance(before[q], (int, float, np.floating)) and abs(now[q] - before[q]) <= 1e-12 * abs(before[q]))]
            ck.true("repeated stage changes no value", not changed, cs, changed)
            if not ready:
                ck.true("stage that is not ready changes nothing", not new and not changed and all(before[q] == now[q] for q in IGNORED if q in before),
                        cs, (new, changed))
        # stages called again rewind the progress of their stream: later stages have to be called again too
        if (n == "InitialValues" and "Tt0" in before) or (n == "stage_13" and "Tt13" in before):
            rewound = True
        if ready and not rewound:
            ck.true("ready stage computes its outputs", all(q in now for q in stages[n][1]), cs, [q for q in stages[n][1] if q not in now])
        compare(ck, "stage value", o, d, cs)
    # whatever was done, the two blocks complete the cycle
    for n in ("calculs_1_to_4", "calculs_5_to_9") if mode != "core" else ("calculs_1_to_4",):
        if isinstance(ck.call("stage " + n, getattr(o, n)), Failed):
            return
    compare(ck, "completed cycle", o, d, (case, trail), required=[n for s in stages.values() for n in s[1]])
    ck.notes["stage calls monitored"] = ck.notes.get("stage calls monitored", 0) + len(trail)


FAN = ("m_f", "Tt13", "Pt13", "wu_f", "Pt19", "Tt19", "M19", "V19", "F_f")


def redesign(ck, mod, mode, o, p, a, gas, last, case):
    """a completed cycle given another design: stages called again in their order give the cycle of that design"""
    r = ck.rng
    hist = []
    for _ in range(int(r.integers(1, 4))):
        if mode == "pi_f" and r.random() < .4:
            # the fan only: its own stages follow
            last = float(r.uniform(1.15, 2.4))
            with np.errstate(all="ignore"):
                d = staged(p, a["lam"], a["pi_c"], a["Tt4"], a["m"], *gas, pi_f=last)
            if not d["Pt19"] > 1.02 * p["P0"]:
                break
            o.pi_f = last
            hist.append("fan")
            for n in ("stage_13", "stage_19"):
                if isinstance(printed(ck, "stage " + n, getattr(o, n))[0], Failed):
                    return
            v = vars(o)
            for n in FAN:
                ck.close("fan stages follow another fan", v[n], d[n], rtol=3e-8, case=(case, hist, last))
            if not staged_ok(d, a["Tt4"], p):
                continue
        else:
            c = staged_case(ck, mode)
            if c is None:
                return
            if r.random() < .5:
                p, a, gas, last, d = c
            else:
                # one parameter at a time
                q = str(r.choice(["lam", "pi_c", "m", "Tt4", "last", *p]))
                p2, a2 = dict(p), dict(a)
                (a2 if q in a else p2)[q] = (c[1] if q in a else c[0]).get(q)
                p2.pop("last", None)
                last2 = c[3] if q == "last" else last
                with np.errstate(all="ignore"):
                    d = staged(p2, a2["lam"], a2["pi_c"], a2["Tt4"], a2["m"], *gas, **{mode: last2})
                if not staged_ok(d, a2["Tt4"], p2):
                    continue
                p, a, last = p2, a2, last2
                hist.append(q)
        o.lambda_, o.pi_c, o.Tt4, o.m = a["lam"], a["pi_c"], a["Tt4"], a["m"]
        for n, v in p.items():
            setattr(o, n, v)
        if r.random() < .5 or (o.g.gamma, o.g.r, o.g_fuel.gamma, o.g_fuel.r, o.g_fuel.P_k) != gas:
            o.g, o.g_fuel = mod.Gaz(gas[0], gas[1]), mod.Gaz(gas[2], gas[3], gas[4])
        if r.random() < .3:
            # the gases themselves given other constants
            f1, f2, f3 = (float(r.choice([1., r.uniform(.9, 1.1)])) for _ in range(3))
            new = (gas[0], gas[1] * f1, gas[2], gas[3] * f2, gas[4] * f3)
            with np.errstate(all="ignore"):
                d2 = staged(p, a["lam"], a["pi_c"], a["Tt4"], a["m"], *new, **{mode: last})
            if staged_ok(d2, a["Tt4"], p):
                gas, d = new, d2
                o.g.r, o.g_fuel.r, o.g_fuel.P_k = new[1], new[3], new[4]
                ck.close("gas heat capacity", [o.g.get_cp(), o.g_fuel.get_cp()], [cp(gas[0], gas[1]), cp(gas[2], gas[3])], rtol=1e-12, case=gas)
                hist.append("constants of the gases")
        setattr(o, "pi_f" if mode == "pi_f" else "taux_meca", last)
        todo = list(NEEDS[mode])
        if mode == "pi_f":
            # the by-pass stream at any moment once the intake is known and before the turbine needs it
            todo = ["InitialValues", "stage_2"]
            core, fan = ["stage_3", "stage_4"], ["stage_13", "stage_19"]
            while core or fan:
                todo.append((core if core and (not fan or r.random() < .5) else fan).pop(0))
            todo += ["stage_5", "stage_9", "perfo"]
        hist.append(todo)
        for n in todo:
            if isinstance(printed(ck, "stage " + n, getattr(o, n))[0], Failed):
                return
        compare(ck, "cycle of another design", o, d, (case, hist, p, a, gas, last), required=[n for s in NEEDS[mode].values() for n in s[1]])


@contextlib.contextmanager
def parameters(mod, p, gas):
    """the direct computations take their parameters from the module"""
    vals = dict(p, gamma=gas[0], r=gas[1], gamma_=gas[2], r_=gas[3], P_k=gas[4])
    old = {n: getattr(mod, n) for n in vals}
    for n, v in vals.items():
        setattr(mod, n, v)
    try:
        yield
    finally:
        for n, v in old.items():
            setattr(mod, n, v)


@prop("G03")
def g03(ck):
    ck.assumptions += ["core thrust is m_c (V9 - V0), as documented in the module",
                       "direct computations read their parameters from module variables, which the check sets and restores"]
    r = ck.rng
    cy, direct, dc = ck.module("aerokit.engine.Cycle_Turbofan"), ck.module("aerokit.engine.propu_be"), ck.module("aerokit.engine.propu_be_double_corps")
    for m in ("staged cycle F", "direct F", "direct two-spool F", "ready stage computes its outputs", "stage that is not ready changes nothing",
              "shown performances", "repeated stage changes no value", "cycle of another design F", "fan stages follow another fan", "ideal optimum fan maximises thrust", "optimum fan ratio of the notes"):
        ck.require(m if m != "shown performances" else "staged cycle shown performances", 20 if "optimum" not in m else 3)
    for k in range(ck.n(160, 4000)):
        mode = ("pi_f", "share")[k % 2]
        c = staged_case(ck, mode)
        if c is None:
            continue
        p, a, gas, last, d = c
        case = {"mode": mode, "params": p, "design": a, "gas": gas, "last": last}
        o = make(ck, cy, mode, p, a, gas, last)
        if isinstance(o, Failed):
            continue
        compare(ck, "staged cycle", o, d, case, required=["Pt4", "alpha", "wu_c"])
        res = ck.call("calculs_5_to_9", o.calculs_5_to_9)
        if isinstance(res, Failed):
            continue
        compare(ck, "staged cycle", o, d, case, required=[n for n in d if n not in ("pi_f",)])
        if mode == "share":
            ret = ck.call("perfo", o.perfo)
            if not isinstance(ret, Failed) and ck.true("perfo returns", ret is not None and np.size(ret) == 6, case):
                ck.close("perfo returned", ret, [d[n] for n in ("F", "F_spe", "mk_spe", "eta_th", "eta_prop", "eta")], rtol=3e-8, case=case)
        shown(ck, "staged cycle", o, d, case)
        redesign(ck, cy, mode, o, p, a, gas, last, case)
        history(ck, cy, mode, p, a, gas, last, d, case)
        if k % 4 == 1:
            history(ck, cy, "core", p, a, gas, last, d, dict(case, mode="core"))
        # direct computation of the same cycle
        if mode == "pi_f":
            with parameters(direct, p, gas):
                res, out = printed(ck, "direct calculs", direct.calculs, a["lam"], a["pi_c"], a["Tt4"], last, a["m"])
            x = [numbers(line.split("=")[-1]) for line in out.splitlines()]
            x = [v[-1] for v in x if v]
            if not isinstance(res, Failed) and ck.true("direct prints its results", len(x) == 9, case, out):
                for q, n, tol in zip(x, ("wu_c", "wu_f", "Tt5", "F", "F_spe", "mk_spe", "eta_th", "eta_prop", "eta"),
                                     (0, 0, 0, .5, .5, 5e-11, 5e-4, 5e-4, 5e-4)):
                    ck.close("direct " + n, q, d[n], rtol=3e-8, atol=tol, case=case)
        else:
            with parameters(dc, p, gas):
                ret = ck.call("direct two-spool calculs", dc.calculs, a["lam"], a["pi_c"], a["Tt4"], a["m"], last)
            if not isinstance(ret, Failed) and ck.true("direct two-spool returns", np.size(ret) == 6, case):
                for q, n in zip(ret, ("F_spe", "mk_spe", "eta_th", "eta_prop", "eta", "pi_f")):
                    ck.close("direct two-spool " + (n if n != "F_spe" else "F"), q, d[n], rtol=3e-8, case=case)
    default_parameters(ck, cy, direct, dc)
    optimum(ck, dc)
    sweeps(ck, dc)


def default_parameters(ck, cy, direct, dc):
    """the modules agree on the reference parameters they are delivered with (CFM56 and LEAP of the notes)"""
    want = {"P0": 227e2, "T0": 217., "M0": .8, "xi_e": .97, "eta_c": .9, "eta_f": .89, "eta_comb": .99, "xi_cc": .95, "eta_m": .98,
            "eta_turb": .88, "xi_tuy": .97}
    for n in STAGED:
        ck.close("reference parameter " + n, [getattr(cy.cycle_1_to_4, n), getattr(direct, n), getattr(dc, n)], [want[n]] * 3, rtol=1e-14, case=n)
    for m in (direct, dc):
        ck.close("reference gases", [m.gamma, m.r, m.gamma_, m.r_, m.P_k], [1.4, 287., 1.33, 291.6, 42800e3], rtol=1e-14, case=m.__name__)
    g, h = cy.Gaz(), cy.Gaz(direct.gamma_, direct.r_, direct.P_k)
    for lam, pi_c, Tt4, m, last, mode in ((6.1, 32.8, 1410., 180., 1.6, "pi_f"), (11, 41, 1620., 230., .58, "share")):
        o = (cy.cycle_taux_fan_fixe if mode == "pi_f" else cy.cycle_taux_fan_calcule)(lam, pi_c, Tt4, m, g, h, last)
        o.calculs_5_to_9()
        d = staged(want, lam, pi_c, Tt4, m, 1.4, 287., 1.33, 291.6, 42800e3, **{mode: last})
        compare(ck, "reference engine", o, d, (lam, pi_c, Tt4, m, last, mode), required=["F", "eta"])


def optimum(ck, dc):
    """ideal cycle: the printed optimum fan temperature ratio is the one of largest thrust"""
    r = ck.rng
    p = {n: 1. for n in STAGED}
    done = 0
    for _ in range(ck.n(60, 600)):
        p.update(P0=float(r.uniform(2e4, 1e5)), T0=float(r.uniform(200, 300)), M0=float(r.uniform(.2, .9)))
        g, R = float(r.uniform(1.3, 1.45)), float(r.uniform(250, 320))
        gas = (g, R, g, R, 1e14)  # negligible fuel mass
        lam, pi_c, Tt4, m = float(r.uniform(1, 12)), float(r.uniform(8, 40)), float(r.uniform(1300, 2000)), float(r.uniform(20, 500))
        T2 = p["T0"] * tt_ratio(p["M0"], g)
        F = lambda tf: staged(p, lam, pi_c, Tt4, m, *gas, pi_f=tf ** (g / (g - 1)))
        # Tt5 at which the core jet and the bypass jet have the same velocity: jets of an ideal cycle, by bisection
        lo, hi = 1.0, 4.0
        with np.errstate(all="ignore"):
            for _ in range(80):
                t = .5 * (lo + hi)
                d = F(t)
                if np.isfinite(d["V9"]) and d["Tt5"] > 0 and d["V9"] > d["V19"]:
                    lo = t
                else:
                    hi = t
            d = F(lo)
        if not (1.05 < lo < 3.5 and abs(d["V9"] / d["V19"] - 1) < 1e-6):
            continue
        case = (dict(p), gas, lam, pi_c, Tt4, m)
        with parameters(dc, p, gas):
            res, out = printed(ck, "optimum", dc.calculs_tau_optimum, lam, pi_c, Tt4, m)
        x = [numbers(s) for s in out.splitlines()]
        x = [v[-1] for v in x if v]
        if isinstance(res, Failed) or not ck.true("optimum prints its results", len(x) == 5, case, out):
            continue
        ck.close("ideal optimum fan maximises thrust", x[0], lo, rtol=1e-6, case=case)
        tr, tc = T2 / p["T0"], pi_c ** ((g - 1) / g)
        ck.close("ideal optimum prints its ratios", x[1:], [tr, tc, Tt4 / p["T0"], T2 * lo], rtol=1e-6, case=case)
        done += 1
        if done >= ck.n(12, 100):
            break
    # lossy cycle, two gases: the printed ratios are those of its own components
    for _ in range(ck.n(6, 100)):
        c = staged_case(ck, "pi_f")
        if c is None:
            continue
        p, a, gas, last, d = c
        case = (p, a, gas)
        with parameters(dc, p, gas):
            res, out = printed(ck, "optimum", dc.calculs_tau_optimum, a["lam"], a["pi_c"], a["Tt4"], a["m"])
        x = [numbers(s) for s in out.splitlines()]
        x = [v[-1] for v in x if v]
        if isinstance(res, Failed) or not ck.true("optimum prints its results", len(x) == 5, case, out):
            continue
        tr, tc, tl = d["Tt2"] / p["T0"], d["Tt3"] / d["Tt2"], cp(gas[2], gas[3]) * a["Tt4"] / (cp(gas[0], gas[1]) * p["T0"])
        ck.close("optimum prints the ratios of the components", x[1:4], [tr, tc, tl], rtol=1e-9, case=case)
        ck.close("optimum fan temperature", x[4], d["Tt2"] * x[0], rtol=1e-9, case=case)
        ck.close("optimum fan ratio of the notes", x[0], (tl - tr * (tc - 1) - tl / (tr * tc) + a["lam"] * tr + 1) / (tr * (1 + a["lam"])), rtol=1e-9, case=case)


def sweeps(ck, dc):
    """figures drawn by the parameter study are the direct computations"""
    import matplotlib.pyplot as plt
    r = ck.rng
    u = lambda a, b: float(r.uniform(a, b))
    rng = [u(3, 5), u(6, 9), u(20, 28), u(32, 42), u(1350, 1450), u(1500, 1700)]
    plt.close("all")
    try:
        if isinstance(ck.call("parameter study", dc.main, *rng), Failed):
            return
        ref = {n: getattr(dc, n) for n in STAGED}
        gas = (dc.gamma, dc.r, dc.gamma_, dc.r_, dc.P_k)
        figs = [plt.figure(i) for i in plt.get_fignums()]
        if not ck.true("parameter study draws three figures of five curves", len(figs) == 3 and all(len(f.axes) == 5 for f in figs), rng):
            return
        for i, f in enumerate(figs):
            x = f.axes[0].lines[0].get_xdata()
            ck.true("parameter study names its curves", [v.get_ylabel() for v in f.axes] == ["Fspe", "mk_spe", "eta_th", "eta_prop", "eta_global"], i)
            ck.close("parameter study range", [x[0], x[-1]], rng[2 * i:2 * i + 2], rtol=1e-12, case=rng)
            ds = []
            for v in x:
                a = [6.1, 32.8, 1410.]
                a[i] = v
                ds.append(staged(ref, *a, 180., *gas, share=.5))
            for j, n in enumerate(("F_spe", "mk_spe", "eta_th", "eta_prop", "eta")):
                ck.close("parameter study curve", f.axes[j].lines[0].get_ydata(), [d[n] for d in ds], rtol=1e-7, case=(rng, i, n))
    finally:
        plt.close("all")
