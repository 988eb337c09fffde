"""Workload generators (seeded by the check)."""
import numpy as np


def gamma(ck, n, lo=1.02, hi=2.0):
    r = ck.rng
    g = r.uniform(lo, hi, n)
    k = r.random(n)
    g = np.where(k < 0.25, 1.4, g)
    pts = np.array([x for x in (1.1, 1.2, 1.25, 1.3, 4 / 3, 1.35, 1.4, 1.5, 1.6, 5 / 3, 1.67, 2.0, lo, hi) if lo <= x <= hi])
    return np.where(k > 0.7, r.choice(pts, n), g)


def mach(ck, n, lo=0.0, hi=100.0):
    """log-uniform, uniform, near-sonic, integer and end values of [lo, hi]"""
    r = ck.rng
    l0 = max(lo, 1e-3) if lo == 0 else lo
    x = np.exp(r.uniform(np.log(l0), np.log(hi), n))
    k = r.random(n)
    x = np.where(k < 0.35, r.uniform(lo, min(hi, 5.0), n), x)
    if lo <= 1 <= hi:
        s = np.ones(n)
        if lo < 1 < hi:
            s = r.choice([-1.0, 1.0], n)
        elif hi <= 1:
            s = -s
        near = 1 + s * 10.0 ** r.uniform(-9, -1, n)
        x = np.where((k > 0.8), near, x)
    ints = np.arange(np.ceil(lo), min(hi, 8) + 1)
    if len(ints):
        x = np.where((k > 0.7) & (k < 0.78), r.choice(ints, n), x)
    x = np.where((k > 0.78) & (k < 0.8), r.choice([lo, hi], n), x)
    return np.clip(x, lo, hi)


def loguni(ck, n, lo, hi):
    return np.exp(ck.rng.uniform(np.log(lo), np.log(hi), n))


SCALAR_FORMS = ("float", "np.float64", "0-d")
ARRAY_FORMS = ("1-d", "size-1", "2-d", "strided", "fortran", "readonly", "large")


def as_form(ck, x, form):
    """x: 1-d float array -> value(s) in the requested form; integral scalars sometimes become ints"""
    if form == "float":
        v = float(x[0])
        return int(v) if v.is_integer() and ck.rng.random() < 0.5 else v
    if form == "np.float64":
        return np.float64(x[0])
    if form == "0-d":
        return np.array(x[0])
    if form == "size-1":
        return np.array(x[:1])
    if form == "2-d":
        m = (len(x) // 3) * 3
        return np.array(x[:m]).reshape(3, -1)
    if form == "fortran":
        m = (len(x) // 3) * 3
        return np.asfortranarray(np.array(x[:m]).reshape(3, -1))
    if form == "strided":
        y = np.empty(2 * len(x))
        y[::2] = x
        y[1::2] = np.nan
        return y[::2]
    if form == "readonly":
        y = np.array(x)
        y.flags.writeable = False
        return y
    y = np.array(x)
    if np.all(y == np.round(y)) and ck.rng.random() < 0.5:
        return y.astype(int)
    return y


def units(ck, prob=.12):
    """factors on density and pressure: quantities in other units than the usual ones"""
    r = ck.rng
    if r.random() > prob:
        return 1.0, 1.0
    return float(10.0 ** r.uniform(-10, 10)), float(10.0 ** r.uniform(-12, 12))
