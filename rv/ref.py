"""Independent reference models, written from the governing equations in extended precision.
Nothing here imports the code under test."""
import numpy as np

L = np.longdouble


def l(x):
    return np.asarray(x, dtype=L)


PI = L("3.14159265358979323846264338327950288")
DEG = PI / 180


# ---------------------------------------------------------------- isentropic
def tau(M, g):
    M, g = l(M), l(g)
    return 1 + (g - 1) / 2 * M * M


def ptps(M, g):
    M, g = l(M), l(g)
    return np.exp(g / (g - 1) * np.log1p((g - 1) / 2 * M * M))


def mach_tau(t, g):
    t, g = l(t), l(g)
    return np.sqrt(2 * (t - 1) / (g - 1))


def mach_ptps(p, g):
    p, g = l(p), l(g)
    return np.sqrt(2 * np.expm1((g - 1) / g * np.log(p)) / (g - 1))


def velocity(M, Tt, r, g):
    # total enthalpy balance cp*Tt = cp*Ts + V**2/2
    cp = l(g) * l(r) / (l(g) - 1)
    x = (l(g) - 1) / 2 * l(M) ** 2
    ts_loss = x / (1 + x)
    return np.sign(l(M)) * np.sqrt(2 * cp * l(Tt) * ts_loss)


# ---------------------------------------------------------------- mass flow
def massflow(M, g):
    # rho*V*sqrt(r*Tt)/Pt
    return np.sqrt(l(g)) * l(M) * np.sqrt(tau(M, g)) / ptps(M, g)


def sigma(M, g):
    return np.exp(np.log(massflow(1, g)) - np.log(massflow(M, g)))


def bisect(fun, target, lo, hi, increasing=True, it=110):
    """vectorised bisection in extended precision"""
    target = l(target)
    a = np.broadcast_to(l(lo), target.shape).copy()
    b = np.broadcast_to(l(hi), target.shape).copy()
    for _ in range(it):
        m = (a + b) / 2
        f = fun(m)
        up = (f < target) if increasing else (f > target)
        a = np.where(up, m, a)
        b = np.where(up, b, m)
        if np.all((b - a) <= 4 * np.finfo(L).eps * np.abs(b)):
            break
    return (a + b) / 2


def _bc(*a):
    return np.broadcast_arrays(*[l(x) for x in a])


def mach_sigma_sub(s, g):
    s, g = _bc(s, g)
    return bisect(lambda m: sigma(m, g), s, L(1e-9), L(1), increasing=False)


def mach_sigma_sup(s, g):
    s, g = _bc(s, g)
    return bisect(lambda m: sigma(m, g), s, L(1), L(300), increasing=True)


# ---------------------------------------------------------------- normal shock
def rho_ratio(M, g):
    M, g = l(M), l(g)
    return (g + 1) * M * M / (2 + (g - 1) * M * M)


def ps_ratio(M, g):
    # momentum: p2 - p1 = rho1*V1*(V1-V2)
    return 1 + l(g) * l(M) ** 2 * (1 - 1 / rho_ratio(M, g))


def ts_ratio(M, g):
    return ps_ratio(M, g) / rho_ratio(M, g)


def down_mn(M, g):
    return l(M) / (rho_ratio(M, g) * np.sqrt(ts_ratio(M, g)))


def ln_pt_ratio(M, g):
    # entropy: ln(pt2/pt1) = (ln(rho2/rho1) * g - ln(p2/p1)) / (g-1)
    g = l(g)
    M = l(M)
    return (g * np.log(rho_ratio(M, g)) - np.log1p(ps_ratio(M, g) - 1)) / (g - 1)


def pt_ratio(M, g):
    return np.exp(ln_pt_ratio(M, g))


def mn_ps_ratio(p, g):
    p, g = l(p), l(g)
    return np.sqrt((2 * g + (g + 1) * (p - 1)) / (2 * g))


def mn_pt_ratio(pt, g):
    pt, g = _bc(pt, g)
    return bisect(lambda m: ln_pt_ratio(m, g), np.log(pt), L(1), L(400), increasing=False)


# ---------------------------------------------------------------- oblique shock
def defl(M, s, g):
    """theta-beta-Mach relation, degrees"""
    M, g, b = l(M), l(g), l(s) * DEG
    num = 2 * np.cos(b) * (M * M * np.sin(b) ** 2 - 1)
    den = np.sin(b) * (M * M * (g + np.cos(2 * b)) + 2)
    return np.arctan2(num, den) / DEG


def sig_max(M, g):
    M, g = l(M), l(g)
    m2 = M * M
    s2 = ((g + 1) * m2 - 4 + np.sqrt((g + 1) * ((g + 1) * m2 * m2 + 8 * (g - 1) * m2 + 16))) / (4 * g * m2)
    return np.arcsin(np.sqrt(np.minimum(s2, 1))) / DEG


def sig_sonic(M, g):
    M, g = l(M), l(g)
    m2 = M * M
    s2 = ((g + 1) * m2 - (3 - g) + np.sqrt((g + 1) * ((g + 1) * m2 * m2 - 2 * (3 - g) * m2 + g + 9))) / (4 * g * m2)
    return np.arcsin(np.sqrt(np.minimum(s2, 1))) / DEG


def mu(M):
    return np.arcsin(1 / l(M)) / DEG


def down_mach_sigma(M, s, g):
    """downstream Mach from velocity components"""
    M, g, b = l(M), l(g), l(s) * DEG
    mn, mt = M * np.sin(b), M * np.cos(b)
    x = rho_ratio(mn, g)
    return np.sqrt(((mn / x) ** 2 + mt ** 2) / ts_ratio(mn, g))


def sig_weak(M, d, g):
    M, d, g = _bc(M, d, g)
    return bisect(lambda s: defl(M, s, g), d, mu(M), sig_max(M, g), increasing=True)


def sig_strong(M, d, g):
    M, d, g = _bc(M, d, g)
    return bisect(lambda s: defl(M, s, g), d, sig_max(M, g), L(90), increasing=False)


# ---------------------------------------------------------------- Prandtl-Meyer
def pm(M, g):
    M, g = l(M), l(g)
    b = np.sqrt(M * M - 1)
    k = np.sqrt((g + 1) / (g - 1))
    return (k * np.arctan(b / k) - np.arctan(b)) / DEG


def pm_max(g):
    g = l(g)
    return (np.sqrt((g + 1) / (g - 1)) - 1) * 90


def mach_pm(w, g):
    w, g = _bc(w, g)
    # bisect on beta = sqrt(M**2-1)
    b = bisect(lambda b: pm(np.sqrt(1 + b * b), g), w, L(0), L(1e4), increasing=True)
    return np.sqrt(1 + b * b)


def dpm_dM(M, g):
    """simple wave: dnu = sqrt(M**2-1) dV/V, in degrees per Mach"""
    M, g = l(M), l(g)
    return np.sqrt(M * M - 1) / (M * tau(M, g)) / DEG


def mach_pm_minus_mu(w, g):
    w, g = l(w), l(g)
    k = np.sqrt((g + 1) / (g - 1))
    b = k * np.tan((w + 90) * DEG / k)
    return np.sqrt(1 + b * b)


# ---------------------------------------------------------------- Fanno, Rayleigh (from T ratio / p ratio)
class fanno:
    Ts = staticmethod(lambda M, g: tau(1, g) / tau(M, g))
    V = staticmethod(lambda M, g: l(M) * np.sqrt(fanno.Ts(M, g)))  # V = M*sqrt(gamma r T)
    Rho = staticmethod(lambda M, g: 1 / fanno.V(M, g))  # rho*V constant
    Ps = staticmethod(lambda M, g: fanno.Rho(M, g) * fanno.Ts(M, g))
    Pi = staticmethod(lambda M, g: fanno.Ps(M, g) * ptps(M, g) / ptps(1, g))

    @staticmethod
    def dS(M, g):
        # (s - s*)/cp, zero at Mach one
        return np.log(fanno.Ts(M, g)) - (l(g) - 1) / l(g) * np.log(fanno.Ps(M, g))

    @staticmethod
    def F(M, g):
        M, g = l(M), l(g)
        m2 = M * M
        return (1 - m2) / (g * m2) + (g + 1) / (2 * g) * np.log((g + 1) * m2 / (2 * tau(M, g)))


class rayleigh:
    # p*(1+gamma*M**2) constant
    Ps = staticmethod(lambda M, g: (1 + l(g)) / (1 + l(g) * l(M) ** 2))
    # rho*V constant with V = M*sqrt(gamma*r*T), p = rho*r*T: T ~ (p*M)**2
    Ts = staticmethod(lambda M, g: (rayleigh.Ps(M, g) * l(M)) ** 2)
    Rho = staticmethod(lambda M, g: rayleigh.Ps(M, g) / rayleigh.Ts(M, g))
    V = staticmethod(lambda M, g: 1 / rayleigh.Rho(M, g))
    Ti = staticmethod(lambda M, g: rayleigh.Ts(M, g) * tau(M, g) / tau(1, g))
    Pi = staticmethod(lambda M, g: rayleigh.Ps(M, g) * ptps(M, g) / ptps(1, g))

    @staticmethod
    def dS(M, g):
        return np.log(rayleigh.Ts(M, g)) - (l(g) - 1) / l(g) * np.log(rayleigh.Ps(M, g))

    @staticmethod
    def sub(t, g):
        t, g = _bc(t, g)
        return bisect(lambda m: rayleigh.Ti(m, g), t, L(0), L(1), increasing=True)

    @staticmethod
    def sup(t, g):
        t, g = _bc(t, g)
        return bisect(lambda m: rayleigh.Ti(m, g), t, L(1), L(1e5), increasing=False)


# ---------------------------------------------------------------- thrust function
def thrust(M, g):
    # (p + rho*V**2) A / (pt A*)
    return (1 + l(g) * l(M) ** 2) / ptps(M, g) * sigma(M, g)


def mach_thrust(t, g, sup):
    t, g, sup = np.broadcast_arrays(l(t), l(g), np.asarray(sup))
    a = bisect(lambda m: thrust(m, g), t, L(1e-6), L(1), increasing=False)
    b = bisect(lambda m: thrust(m, g), t, L(1), L(1e3), increasing=True)
    return np.where(sup, b, a)
