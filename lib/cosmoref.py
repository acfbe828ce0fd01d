"""Independent FLRW reference (flat LCDM, matter + constant) and cosmology state helpers."""
import numpy as np
from tools21cm import const, conv

SAVED_CONST = dict(vars(const))
SAVED_CONV = dict(vars(conv))
_X, _W = np.polynomial.legendre.leggauss(200)


def reset():
    for mod, saved in ((const, SAVED_CONST), (conv, SAVED_CONV)):
        d = vars(mod)
        for k in [k for k in d if k not in saved]: del d[k]
        d.update(saved)


C = 3.0e5  # km/s, the package's documented value


def E(z, om):
    return np.sqrt(om * (1 + np.asarray(z, float)) ** 3 + 1 - om)


def cdist(z, om, h):
    """Comoving distance in Mpc by Gauss-Legendre quadrature in ln(1+z)."""
    z = np.atleast_1d(np.asarray(z, float))
    u = np.log1p(z)[:, None] * (_X + 1) / 2
    f = np.exp(u) / np.sqrt(om * np.exp(3 * u) + 1 - om)
    return C / (100 * h) * (f * _W).sum(1) * np.log1p(z) / 2


def age_gyr(z, om, h):
    a = 1 / (1 + np.atleast_1d(np.asarray(z, float)))
    hub = 100 * h * 1e5 / 3.086e24  # 1/s
    if om >= 1: t = 2 / 3 * a ** 1.5
    else: t = 2 / (3 * np.sqrt(1 - om)) * np.arcsinh(np.sqrt((1 - om) / om) * a ** 1.5)
    return t / hub / 3.154e7 / 1e9


def zof(d, om, h):
    """Inverse of cdist by bisection+Newton on the reference integral."""
    d = np.atleast_1d(np.asarray(d, float))
    lo, hi = np.zeros_like(d), np.full_like(d, 500.)
    for _ in range(80):
        m = (lo + hi) / 2; up = cdist(m, om, h) < d
        lo = np.where(up, m, lo); hi = np.where(up, hi, m)
    return (lo + hi) / 2


def random_cosmology(c, t2c, p_default=.25):
    """Configure the package through its own setters; returns (om, h)."""
    reset()
    if c.coin(p_default): return const.Omega0, const.h
    om, h = round(c.uni(.1, .6) if c.coin(.9) else c.uni(.6, .999), 3), round(c.uni(.5, .9), 3)
    seq = [lambda: t2c.set_hubble_h(h), lambda: t2c.set_omega_matter(om)]
    if c.coin(): seq.reverse()
    for f in seq: f()
    if c.coin(.3): t2c.set_omega_lambda(1 - om)
    return om, h
