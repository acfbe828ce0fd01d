"""C16: Thomson optical depth against an independent line-of-sight quadrature."""
import os
import numpy as np
from vh import monitor, Skip, quiet
import tools21cm as t2c
from tools21cm import const
import cosmoref as K

MPC, G, MP, SIGT = 3.086e24, 6.6732e-8, 1.672661e-24, 6.6524587e-25
_X, _W = np.polynomial.legendre.leggauss(400)


def cosmology(c):
    om, h = K.random_cosmology(c, t2c); ob, Y = .044, .2486
    if c.coin(.4): ob = round(c.uni(.02, .08), 4); quiet(t2c.set_omega_baryon, ob)
    if c.coin(.3): Y = round(c.uni(0, .4), 3); quiet(t2c.set_abundance_helium, Y)
    return om, h, ob, Y


def coeff(om, h, ob, Y):
    """n_e0 sigma_T c / H0 of a fully ionised universe (the package counts 1.074 electrons per hydrogen atom)."""
    H0 = 1e7 * h / MPC; rc = 3 * H0 ** 2 / (8 * np.pi * G)
    return 1.074 * (1 - Y) * ob * rc / MP * SIGT * 3e10 / H0


def full(z, s):
    """Fully ionised optical depth out to z, by Gauss-Legendre quadrature."""
    z = np.atleast_1d(np.asarray(z, float)); x = z[:, None] * (_X + 1) / 2
    return coeff(*s) * ((1 + x) ** 2 / K.E(x, s[0]) * _W).sum(1) * z / 2


def path(x, z, s):
    """Trapezoidal integral of the electron density between consecutive samples, starting from the first."""
    z = np.asarray(z, float); g = coeff(*s) * np.asarray(x, float) * (1 + z) ** 2 / K.E(z, s[0])
    return np.concatenate([np.zeros(g.shape[:-1] + (1,)), np.cumsum((g[..., 1:] + g[..., :-1]) / 2 * np.diff(z), -1)], -1)


def history(c, n, sh=()):
    k = c.pick(["random", "tanh", "step", "full", "none", "int", "f4", "double"]); z = np.sort(c.rng.uniform(0, 1, n)) * c.logu(.5, 30) + c.logu(.05, 8)
    if c.coin(.3): z = np.linspace(z[0], z[-1], n)
    if c.coin(.1): z = np.sort(c.rng.choice(np.arange(3, 3 + 2 * n), n, replace=False)).astype(c.pick([int, float]))
    x = c.rng.random(sh + (n,)); zm = c.uni(z[0], z[-1])
    if k == "tanh": x = .5 * (1 + np.tanh((zm - z) / c.uni(.2, 2))) * (1 + 0 * x)
    if k in ("step", "int"): x = (z < zm) * np.ones(x.shape)
    if k == "int": x = x.astype(int)
    if k == "full": x = np.ones(x.shape)
    if k == "none": x = np.zeros(x.shape)
    if k == "f4": x = x.astype("f4")
    if k == "double": x = ((z < zm) | (z > .8 * z[-1])) * x
    return k, x, z


def agree(c, got, ref, what, rtol=1e-9):
    """Same integral up to one constant within 6e-4 of the CODATA coefficient."""
    got, ref = np.asarray(got, float), np.asarray(ref, float); c.true(got.shape == ref.shape, f"{what}: shape {got.shape}, expected {ref.shape}")
    f = float(got.ravel()[np.argmax(ref)] / ref.max()); c.true(abs(f - 1) < 6e-4, f"{what}: {f} times the expected optical depth"); c.close(got, ref * f, what, rtol=rtol)


@monitor("tau", quick=500, thorough=6000, min_obs=1000)
def tau(c):
    s = cosmology(c); k, x, z = history(c, c.size(1, 40, 300)); N = c.pick([50, 50, 1, 7, 200]); kw = {} if N == 50 and c.coin() else dict(num_points=N); p = c.rng.permutation(len(z)) if c.coin(.4) else np.arange(len(z))[::c.pick([1, -1])]
    c.note(s=s, k=k, x=x, z=z, N=N, p=p)
    t, tz = c.call(t2c.tau, x[p], z[p], **kw)
    c.close(tz, np.concatenate([np.arange(1, N + 1) / N * z[0], np.asarray(z, float)]), "redshifts of the optical depth", rtol=1e-12)
    b = full(tz[:N], s); ref = np.concatenate([b, b[-1] + path(x, z, s)]); agree(c, t, ref, "optical depth to each redshift")
    c.true(np.all(np.diff(t) >= -1e-15), "never decreases with redshift")
    # more ionised -> more depth; scaling is linear above the floor
    y = np.clip(x.astype(float) + c.rng.random(x.shape) * (1 - x), 0, 1); t2 = c.call(t2c.tau, y, z, **kw)[0]; c.true(np.all(t2 - t >= -1e-8 * t[-1]), "more ionised, larger optical depth")
    a = c.uni(.1, .9); t3 = c.call(t2c.tau, a * x.astype(float), z, **kw)[0]; c.close(t3[N:] - t3[N], a * (t[N:] - t[N]), "linear in the ionised fraction", rtol=0, atol=1e-7 * t[-1])
    # additive: continuing from an intermediate sample
    if len(z) > 2:
        j = c.int(1, len(z) - 2); h = c.call(t2c.tau, x[j:], z[j:], **kw)[0]; c.close(h[N:] - h[N], t[N + j:] - t[N + j], "additive over redshift intervals", rtol=0, atol=1e-9 * t[-1])
    # invariant under refinement where nothing changes
    if len(z) > 1:
        c.raises(t2c.tau, x[:-1], z, what="tau with a history of another length")
        i = c.int(0, len(z) - 1); zz, xx = np.insert(np.asarray(z, float), i, z[i]), np.insert(x, i, x[i]); c.close(c.call(t2c.tau, xx, zz, **kw)[0][-1], t[-1], "a repeated sample adds nothing", rtol=1e-10)


@monitor("converges", quick=60, thorough=600, min_obs=50)
def converges(c):
    """Against the true integral of a smooth history, not the trapezoid."""
    s = cosmology(c); zm, w = c.uni(6, 12), c.uni(.5, 3); z0, z1 = c.uni(3, 6), c.uni(15, 30); c.note(s=s, zm=zm, w=w, z0=z0, z1=z1)
    f = lambda z: .5 * (1 + np.tanh((zm - z) / w)); z = np.linspace(z0, z1, 3000); t, tz = c.call(t2c.tau, f(z), z)
    q = z0 + (z1 - z0) * (_X + 1) / 2; I = full(z0, s)[0] + coeff(*s) * (f(q) * (1 + q) ** 2 / K.E(q, s[0]) * _W).sum() * (z1 - z0) / 2
    c.close(t[-1], I, "total optical depth of a smooth history", rtol=1e-3)
    o = c.call(t2c.tau, np.ones(3000), z)[0]; c.close(o[50:], full(z, s), "fully ionised throughout: the analytic depth", rtol=1e-3)
    c.close(np.diff(o[50:]) / np.diff(full(z, s)), np.full(2999, o[49] / full(z0, s)[0]), "the two parts are one integral", rtol=1e-4)


@monitor("tau_map", quick=250, thorough=3000, min_obs=450)
def tau_map(c):
    s = cosmology(c); sh = (c.size(1, 6, 20), c.size(1, 6, 20)); k, x, z = history(c, c.int(1, 25), sh); N = c.pick([50, 50, 3, 100]); kw = {} if N == 50 and c.coin() else dict(num_points=N); c.note(s=s, k=k, x=x, z=z, N=N)
    t, tz = c.call(t2c.tau_map, x, z, **kw)
    c.close(tz, np.concatenate([np.arange(1, N + 1) / N * z[0], np.asarray(z, float)]), "redshifts of the map", rtol=1e-12)
    b = full(tz[:N], s); ref = np.concatenate([np.broadcast_to(b, sh + (N,)), b[-1] + path(x, z, s)], -1); agree(c, t, ref, "optical depth of every sight line")
    i, j = c.int(0, sh[0] - 1), c.int(0, sh[1] - 1); c.close(t[i, j], c.call(t2c.tau, x[i, j], z, **kw)[0], "a sight line of the map is the depth of its own history", rtol=1e-10)
    y = x.astype(float).copy(); y[i, j] = c.rng.random(len(z)); u = c.call(t2c.tau_map, y, z, **kw)[0]; m = np.ones(sh, bool); m[i, j] = False; c.close(u[m], t[m], "other sight lines untouched", rtol=1e-12 if k != "f4" else 1e-6)


@monitor("tau_map_snapshots", quick=40, thorough=400, min_obs=40)
def snapshots(c):
    """From coeval snapshots: the map of the light-cone they make, whichever way they are given."""
    s = cosmology(c); t2c.set_sim_constants(c.pick([37, 64, 114])); n = c.int(4, 8); z = np.round(np.sort(c.uni(6.5, 8) + np.cumsum(c.rng.uniform(.05, .4, c.int(2, 4)))), 3); zs = c.rng.permutation(z) if c.coin() else z
    d = {float(q): c.rng.random((n, n, n)) for q in zs}; N = c.pick([50, 10]); c.note(s=s, n=n, z=z, N=N)
    lc, oz = quiet(t2c.make_lightcone, d, file_redshifts=np.sort(z)); form = c.pick(["dict", "dict+z", "files"])
    if form == "files":
        p = [os.path.join(c.tmp(), f"x{i}.npy") for i in range(len(z))]
        for q, f in zip(z, p): np.save(f, d[float(q)])
        t, tz = c.call(t2c.tau_map, p, redshifts=z, num_points=N, reading_function=np.load)
    else: t, tz = c.call(t2c.tau_map, d, num_points=N, **({} if form == "dict" else dict(redshifts=z)))
    c.close(tz[N:], oz, "redshifts of the light-cone"); b = full(tz[:N], s); ref = np.concatenate([np.broadcast_to(b, lc.shape[:2] + (N,)), b[-1] + path(lc, oz, s)], -1)
    agree(c, t, ref, "optical depth through the light-cone", rtol=1e-7)
