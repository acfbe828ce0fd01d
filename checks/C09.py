"""C09: brightness temperature against the formula written out independently, cell by cell."""
import os
import numpy as np
from vh import monitor, Skip, quiet
import tools21cm as t2c
from tools21cm import const, conv
import cosmoref as K

MPC, G, MP, TCMB = 3.086e24, 6.6732e-8, 1.672661e-24, 2.725


def cosmology(c):
    """Random settings; returns dict with om, h, ob, Y (flat)."""
    om, h = K.random_cosmology(c, t2c); s = dict(om=om, h=h, ob=.044, Y=.2486)
    if c.coin(.4): s["ob"] = round(c.uni(.02, .08), 4); quiet(t2c.set_omega_baryon, s["ob"])
    if c.coin(.3): s["Y"] = round(c.uni(0, .4), 3); quiet(t2c.set_abundance_helium, s["Y"])
    if c.coin(.4): quiet(t2c.set_sim_constants, c.pick([37, 64, 114, 244, 425, 500]))
    return s


def mdt(z, s):
    hc = 1e7 * s["h"] / MPC; nh = (1 - s["Y"]) * s["ob"] * rho_c(s) / MP
    return 3 * (3e10 / 1.42e9) ** 3 / (32 * np.pi) * 2.85e-15 * .068 * nh / hc * 1000 * (1 + z) ** 2 / np.sqrt(K.E(z, s["om"]) ** 2 + (s["lam"] - 1 + s["om"]) * (1 - (1 + np.asarray(z)) ** 2) if "lam" in s else K.E(z, s["om"]) ** 2)


def rho_c(s):
    return 3 * (1e7 * s["h"] / MPC) ** 2 / (8 * np.pi * G)


def fields(c, sh, s):
    xk = c.pick(["uniform", "binary", "int", "f4", "edges"])
    xi = c.rng.random(sh)
    if xk == "binary": xi = (xi > .5).astype(float)
    if xk == "int": xi = (xi > .4).astype(int)
    if xk == "f4": xi = xi.astype("f4")
    if xk == "edges": xi = np.where(xi < .3, 0., np.where(xi > .7, 1., xi))
    rho = np.exp(c.rng.normal(size=sh)) * rho_c(s) * s["ob"]
    if c.coin(.2): rho[c.rng.random(sh) < .2] = 0
    T = c.logu(1, 1e4) * np.exp(c.rng.normal(size=sh))
    if c.coin(.3): T = np.where(c.rng.random(sh) < .3, 2e4 * c.rng.random(sh) + 1, T)
    if c.coin(.2): T = np.where(xi > .99, 2e4 * c.pick([1., 1.5]), T)
    return xi, rho, T, xk


def full(xi, rho, T, z, s, correct):
    xi = xi.astype(float); tc = TCMB * (1 + z); x = 1 - xi
    if correct:
        tmin = TCMB * (1 + z) ** 2 / 201
        with np.errstate(all="ignore"): T = np.where(x > 0, (T - 2e4 * xi) / np.where(x > 0, x, 1), T)
        T = np.maximum(T, tmin)
    return (1 - tc / T) * mdt(z, s) * x * rho / (rho_c(s) * s["ob"])


@monitor("coeval", quick=1800, thorough=8000, min_obs=500)
def coeval(c):
    s = cosmology(c)
    if c.coin(.2): s["lam"] = round(c.uni(0, 1), 3); quiet(t2c.set_omega_lambda, s["lam"])   # curved
    sh = tuple(c.size(1, 5, 24) for _ in range(3)); xi, rho, T, xk = fields(c, sh, s); z = c.uni(4, 30)
    if c.coin(.2): z = c.int(5, 20)
    correct = c.pick([True, False, None]); kw = {} if correct is None else dict(correct=correct)
    c.note(sh=sh, xk=xk, z=z, correct=correct, **s)
    x = xi.astype(float); m = mdt(z, s); c.close(c.call(t2c.mean_dt, z), m, "mean dT", rtol=1e-9)
    zs = c.rng.uniform(4, 30, 5); c.close(c.call(t2c.mean_dt, zs), mdt(zs, s), "mean dT of an array", rtol=1e-9)
    tol = dict(rtol=1e-9, atol=1e-12)
    dt = c.call(t2c.calc_dt, xi, rho, z); ref = m * (1 - x) * rho / (rho_c(s) * s["ob"])
    c.close(dt, ref, "dT (saturated)", **tol)
    c.equal(dt == 0, (x == 1) | (rho == 0), "zero exactly where there is no neutral gas")
    f = c.call(t2c.calc_dt_full, xi, rho, T, z, **kw); cr = correct is not False
    r = full(xi, rho, T, z, s, cr); sc = np.abs(ref).max() + 1e-12
    # cancellation in the correction term near full ionisation amplifies rounding
    c.close(f, r, "dT with spin temperature", rtol=1e-6, atol=1e-7 * sc)
    c.true(not np.any(f[x == 1] != 0), "no signal from ionised cells")
    if not cr: c.true(not np.any((f < 0) & (T > TCMB * (1 + z))), "negative only below the CMB temperature")
    # permuting cells permutes the result
    p = c.rng.permutation(x.size); g = lambda a: a.ravel()[p].reshape(sh)
    c.equal(c.call(t2c.calc_dt_full, g(xi), g(rho), g(T), z, **kw), g(f), "each cell on its own")
    c.equal(c.call(t2c.calc_dt, g(xi), g(rho), z), g(dt), "each cell on its own")
    K.reset()


@monitor("lightcone", quick=1500, thorough=6000, min_obs=400)
def lightcone(c):
    s = cosmology(c); ax = c.int(0, 2); n = c.size(1, 6, 24); m = c.size(2, 12, 80); sh = [n, n, n]; sh[ax] = m; sh = tuple(sh)
    xi, rho, T, xk = fields(c, sh, s); zl = c.uni(5, 12); cell = conv.LB / n
    d = K.cdist(zl, s["om"], s["h"])[0] + np.arange(m) * cell
    if d[-1] > K.cdist(60., s["om"], s["h"])[0]: raise Skip()
    z = K.zof(d, s["om"], s["h"]); b = [1, 1, 1]; b[ax] = m; z = z.reshape(b)
    kw = {} if ax == 2 and c.coin() else dict(los_axis=ax)
    correct = c.pick([True, False, None]); kf = dict(kw) if correct is None else dict(kw, correct=correct); cr = correct is not False
    c.note(sh=sh, ax=ax, xk=xk, zl=zl, LB=conv.LB, correct=correct, **s)
    dt = c.call(t2c.calc_dt_lightcone, xi, rho, zl, **kw)
    ref = mdt(z, s) * (1 - xi.astype(float)) * rho / (rho_c(s) * s["ob"])
    c.close(dt, ref, f"light-cone dT along axis {ax}", rtol=3e-5, atol=1e-9)
    f = c.call(t2c.calc_dt_full_lightcone, xi, T, rho, zl, **kf); r = full(xi, rho, T, z, s, cr)
    # (1 - Tcmb/T) and the correction are evaluated with the interpolated redshift: error relative to the separate terms
    x = 1 - xi.astype(float); Te = full(xi, rho, T, z * 1.0001, s, cr)
    c.close(f, r, f"light-cone dT with spin temperature along axis {ax}", rtol=1e-4, atol=np.abs(Te - r).max() + 3e-6 * np.abs(ref).max() + 1e-9)
    # same as the coeval formula slice by slice
    i = c.int(0, m - 1); zi = float(z.ravel()[i])
    c.close(np.take(dt, i, ax), np.take(quiet(t2c.calc_dt, xi, rho, zi), i, ax), "slice equals the coeval result at its redshift", rtol=3e-5, atol=1e-9)
    # moving the axes together changes nothing
    ax2 = c.int(0, 2); mv = lambda a: np.ascontiguousarray(np.moveaxis(a, ax, ax2))
    c.close(c.call(t2c.calc_dt_lightcone, mv(xi), mv(rho), zl, los_axis=ax2), mv(dt), "independent of the axis order", rtol=1e-7, atol=1e-12)
    if c.coin(.3):  # from files
        fs = [os.path.join(c.tmp(), k + ".cbin") for k in ("xi", "rho", "T")]
        for p, a in zip(fs, (xi, rho * 1e30, T)):
            with open(p, "wb") as fh: fh.write(np.array(sh, "i4").tobytes() + a.astype("f4").tobytes("C"))
        g = c.call(t2c.calc_dt_lightcone, fs[0], fs[1], zl, **kw)
        r4 = mdt(z, s) * (1 - xi.astype("f4").astype(float)) * rho * 1e30 / (rho_c(s) * s["ob"])
        c.close(g, r4, "light-cone dT from files", rtol=1e-4, atol=1e-6 * np.abs(r4).max())
        a4 = (rho * 1e30).astype("f4").astype(float)
        g = c.call(t2c.calc_dt_full_lightcone, fs[0], fs[2], fs[1], zl, **kf); w = quiet(t2c.calc_dt_full_lightcone, xi.astype("f4"), T.astype("f4"), a4, zl, **kf)
        c.close(g, w, "light-cone dT with spin temperature from files", rtol=1e-6)
    K.reset()


@monitor("inputs", quick=600, thorough=2000, min_obs=150)
def inputs(c):
    """File objects, file names and arrays are the same thing; the redshift comes from the names."""
    s = cosmology(c); n = c.int(200, 260); z = round(c.uni(5, 25), c.pick([1, 2, 3])); d = c.tmp(); zs = f"{z:.3f}"; sh = (n, 2, 2); z = float(zs)
    xi = c.rng.random(sh) * .9; raw = (c.rng.random(sh) + .2).astype("f4"); T = (c.logu(2, 900) * (c.rng.random(sh) + .1)).astype("f4")
    fx, fd, ft = f"{d}/xfrac3d_{zs}.bin", f"{d}/{zs}n_all.dat", f"{d}/Temper3D_{zs}.bin"; hd = np.array(sh, "i4")
    h6 = np.array([12, *sh, 12, 0], "i4")
    with open(fx, "wb") as f: f.write(h6.tobytes() + xi.tobytes("F"))
    with open(fd, "wb") as f: f.write(hd.tobytes() + raw.tobytes("F"))
    with open(ft, "wb") as f: f.write(h6.tobytes() + T.tobytes("F"))
    X, D, Tm = quiet(t2c.XfracFile, fx), quiet(t2c.DensityFile, fd), quiet(t2c.TemperFile, ft)
    rho = D.cgs_density.astype(float); ux, ud, ut = c.pick([fx, X, xi]), c.pick([fd, D, rho]), c.pick([ft, Tm, T])
    c.note(n=n, z=z, kinds=[type(v).__name__ for v in (ux, ud, ut)], **s)
    named = any(not isinstance(v, np.ndarray) for v in (ux, ud))
    zz = () if named and c.coin(.7) else (z,)
    ref = mdt(z, s) * (1 - xi) * raw.astype(float) * (n / conv.nbox_fine) ** 3
    c.close(c.call(t2c.calc_dt, ux, ud, *zz), ref, "dT from any kind of input", rtol=1e-5)
    zz = () if (named or not isinstance(ut, np.ndarray)) and c.coin(.7) else (z,)
    c.close(c.call(t2c.calc_dt_full, ux, ud, ut, *zz), full(xi, raw.astype(float) * (n / conv.nbox_fine) ** 3 * rho_c(s) * s["ob"], T.astype(float), z, s, True), "dT with spin temperature from any kind of input", rtol=1e-4, atol=1e-6 * ref.max())
    c.raises(t2c.calc_dt, xi, rho, what="no redshift anywhere")
    K.reset()


@monitor("halo", quick=300, thorough=1000, min_obs=25)
def halo(c):
    from astropy import cosmology as ac, units as u, constants as k
    s = cosmology(c); n = c.size(2, 6, 32); m = c.logu(1e9, 1e13) * c.rng.random((n, n, n)); L = c.uni(10, 500); z = c.uni(5, 20); Y = c.uni(.1, .4)
    A = c.pick([None, ac.Planck15, ac.FlatLambdaCDM(H0=70, Om0=.3, Ob0=.05)]); kw = {} if A is None else dict(cosmo=A)
    if c.coin(): kw["Y_p"] = Y
    c.note(n=n, L=L, z=z, A=str(A), **s)
    A = A or ac.Planck18; H = A.H0.value * 1e5 / 3.0856775814913674e24; rc = 3 * H ** 2 / (8 * np.pi * 6.6743e-8)
    x = m * 1.988409870698051e33 / (L * 3.0856775814913674e24 / n) ** 3 / (A.Ob0 * rc)
    got = c.call(t2c.calc_dt_halo, m * u.Msun if c.coin() else m, L * u.Mpc if c.coin() else L, z, **kw)
    c.close(np.asarray(getattr(got, "value", got)), x * mdt(z, s), "dT of halos", rtol=1e-6)
    K.reset()
