"""C03: cosmology calculators vs an independent FLRW quadrature, inverse pairs, orders, dtypes."""
import numpy as np
from vh import monitor, Skip
import tools21cm as t2c
from tools21cm import const
import cosmoref as K


def zs(c, lo=0., hi=60., n=None):
    n = n or (c.int(65, 400) if c.i % 20 == 3 else c.int(1, 12))
    kind = c.pick(["float", "int", "f32", "list", "scalar", "intscalar", "npint"])
    if kind in ("scalar", "intscalar", "npint"): n = 1
    z = np.exp(c.rng.uniform(np.log1p(lo), np.log1p(hi), n)) - 1
    if c.coin(): z = np.round(z, 4)
    if lo == 0 and c.coin(.15): z = c.rng.permutation(np.exp(c.rng.uniform(np.log(1e-6), np.log(1.), n)))  # nearby
    if kind in ("int", "intscalar", "npint"):
        z = np.maximum(np.round(z), np.ceil(lo)).astype([np.int64, np.int32, np.int16][c.int(0, 2)])
    if kind == "f32": z = z.astype(np.float32)
    if c.coin(.3): z = np.sort(z)
    arg = {"float": z, "int": z, "f32": z, "list": [float(x) for x in z], "scalar": float(z[0]),
           "intscalar": int(z[0]), "npint": z[0]}[kind]
    return arg, np.asarray(z, float), kind


def flat(x): return np.atleast_1d(np.asarray(x, float))


def shape_ok(c, out, arg, what):
    n = np.size(arg)
    c.true(np.size(out) == n and (np.ndim(out) == 1 or n == 1), f"{what}: {np.shape(out)} for input of {n}")


@monitor("distances", quick=800, thorough=4000, min_obs=300)
def distances(c):
    om, h = K.random_cosmology(c, t2c)
    arg, z, kind = zs(c, 0., c.pick([60., 60., 3000.]))
    c.note(om=om, h=h, z=arg, kind=kind)
    ref = K.cdist(z, om, h)
    d = c.call(t2c.z_to_cdist, arg); shape_ok(c, d, arg, "z_to_cdist")
    c.close(flat(d), ref, "comoving distance", rtol=1e-6, atol=1e-9)
    if kind != "list":
        l = c.call(t2c.luminosity_distance, arg); shape_ok(c, l, arg, "luminosity_distance")
        c.close(flat(l), ref * (1 + z), "luminosity distance", rtol=1e-6, atol=1e-9)
    a = c.call(t2c.z_to_age, arg); shape_ok(c, a, arg, "z_to_age")
    c.close(flat(a), K.age_gyr(z, om, h), "age in Gyr", rtol=1e-6, atol=1e-8)
    c.close(flat(c.call(t2c.hubble_parameter, np.asarray(arg))), 100 * h * K.E(z, om), "H(z)", rtol=2e-6 if kind == "f32" else 1e-10, atol=0)
    c.close(flat(const.Hz(np.asarray(arg))), 100 * h * K.E(z, om), "const.Hz", rtol=2e-6 if kind == "f32" else 1e-10, atol=0)
    nv = c.rng.uniform(1420., 2840., 3); c.close(c.call(t2c.nu_to_z, nv), 1420. / nv - 1, "blueshifted frequencies", rtol=1e-12, atol=1e-12)
    nu = c.call(t2c.z_to_nu, np.asarray(arg))
    c.close(flat(c.call(t2c.nu_to_cdist, nu)), ref, "distance to frequency", rtol=1e-5, atol=1e-4 * K.C / (100 * h))
    K.reset()


@monitor("order", quick=400, thorough=2000, min_obs=150)
def order(c):
    om, h = K.random_cosmology(c, t2c)
    z = np.round(c.rng.uniform(0, 40, c.int(2, 15)), 3); p = c.rng.permutation(len(z))
    c.note(om=om, h=h, z=z, p=p)
    d = K.cdist(z, om, h)
    for f, x in ((t2c.z_to_cdist, z), (t2c.luminosity_distance, z), (t2c.z_to_age, z), (t2c.cdist_to_z, d)):
        a = c.call(f, x); b = c.call(f, x[p]); s = np.array([float(c.call(f, float(v))) for v in x])
        c.close(flat(b), flat(a)[p], f"{f.__name__}: order of inputs", rtol=1e-9)
        c.close(s, flat(a), f"{f.__name__}: scalar vs array", rtol=1e-6)
    zz = np.sort(c.rng.uniform(0, 60, 12)); zz = zz[np.r_[True, np.diff(zz) > 1e-3]]
    c.true(np.all(np.diff(t2c.z_to_cdist(zz)) > 0), "comoving distance increases with z")
    c.true(np.all(np.diff(t2c.z_to_age(zz)) < 0), "age decreases with z")
    c.true(np.all(np.diff(t2c.cdist_to_z(np.sort(d) + np.arange(len(d)))) > 0), "z increases with distance")
    K.reset()


@monitor("inverse", quick=640, thorough=3000, min_obs=300)
def inverse(c):
    om, h = K.random_cosmology(c, t2c)
    arg, z, kind = zs(c, .05, 98.)
    c.note(om=om, h=h, z=arg, kind=kind)
    d = K.cdist(z, om, h)
    darg = d if np.ndim(arg) else float(d[0])
    c.close(flat(c.call(t2c.cdist_to_z, darg)), z, "cdist_to_z inverts the distance", rtol=2e-6, atol=2e-6)
    di = np.round(d).astype(int)
    if np.all(K.zof(di, om, h) < 98):
        c.close(flat(c.call(t2c.cdist_to_z, di if np.ndim(arg) else int(di[0]))), K.zof(di, om, h), "cdist_to_z of integers", rtol=2e-6, atol=2e-6)
    x = np.asarray(arg)
    nu = c.call(t2c.z_to_nu, x)
    c.close(flat(nu), 1420. / (1 + z), "z_to_nu", rtol=5e-3 / 10, atol=0)
    c.close(flat(c.call(t2c.nu_to_z, nu)), z, "nu_to_z(z_to_nu)", rtol=2e-6 if kind == "f32" else 1e-9, atol=1e-5 if kind == "f32" else 1e-9)
    c.close(flat(c.call(t2c.nu_to_wavel, nu)), .2111 * (1 + z), "wavelength", rtol=2e-3, atol=0)
    s = c.logu(1e-3, 1e4)
    c.close(c.call(t2c.p_to_c, c.call(t2c.c_to_p, s, x), x), np.full(x.shape, s), "p_to_c(c_to_p)", rtol=1e-6)
    c.close(flat(c.call(t2c.c_to_p, s, x)), s / (1 + z), "comoving to proper", rtol=1e-6, atol=0)
    z1 = float(z[0]) if kind not in ("intscalar", "npint") else int(z[0])
    M = np.exp(c.rng.uniform(np.log(1e5), np.log(1e13), c.int(1, 6)))
    T = c.call(t2c.M_to_Tvir, M, z1)
    c.close(c.call(t2c.Tvir_to_M, T, z1), M, "Tvir_to_M(M_to_Tvir)", rtol=1e-9, atol=0)
    # Barkana & Loeb (2001) relation in the same cosmology
    om1, ol1 = const.Omega0, const.OmegaL; ok = 1 - om1 - ol1; q = (1 + z1)
    omz = om1 * q ** 3 / (om1 * q ** 3 + ol1 + ok * q ** 2); dd = omz - 1
    dc = 18 * np.pi ** 2 + 82 * dd - 39 * dd ** 2
    c.close(T, 1.98e4 * (M * h / 1e8) ** (2 / 3) * (om1 * dc / omz / 18 / np.pi ** 2) ** (1 / 3) * q / 10, "virial temperature", rtol=1e-9, atol=0)
    K.reset()


@monitor("angles", quick=480, thorough=2500, min_obs=200)
def angles(c):
    om, h = K.random_cosmology(c, t2c)
    arg, z, kind = zs(c, .2, 40.)
    if kind == "list": arg = np.array(arg)
    s = c.logu(1e-2, 1e5)
    if c.coin(.3): s = int(np.ceil(s))
    c.note(om=om, h=h, z=arg, kind=kind, size=s)
    d = K.cdist(z, om, h)
    a = c.call(t2c.angular_size_comoving, s, arg)
    c.close(flat(a), np.degrees(s / d), "comoving angular size in degrees", rtol=2e-4, atol=0)
    b = c.call(t2c.angular_size, s, arg)
    c.close(flat(b), np.degrees(s / 1000. / (d / (1 + z))) * 3600, "angular size in arcsec", rtol=2e-4, atol=0)
    c.close(flat(c.call(t2c.deg_to_cdist, a, arg)), np.full(len(z), float(s)), "deg_to_cdist inverts the angular size", rtol=1e-6, atol=0)
    c.close(flat(c.call(t2c.deg_to_cdist, s, arg)), np.radians(s) * d, "size of an angle", rtol=2e-4, atol=0)
    K.reset()
