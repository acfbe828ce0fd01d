"""C24: Lyman-alpha transmission and UV magnitude helpers against their defining relations."""
import numpy as np
from scipy import integrate
from astropy import units as U, constants as k
from astropy.cosmology import FlatLambdaCDM, LambdaCDM, Planck18
from vh import monitor, quiet
import tools21cm as t2c
from tools21cm import astro_tools as A


def cosmology(c):
    if c.coin(.2): return Planck18
    if c.coin(.3): return LambdaCDM(c.uni(50, 90), c.uni(.2, .4), c.uni(.5, .8), Ob0=c.uni(.03, .06), Tcmb0=2.7)
    return FlatLambdaCDM(c.uni(50, 90), c.uni(.15, .5), Ob0=c.uni(.03, .06))


def passing(c, q):
    """the cosmology argument, or nothing when it is the default one"""
    return {} if q is Planck18 and c.coin() else {"cosmo": q}


def fields(c, n):
    r = c.rng; x = c.pick([r.random(n), (r.random(n) < .4) * 1., 10 ** r.uniform(-7, -3, n)]); d = np.expm1(r.normal(size=n) * .5); d = d / (1 + d).mean() if c.coin(.3) else d
    return x, np.maximum(d, -.99)


def gunn_peterson(z, x, d, q, fa, lam, kr, XH):
    """Choudhury et al. (2021): kappa_res * pi e^2 f lambda / (m_e c) / H(z) * n_HI, with 1.344e-7 cm^3/s for the constants."""
    h = q.H0.to_value(1 / U.s) * q.efunc(z); rho = 3 * q.H0 ** 2 / (8 * np.pi * k.G); nH = (XH * q.Ob0 * rho / (k.m_p + k.m_e)).to_value(U.cm ** -3)
    return 1.344e-7 * kr * (fa / .416) * (lam / 1216.) / h * (1 + z) ** 3 * nH * x * (1 + d)


@monitor("fgpa", quick=800, thorough=4000, min_obs=400)
def fgpa(c):
    q = cosmology(c); n = tuple(c.size(1, 8, 40) for _ in range(c.int(1, 3))); x, d = fields(c, n); z = c.uni(4, 12); fa = c.pick([.416, c.uni(.1, .6)]); lam = c.pick([1216., 1215.67, c.uni(900, 1300)]); kr = c.pick([1., c.uni(.2, 3)]); XH = c.pick([.76, c.uni(.6, .9)])
    kw = dict(f_alpha=fa, k_res=kr, X_H=XH, lambda_alpha=c.pick([lam * U.Angstrom, lam, (lam / 10) * U.nm])); c.note(z=z, x=x, d=d, kw=kw, q=str(q))
    over = d
    if d.min() > 1: return   # would be taken for a density
    if c.coin(.25):   # densities (all above one, in any unit) are turned into overdensities
        rho = (1 + d) * 10 ** c.uni(3, 6); over = rho / rho.mean() - 1; d = rho
        if rho.min() <= 1: return
    t = np.asarray(c.call(t2c.tau_nu_lyA_FGPA, z, x, d, **kw, **passing(c, q)), float); ref = gunn_peterson(z, x, over, q, fa, lam, kr, XH)
    c.close(t, ref, "optical depth", rtol=1e-8, atol=1e-12 * np.abs(ref).max()); i = tuple(c.int(0, m - 1) for m in n)
    y = x.copy(); y[i] *= 3; t2 = np.asarray(c.call(t2c.tau_nu_lyA_FGPA, z, y, d, **kw, **passing(c, q))); t3 = t.copy(); t3[i] *= 3; c.close(t2, t3, "tripling the neutral hydrogen of one cell changes that cell only, by three", rtol=1e-10)


def line(T, nu):
    """thermal Voigt cross section with the package's rounded constants: 5.9e-14 cm^2, a=4.7e-4 at 1e4 K, 2.46e15 Hz"""
    from scipy.special import wofz
    T = np.asarray(T, float); w = 2.46e15 * np.sqrt(2 * k.k_B.value * T / k.m_p.value) / k.c.value
    return 5.9e-14 / np.sqrt(T / 1e4) * wofz((nu - 2.46e15) / w + 1j * 4.7e-4 / np.sqrt(T / 1e4)).real


@monitor("cross_section", quick=600, thorough=3000, min_obs=250)
def cross_section(c):
    if c.coin(.4):
        T = 10 ** c.uni(0, 5); w = 2.46e15 * np.sqrt(2 * k.k_B.value * T / k.m_p.value) / k.c.value; x = np.sinh(np.linspace(-np.arcsinh(3e3), np.arcsinh(3e3), 6001)) * w; c.note(T=T)
        s = c.call(t2c.lyA_scattering_cross_section, c.pick([2.46e15 + x, (2.46e15 + x) * U.Hz]), c.pick([T, T * U.K])).to_value(U.cm ** 2)
        total = (np.pi * k.e.esu ** 2 / (k.m_e * k.c) * .4164).to_value(U.cm ** 2 * U.Hz); c.close(np.trapezoid(s, x), total, "integrated over frequency: pi e^2 f/(m_e c)", rtol=.01); c.true(np.all(s > 0), "positive"); c.close(s, s[::-1], "symmetric about the line centre", rtol=1e-6)
    n = c.pick([(), (c.size(1, 20, 5000),), (3, 4, 2)]); T = 10 ** c.rng.uniform(0, 6, n); T = float(T) if n == () else T; nu = 2.46e15 * (1 + c.pick([0., c.uni(-1, 1) * 10 ** c.uni(-6, -2)])); c.note(T=T, nu=nu)
    s = c.call(t2c.lyA_scattering_cross_section, c.pick([nu, nu * U.Hz, nu / 1e9 * U.GHz]), c.pick([T, T * U.K])).to_value(U.cm ** 2); c.close(s, line(T, nu), "thermal Voigt cross section", rtol=1e-5)


@monitor("optical_depth", quick=600, thorough=3000, min_obs=150)
def optical_depth(c):
    q = cosmology(c); n = tuple(c.size(1, 6, 24) for _ in range(3)); x, d = fields(c, n); T = c.pick([10 ** c.uni(1, 5), 10 ** c.rng.uniform(1, 5, n)]); r = 10 ** c.uni(-3, 2); XH = c.pick([.76, c.uni(.6, .9)]); nu = 2.46e15 * (1 + c.pick([0., c.uni(-1, 1) * 10 ** c.uni(-6, -3)])); z = c.uni(5, 12); c.note(x=x, T=T, r=r, nu=nu)
    t = np.asarray(c.call(t2c.tau_nu_lyA, z, x, c.pick([T, T * U.K]), c.pick([r * U.Mpc, r, r * 1e3 * U.kpc]), nu=c.pick([nu, nu * U.Hz]), X_H=XH, **passing(c, q)), float)
    rho = 3 * q.H0 ** 2 / (8 * np.pi * k.G); nH = (XH * q.Ob0 * rho / k.m_p).to_value(U.cm ** -3); c.close(t, line(T, nu) * nH * x * r * k.pc.cgs.value * 1e6, "cross section times column", rtol=2e-3)   # 1.820e5 is 5.9e-14 cm^2 * 1 pc rounded


def window(T, L, ax):
    """mean transmission over the L cells i-L//2 .. i-L//2+L-1 around each cell of the periodic axis"""
    n = T.shape[ax]; out = np.zeros(T.shape)
    for j in range(L): out += np.roll(T, L // 2 - j, axis=ax)
    return out / L


@monitor("los_window", quick=1000, thorough=5000, min_obs=350)
def los_window(c):
    q = cosmology(c); n = tuple(c.size(1, 9, 24) for _ in range(3)); x, d = fields(c, n); x = x * 10 ** c.uni(-7, -3) if c.coin(.8) else x; ax = c.int(0, 2); m = n[ax]; L = c.pick([1, 2, 3, m, max(m - 1, 1), c.int(1, m), c.int(1, 3 * m)]); z = c.uni(4, 8); B = c.uni(10, 300); c.note(n=n, ax=ax, L=L, x=x, d=d, z=z, B=B)
    kw = {}; pq = passing(c, q)
    if c.coin():   # lengths: the window covers round(length/cell) cells of the line-of-sight axis
        f = L + c.uni(-.4, .4); ln = f * B / m; kw.update(los_len=c.pick([ln * U.Mpc, ln * 1e3 * U.kpc]), box_len=c.pick([B * U.Mpc, B, B / 1e3 * U.Gpc]))
    else:
        kw["los_len"] = L
        if c.coin(): kw["box_len"] = B * U.Mpc
    if c.coin(.25):
        B = (200 / q.h); kw.pop("box_len", None)
        if not isinstance(kw["los_len"], int): kw["los_len"] = (L + c.uni(-.4, .4)) * B / m * U.Mpc
    if ax != 2 or c.coin(): kw["los_axis"] = ax
    if c.coin(.35):
        T = c.pick([1e4, 10 ** c.rng.uniform(3, 5, n), 10 ** c.rng.uniform(3, 5, n) * U.K]); dr = c.uni(.01, 1) * U.Mpc; nu = 2.46e15 * (1 + c.pick([0., c.uni(-1, 1) * 1e-4])); kw.update(method=c.pick(["smith2015", "Smith2015"]), Tk=T, dr=dr, **({} if nu == 2.46e15 else dict(nu=nu)))
        tau = np.asarray(c.call(t2c.tau_nu_lyA, z, x, T, dr, nu=nu, **pq), float)
    else:
        e = {}
        if c.coin(.5): e = dict(f_alpha=c.uni(.1, .6), k_res=c.uni(.2, 3), lambda_alpha=c.uni(1000, 1300) * U.Angstrom)
        if c.coin(.5): e["X_H"] = c.uni(.6, .9)
        kw.update(e); tau = np.asarray(c.call(t2c.tau_nu_lyA_FGPA, z, x, d, **e, **pq), float)
        if c.coin(): kw["method"] = c.pick(["FGPA", "fgpa"])
    with np.errstate(all="ignore"):
        r = np.asarray(c.call(t2c.tau_nu_lyA_los, z, x, d, **kw, **pq), float); c.equal(r.shape, n, "shape"); ref = window(np.exp(-tau), L, ax)
        c.close(np.exp(-r), ref, "transmission averaged in the window", rtol=1e-9, atol=1e-13); ok = ref > 1e-250; c.close(r[ok], -np.log(ref[ok]), "effective optical depth", rtol=1e-7, atol=1e-12); c.true(np.all(np.isinf(r[ref == 0])), "opaque windows are infinitely thick")
        s = c.int(1, m); r2 = np.asarray(c.call(t2c.tau_nu_lyA_los, z, np.roll(x, s, ax), np.roll(d, s, ax), **{**kw, **({"Tk": np.roll(kw["Tk"], s, ax)} if np.ndim(kw.get("Tk")) == 3 else {})}, **pq), float); c.close(np.exp(-r2), np.roll(np.exp(-r), s, ax), "moving the fields moves the result", rtol=1e-9, atol=1e-13)


@monitor("voigt", quick=400, thorough=2000, min_obs=150)
def voigt(c):
    n = c.pick([(), (c.int(1, 5),), (2, 3)]); x = c.rng.uniform(-1, 1, n) * 10 ** c.uni(-1, .7); x = float(x) if n == () else x; a = 10 ** c.uni(-4, 1); c.note(x=x, a=a)
    w = np.asarray(c.call(t2c.approximation_voigt_faddeeva, x, a)); v = np.asarray(c.call(t2c.direct_voigt_profile, x, a))
    # a/pi * int exp(-y^2)/((y-x)^2+a^2) dy, as the equivalent cosine transform
    t = np.linspace(0, 60, 60001); ref = np.array([np.trapezoid(np.exp(-a * t - t * t / 4) * np.cos(u * t), t) for u in np.ravel(x)]).reshape(n) / np.sqrt(np.pi)
    c.close(w, ref, "Faddeeva profile", rtol=1e-5, atol=1e-7); c.close(v, ref, "integrated profile", rtol=1e-2, atol=1e-6); c.equal(np.shape(w), np.shape(x), "shape"); c.equal(np.shape(v), np.shape(x), "shape")


def mag(c, m): return c.pick([m, m * U.mag])


@monitor("magnitudes", quick=800, thorough=4000, min_obs=1000)
def magnitudes(c):
    q = cosmology(c); pq = passing(c, q); z = 10 ** c.uni(-1, 1.3); M = c.pick([c.uni(-24, -10), c.rng.uniform(-24, -10, c.int(1, 6))]); M = M if np.ndim(M) == 0 else M; Mq = mag(c, M) if np.ndim(M) == 0 else M * U.mag; c.note(M=M, z=z, q=str(q))
    m = c.call(A.Muv_to_muv, Mq, z, **pq); DL = q.luminosity_distance(z).to_value(U.pc); c.close(m.to_value(U.mag), M + 5 * np.log10(DL / 10) - 2.5 * np.log10(1 + z), "apparent magnitude", rtol=1e-10)
    b = c.call(A.muv_to_Muv, m, z, **pq); c.close(b.to_value(U.mag), M, "and back", rtol=1e-10)
    if np.ndim(M) == 0: v = m.to_value(U.mag).item() if hasattr(m.to_value(U.mag), "item") else m.to_value(U.mag); c.close(c.call(A.muv_to_Muv, float(v), z, **pq).to_value(U.mag), M, "plain numbers are magnitudes", rtol=1e-10)
    L = c.call(A.Muv_to_L1500, Mq).to_value(U.erg / U.s / U.Hz); f = c.call(A.mag_to_flux, m).to_value(U.erg / U.s / U.cm ** 2 / U.Hz); c.close(f, 10 ** (-.4 * (m.to_value(U.mag) + 48.6)), "AB flux", rtol=1e-9); c.close(L, 10 ** (.4 * (34.1 - M) + 7), "luminosity", rtol=1e-9)
    c.close(L * (1 + z) / (4 * np.pi * (DL * k.pc.cgs.value) ** 2), f, "luminosity, distance and flux agree", rtol=.01)
    d = c.uni(.1, 3); c.close(L, c.call(A.Muv_to_L1500, Mq - d * (U.mag if hasattr(Mq, "unit") else 1)).to_value(U.erg / U.s / U.Hz) * 10 ** (-.4 * d), "brighter magnitudes", rtol=1e-9)


@monitor("field_of_view", quick=400, thorough=2000, min_obs=100)
def field_of_view(c):
    q = cosmology(c); pq = passing(c, q); z = 10 ** c.uni(-1, 1.3); F = 10 ** c.uni(-4, 2); c.note(F=F, z=z)
    ref = F * (np.pi / 180) ** 2 * q.comoving_distance(z).to_value(U.Mpc) ** 2
    for v in (F, F * U.deg ** 2, F * (np.pi / 180) ** 2 * U.sr, F * 3600 * U.arcmin ** 2): c.close(c.call(A.FoV_cMpc2, v, z, **pq).to_value(U.Mpc ** 2), ref, "comoving area", rtol=1e-9)
