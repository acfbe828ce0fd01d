"""C21: seeded random fields, foregrounds, correlation functions and primary beams against their definitions."""
import numpy as np
from scipy.special import j1
from scipy.spatial.distance import cdist as dist, pdist
from skimage.morphology import ball
from vh import monitor, Skip, quiet
import tools21cm as t2c
from tools21cm import conv, const
from tools21cm import test_case as T
import sys
B, X = sys.modules["tools21cm.primary_beam"], sys.modules["tools21cm.corr_function"]
import cosmoref as K
import psref, gens


def spectrum(c):
    k = c.pick(["flat", "power", "gauss", "bump", "step"]); a = c.logu(1e-4, 1e4); n = c.uni(-3, 2); s = c.logu(.02, 5)
    f = dict(flat=lambda x: a + 0 * x, power=lambda x: a * x ** n, gauss=lambda x: a * np.exp(-(x / s) ** 2), bump=lambda x: a / (1 + (x / s) ** 4), step=lambda x: a * (1. + 3 * (x > s)))[k]
    return (k, a, n, s), f


def shape(c, lo=4, hi=14):
    d = c.pick([2, 3, 3]); return tuple(c.int(lo, hi) for _ in range(d)) if c.coin(.6) else (c.int(lo, hi),) * d


def box(c, sh):
    return c.pick([c.logu(1, 500), [c.logu(10, 500) for _ in sh], (c.int(5, 400),) * len(sh)])


def modes(f):
    return np.fft.fftshift(np.fft.fftn(f))


def scale(sh, bx):
    v = np.prod(psref.dims(bx, len(sh))); return (v / np.prod(sh)) ** 2 / v


@monitor("grf", quick=800, thorough=6000, min_obs=400)
def grf(c):
    """With one seed the modes are sqrt(P(k)) times the same unit noise, whatever the spectrum."""
    sh, seed = shape(c), c.pick([0, *(c.int(0, 2 ** 31) for _ in range(6))]); bx = box(c, sh); lab, P = spectrum(c); c.note(sh=sh, seed=seed, bx=bx, P=lab)
    if c.coin(.2): sh = list(sh)
    f = c.call(t2c.make_gaussian_random_field, sh, bx, P, random_seed=seed); c.true(f.shape == tuple(sh) and np.isrealobj(f) and np.all(np.isfinite(f)), "shape and values of the field")
    c.equal(c.call(t2c.make_gaussian_random_field, sh, bx, P, random_seed=seed), f, "same seed, same field")
    w = modes(c.call(t2c.make_gaussian_random_field, sh, bx, lambda k: 1 + 0 * k, random_seed=seed)) * np.sqrt(scale(sh, bx))
    k = psref.kmag(tuple(sh), bx); nz = k > 0; e = np.sqrt(P(np.where(nz, k, 1.)) / scale(sh, bx)) * w
    g = modes(f)
    if lab[0] == "step": nz &= np.abs(k - lab[3]) > 1e-6 * lab[3]
    c.close(g[nz], e[nz], "Fourier modes carry the requested power at their own k", rtol=1e-8, atol=1e-8 * np.abs(e[nz]).max() + 1e-12 * np.abs(g).max())
    g2 = c.call(t2c.make_gaussian_random_field, sh, bx, P, random_seed=seed + 1); c.true(not np.allclose(g2, f, rtol=1e-6, atol=0), "another seed, another field")


@monitor("grf_statistics", quick=96, thorough=400, min_obs=100)
def grf_stats(c):
    """Ensemble: |w|^2 averages to one in every shell, phases are unbiased, distinct modes are independent."""
    sh = c.pick([(16, 16), (9, 11), (8, 8, 8), (7, 9, 8), (5, 5, 5), (6, 10)]); bx = box(c, sh); n = 300 if not c.thorough else 1500; s0 = c.int(0, 10 ** 8); a = c.logu(.01, 100); c.note(sh=sh, bx=bx, s0=s0, a=a)
    W = np.array([modes(quiet(t2c.make_gaussian_random_field, sh, bx, lambda k: a + 0 * k, random_seed=s0 + i)) for i in range(n)]) * np.sqrt(scale(sh, bx) / a); c.calls += n
    k = psref.kmag(sh, bx); p = (np.abs(W) ** 2).mean(0); m = k > 0
    # each |w|^2 has mean 1 and variance 1 (2 for self-conjugate modes)
    c.true(np.all(np.abs(p[m] - 1) < 8 * np.sqrt(2 / n) + 30 / n), f"power of a mode off by {np.abs(p[m] - 1).max()} over {n} seeds")
    nm = m.sum(); c.true(abs(p[m].mean() - 1) < 7 * np.sqrt(2 / (n * nm)) , f"mean power {p[m].mean()} over {n} seeds x {nm} modes")
    c.true(np.all(np.abs(W.mean(0)[m]) < 8 / np.sqrt(n)), "modes average to zero")
    half = np.arange(W[0].size)[m.ravel()][: nm // 2]; i, j = c.rng.permutation(half)[:2]
    q = W.reshape(n, -1); c.true(abs((q[:, i] * q[:, j].conj()).mean()) < 8 / np.sqrt(n) + 20 / n, "distinct modes are uncorrelated")


@monitor("grf_power", quick=8, thorough=60, min_obs=16)
def grf_power(c):
    """One field of two million modes: their total power, and that of their real and imaginary parts, is the requested one."""
    n = c.pick([120, 125, 128]); bx = c.logu(10, 500); a = c.logu(.01, 100); seed = c.int(0, 2 ** 31); c.note(n=n, bx=bx, a=a, seed=seed)
    W = modes(c.call(t2c.make_gaussian_random_field, (n,) * 3, bx, lambda k: a + 0 * k, random_seed=seed)) * np.sqrt(scale((n,) * 3, bx) / a)
    W = W.ravel()[np.arange(n ** 3) != np.ravel_multi_index((n // 2,) * 3, (n,) * 3)]; t = 7 * np.sqrt(2 / n ** 3); r, i = float((W.real ** 2).mean()), float((W.imag ** 2).mean())
    c.true(abs(r + i - 1) < t, f"total power {r + i}, {t} allowed"); c.true(abs(2 * r - 1) < 1.5 * t and abs(2 * i - 1) < 1.5 * t, f"power of the parts {r}, {i}")


@monitor("grf_like", quick=240, thorough=1500, min_obs=100)
def like(c):
    sh, seed = shape(c, 6), c.pick([0, *(c.int(0, 2 ** 31) for _ in range(6))]); bx = box(c, sh); a = c.rng.normal(size=sh) * c.logu(.1, 10) + c.uni(-1, 1); nb = c.int(3, 10); c.note(sh=sh, bx=bx, a=a, nb=nb, seed=seed)
    f = c.call(t2c.make_gaussian_random_field_like_field, a, bx, kbins=nb, random_seed=seed); c.true(f.shape == sh, "shape of the input field")
    c.equal(c.call(t2c.make_gaussian_random_field_like_field, a, bx, kbins=nb, random_seed=seed), f, "same seed, same field")
    w = modes(quiet(t2c.make_gaussian_random_field, sh, bx, lambda k: 1 + 0 * k, random_seed=seed)) * np.sqrt(scale(sh, bx))
    ps, ks, n = quiet(t2c.power_spectrum_1d, a, box_dims=bx, kbins=nb, return_n_modes=True); ks, ps = ks[n > 0], ps[n > 0]
    if len(ks) < 2: raise Skip
    k = psref.kmag(sh, bx); m = (k > 0) & (np.abs(k - ks[0]) > 1e-9 * k.max()) & (np.abs(k - ks[-1]) > 1e-9 * k.max())
    P = np.interp(k, ks, ps, left=0, right=0); c.close(modes(f)[m], (np.sqrt(P / scale(sh, bx)) * w)[m], "power of the input field, interpolated in k", rtol=1e-7)


def zlist(c, lo=5.6, hi=25):
    z = np.sort(np.round(c.rng.uniform(lo, hi, c.int(1, 4)), 3)); k = c.pick(["array", "float", "list", "int", "np"])
    return dict(array=z, float=float(z[0]), list=list(z), int=int(z[0]) + 1, np=np.float64(z[0]))[k]


@monitor("synchrotron", quick=300, thorough=2000, min_obs=200)
def synch(c):
    """One sky realisation per seed: every frequency is the same map times the known spectral scaling."""
    om, h = K.random_cosmology(c, t2c); n, L, seed = c.size(3, 24, 90), c.logu(50, 1000), c.pick([0, *(c.int(1, 2 ** 31) for _ in range(6))]); z = zlist(c); zz = np.atleast_1d(np.asarray(z, float)); c.note(n=n, L=L, seed=seed, z=zz, cosmo=(om, h))
    m = c.call(t2c.galactic_synch_fg, z, n, L, rseed=seed); c.true(m.shape == ((n, n, len(zz)) if len(zz) > 1 else (n, n)), f"one image per redshift, got {m.shape}")
    c.equal(c.call(t2c.galactic_synch_fg, z, n, L, rseed=seed), m, "same seed, same sky"); m = m.reshape(n, n, -1); c.true(np.all(np.isfinite(m)) and np.all(m >= 0) and m.max() > 0, "finite brightness temperatures")
    d = K.cdist(zz, om, h); nu = const.nu0 / (1 + zz)
    # sqrt(solid angle x C_l) in Jy, then the conversion to mK at that redshift
    amp = (L / d) * (d / L) ** (-2.34 / 2) * (nu / 150) ** (-2.8 - .1 * np.log(nu / 150))
    con = np.array([quiet(t2c.jansky_2_kelvin, 1., q, boxsize=L, ncells=n) for q in zz])
    for i in range(1, len(zz)): c.close(m[..., i], m[..., 0] * (amp[i] * con[i] / (amp[0] * con[0])), "spectral and angular scaling between redshifts", rtol=1e-6)
    o = c.call(t2c.galactic_synch_fg, float(zz[0]), n, L, rseed=seed + 1).reshape(n, n); c.true(not np.allclose(o, m[..., 0], rtol=1e-6, atol=0), "another seed, another sky")
    # mean square over seeds: each harmonic contributes its requested power
    if c.i % 5 == 0:
        N = 200; s = np.array([(quiet(t2c.galactic_synch_fg, float(zz[0]), n, L, rseed=seed + 7 + q) ** 2).mean() for q in range(N)])
        u = np.arange(n) - n / 2 + .5; l = 2 * np.pi * np.hypot(u[:, None], u) * d[0] / L; C = np.zeros((n, n)); C[l > 1e-6] = 513 * (1000 / l[l > 1e-6]) ** 2.34
        C *= (nu[0] / 150) ** (-5.6 - .2 * np.log(nu[0] / 150)) * (L / d[0]) ** 2
        w = (1e6 * con[0]) ** 2 * C / n ** 4; ref = w.sum(); err = np.sqrt((w ** 2).sum() / N); c.true(abs(s.mean() - ref) < 8 * err, f"mean square {s.mean()} over {N} seeds, expected {ref} +- {err}")


@monitor("point_sources", quick=120, thorough=800, min_obs=60)
def points(c):
    om, h = K.random_cosmology(c, t2c); n, L, seed = c.size(3, 40, 120), c.logu(150, 700), c.pick([0, *(c.int(1, 2 ** 31) for _ in range(6))]); Sm = c.pick([100, 100, c.logu(10, 300)]); z = zlist(c); zz = np.atleast_1d(np.asarray(z, float)); kw = {} if Sm == 100 and c.coin() else dict(S_max=Sm); c.note(n=n, L=L, seed=seed, z=zz, Sm=Sm)
    m = c.call(t2c.extragalactic_pointsource_fg, z, n, L, rseed=seed, **kw); c.true(m.shape == ((n, n, len(zz)) if len(zz) > 1 else (n, n)), f"one image per redshift, got {m.shape}")
    c.equal(c.call(t2c.extragalactic_pointsource_fg, z, n, L, rseed=seed, **kw), m, "same seed, same sky"); m = m.reshape(n, n, -1)
    om_ = (L / K.cdist(zz.min(), om, h)[0]) ** 2; S = np.arange(.1, Sm, .01); N = 10 ** 3.75 * om_ * (.1 ** -.6 - S[-1] ** -.6) / .6
    c.true(np.all(np.isfinite(m)) and np.all(m >= 0), "finite, non-negative")
    c.true(all(np.array_equal(m[..., 0] > 0, m[..., i] > 0) for i in range(len(zz))), "the same sources at every frequency")
    occ = int((m[..., 0] > 0).sum()); c.true(occ <= N * 1.01 + 1, f"{occ} cells lit by {N} sources")
    if N > 3: c.true(occ > 0, "there are sources")
    con = quiet(t2c.jansky_2_kelvin, 1., zz[0], boxsize=L, ncells=n); nu = const.nu0 / (1 + zz)
    if N >= 10:      # total flux of N sources drawn from the given fluxes, spectral index .7 to .8
        tot = m[..., 0].sum() / con; f = (nu[0] / 150) ** -.75; mu, sd = S.mean() * f, S.std() * f; c.true(abs(tot - N * mu) < (8 * sd * np.sqrt(N) + .06 * N * mu + 2 * Sm * f), f"total flux {tot} from {N} sources of mean {mu}")
    for i in range(1, len(zz)):
        g = m[..., 0] > 0; ci = quiet(t2c.jansky_2_kelvin, 1., zz[i], boxsize=L, ncells=n); r = (m[..., i][g] / ci) / (m[..., 0][g] / con); lo, hi = sorted([(nu[i] / nu[0]) ** -.7, (nu[i] / nu[0]) ** -.8])
        c.true(np.all(r >= lo * (1 - 1e-6)) and np.all(r <= hi * (1 + 1e-6)), f"power-law spectra with index .7-.8: flux ratios {r.min()}..{r.max()}, allowed {lo}..{hi}")
        if g.sum() >= 4 and abs(np.log(nu[i] / nu[0])) > 1e-3: al = -np.log(r) / np.log(nu[i] / nu[0]); c.true(np.ptp(al) > 1e-4, f"{g.sum()} sources do not share one spectral index ({al.min()}..{al.max()})")
    # where the sources are: anywhere in the image, the same number expected in every row, column and on every diagonal
    ij = np.argwhere(m[..., 0] > 0)
    if len(ij) and n >= 5 and occ < n * n / 4:
        for w in ((ij[:, 0] - ij[:, 1]) % n, (ij[:, 0] + ij[:, 1]) % n, ij[:, 0], ij[:, 1]):
            k = np.bincount(w, minlength=n); e = occ / n; c.true(k.max() <= e + 8 * np.sqrt(e) + 10, f"{k.max()} of {occ} sources in one of {n} lines")
    if len(zz) > 1:
        p = c.rng.permutation(len(zz)); c.equal(c.call(t2c.extragalactic_pointsource_fg, zz[p], n, L, rseed=seed, **kw), m[..., p], "the same sky whatever the order of the redshifts")


@monitor("bubbles", quick=120, thorough=600, min_obs=150)
def bubbles(c):
    n, r = c.int(10, 22), c.int(1, 4); mode = c.pick(["Poisson", "uniform-random", "non-overlapping", "anticlustered"]); non = mode[0] in "na"; x = c.uni(.05, .2 if non else .7); seed = c.int(0, 2 ** 31); bs = 1 if c.coin(.8) else 2; c.note(n=n, r=r, mode=mode, x=x, seed=seed, bs=bs)
    if 4.2 * np.pi / 3 * r ** 3 * bs >= x * n ** 3: raise Skip
    k = ball(r); vol = int(k.sum()); kw = dict(r=r, source_distribution=mode, batch_size=bs, max_iter=2000)
    cube = None
    if c.coin(.3) and not non: cube = np.zeros((n, n, n)); o = np.argwhere(k) - r + c.rng.integers(0, n, 3); cube[tuple((o % n).T)] = 1; kw["cube"] = cube
    start = None if cube is None else cube.copy()
    if cube is not None and 4.2 * np.pi / 3 * r ** 3 * bs >= (x - cube.mean()) * n ** 3: raise Skip
    again = {**kw, "cube": cube.copy()} if cube is not None else kw; np.random.seed(seed); b = c.call(T.spherical_bubble_model, n, x, **kw); np.random.seed(seed); b2 = c.call(T.spherical_bubble_model, n, x, **again); c.equal(b2, b, "same random state, same bubbles")   # (the given cube is painted on: C20's known finding)
    c.true(b.shape == (n, n, n) and set(np.unique(b)) <= {0., 1.}, "a cube of neutral and ionised cells")
    if cube is not None: c.true(np.all(b[start == 1] == 1), "bubbles of the given cube stay")
    done = b.mean() >= x; c.true(done or non, f"filling fraction {b.mean()} below the target {x}"); c.true(b.mean() < x + bs * vol / n ** 3 + 1e-12, "at most one batch of bubbles beyond the target")
    # every ionised cell lies in a whole periodic ball of ionised cells
    kk = np.zeros((n, n, n)); o = np.argwhere(k) - r; kk[tuple((o % n).T)] = 1
    if (2 * r + 1) > n: raise Skip
    Fk = np.fft.rfftn(kk); er = np.fft.irfftn(np.fft.rfftn(b) * np.conj(Fk), s=b.shape); ce = np.round(er) == vol
    op = np.round(np.fft.irfftn(np.fft.rfftn(ce.astype(float)) * Fk, s=b.shape)) > 0; c.equal(op, b > 0, "ionised region is a union of spheres of the given radius, wrapped around the box")
    if non and bs == 1 and int(b.sum()) % vol:
        wraps = any(b.take(0, d).any() and b.take(-1, d).any() for d in range(3)); msg = f"non-overlapping spheres of {vol} cells cannot fill {int(b.sum())} cells"
        if wraps: c.known_finding("bubbles-overlap-across-faces", msg)
        c.true(False, msg)


@monitor("paint", quick=300, thorough=2000, min_obs=100)
def paint(c):
    sh = tuple(c.int(4, 9) for _ in range(3)); ks = tuple(c.int(1, min(s, 5)) for s in sh); k = c.rng.random(ks); a = c.rng.random(sh); p = np.array([[c.int(-s, 2 * s) for s in sh] for _ in range(c.int(1, 4))]); c.note(a=a, k=k, p=p); b = a.copy()
    quiet(T.paint_kernel, b, p, k); c.calls += 1; ref = a.copy()
    for q in p:
        for i in np.ndindex(ks): ref[tuple((q[d] + i[d] - ks[d] // 2) % sh[d] for d in range(3))] += k[i]
    twice = a.copy()
    for q in p:
        twice *= 2
        for i in np.ndindex(ks): twice[tuple((q[d] + i[d] - ks[d] // 2) % sh[d] for d in range(3))] += k[i]
    if np.allclose(b, twice, rtol=1e-10, atol=1e-10) and not np.allclose(b, ref): c.known_finding("paint-doubles", "paint_kernel doubles the cube at every position it paints")
    c.close(b, ref, "the kernel is added at each position, wrapped around the box", rtol=1e-10)


def beam_ref(n, L, l, kind):
    x = (np.arange(n) - n / 2) * L / n; r = np.hypot(x[:, None], x)
    if kind == "step": b = (r <= l / 2) * 1.
    if kind == "gaussian": b = np.exp(-r ** 2 / 2 / (l / 1.186 / 2.355) ** 2)
    if kind == "bessel": q = np.where(r > 0, 3.8317 * r / l, 1e-8); b = (2 * j1(q) / q) ** 2
    if kind == "sigmoid": b = 1 / (1 + np.exp(np.clip(.5 * (r - l / 2), -600, 600)))
    with np.errstate(all="ignore"): return r, b / b.max()


@monitor("primary_beam", quick=800, thorough=5000, min_obs=500)
def pbeam(c):
    om, h = K.random_cosmology(c, t2c); kind = c.pick(["gaussian", "bessel", "sigmoid", "step"]); n = c.size(4, 20, 90); L = c.logu(20, 3000); D = c.pick([40., 35., c.logu(5, 500)]); l = c.pick([None, c.logu(.2, 2) * L]); nz = c.int(1, 6); ax = c.int(0, 2); im = c.coin(.3)
    z = np.round(c.rng.uniform(5, 25, nz), 3); zk = c.pick(["array", "list", "scalar", "int"]); nm = c.pick([kind, kind.capitalize(), kind.upper()]); c.note(kind=kind, n=n, L=L, D=D, l=l, z=z, ax=ax, im=im, zk=zk, cosmo=(om, h))
    if zk == "int": z = z.astype(int)
    zz = z if zk == "array" else list(z) if zk == "list" else (float(z[0]) if zk == "scalar" else int(z[0]))
    if zk in ("scalar", "int"): z = np.full(nz, z[0])
    dn = lambda q: l if l is not None else 1.22 * K.cdist(q, om, h)[0] * (3e5 * 1e3 / (const.nu0 / (1 + q) * 1e6)) / D
    c.close(c.call(B.primary_beam_null, float(z[0]), D_station=D), 1.22 * K.cdist(z[0], om, h)[0] * (3e8 / (const.nu0 * 1e6 / (1 + z[0]))) / D, "first null: 1.22 wavelength/D at the comoving distance", rtol=2e-3)
    def ref(q):
        l_ = dn(q)
        if l is None: l_ = float(quiet(B.primary_beam_null, float(q), D_station=D))
        r, b = beam_ref(n, L, l_, kind); sure = np.abs(r - l_ / 2) > 1e-9 * L if kind == "step" else np.ones(r.shape, bool)
        return b, sure
    if kind == "step" and (n % 2) and l is not None and l < L / n * 1.5: raise Skip
    if kind == "sigmoid" and n % 2: raise Skip      # no cell at the centre: the peak may underflow
    b, ok = ref(z[0])
    if not np.all(np.isfinite(b)): raise Skip
    g = c.call(t2c.circular_beam, n, float(z[0]), D_station=D, beam_func=nm, boxsize=L, l_null=l)
    c.close(g[ok], b[ok], "beam pattern", rtol=1e-6); c.true(abs(g.max() - 1) < 1e-12, "unit response at the peak")
    bs = {} if c.coin() else dict(boxsize=L)
    if not bs: quiet(t2c.set_sim_constants, 244); L = conv.LB; b, ok = ref(z[0])
    if kind == "step" and any(ref(q)[0].max() != 1 for q in z): raise Skip
    if im:
        a = c.rng.normal(size=(n, n)); o = c.call(t2c.primary_beam, a, float(z[0]), beam_func=nm, D_station=D, l_null=l, verbose=False, **bs); c.close(o[ok], (a * b)[ok], "image times beam", rtol=1e-6)
    else:
        sh = [n, n]; sh.insert(ax, nz); a = c.rng.normal(size=sh); o = c.call(t2c.primary_beam, a, zz, nu_axis=ax, beam_func=nm, D_station=D, l_null=l, verbose=False, **bs); c.true(o.shape == a.shape, "shape kept")
        for i in range(nz):
            b, ok = ref(z[i]); c.close(np.take(o, i, ax)[ok], (np.take(a, i, ax) * b)[ok], "every channel times the beam of its own redshift", rtol=1e-6)
    c.true(not c.mutations, f"inputs changed: {c.mutations}")


@monitor("beam_errors", quick=20, thorough=50, min_obs=5)
def beam_err(c):
    c.raises(t2c.primary_beam, np.ones((4, 4)), 9., beam_func=c.pick(["top", "airyx", "none"]), what="unknown beam")


@monitor("corr", quick=600, thorough=4000, min_obs=500)
def corr(c):
    """The documented transform of the measured spectrum: 4 pi int k^2 P sin(kr)/(kr) dk."""
    quiet(t2c.set_sim_constants, 244); sh = shape(c, 6, 14); n = sh[0]; L = c.logu(10, 500); a = c.rng.normal(size=sh); b = c.rng.normal(size=sh) + c.uni(-1, 1) * a; kb = c.int(3, 15); bk, rb = c.pick(["log", "linear"]), c.pick(["log", "linear"]); rr = c.pick([c.int(2, 12), None])
    r = np.sort(c.rng.uniform(L / n, L / 2, 5)) if rr is None else rr; cross = c.coin(); c.note(a=a, b=b, L=L, kb=kb, bk=bk, rb=rb, r=r, cross=cross)
    box = dict(box_dims=L)
    if c.coin(.2): box = {}; L = conv.LB
    args = (a, b) if cross else (a,)
    xi, ro = c.call(t2c.cross_correlation_function if cross else t2c.correlation_function, *args, rbins=r, kbins=kb, binning=rb, k_binning=bk, **box)
    ref_r = r if rr is None else (np.geomspace if rb == "log" else np.linspace)(2 * L / n, L / 2, rr); c.close(ro, ref_r, "separations", rtol=1e-10)
    ps, ks = quiet(t2c.cross_power_spectrum_1d, a, b, kbins=kb, box_dims=L, binning=bk) if cross else quiet(t2c.power_spectrum_1d, a, kbins=kb, box_dims=L, binning=bk)
    m = np.isfinite(ps); ks, ps = ks[m], ps[m]; x = ks * np.asarray(ref_r)[:, None]; y = 4 * np.pi * ks ** 2 * ps * np.sin(x) / x
    c.close(xi, ((y[:, 1:] + y[:, :-1]) / 2 * np.diff(ks)).sum(1), "transform of the power spectrum", rtol=1e-8)
    xi2, _ = c.call(X.ps_to_corr, ps, ks, rbins=np.asarray(ref_r)); c.close(xi2, xi, "ps_to_corr of the same spectrum", rtol=1e-8)
    # one sharp peak in k gives sinc: zero crossing at kr = pi
    k0 = c.uni(.2, 2); kk = np.linspace(k0 * .999, k0 * 1.001, 5); q, _ = c.call(X.ps_to_corr, np.ones(5), kk, rbins=np.array([.01, np.pi / k0, 1.5 * np.pi / k0])); c.true(abs(q[1]) < 2e-3 * q[0] and abs(q[2] / q[0] + 2 / 3 / np.pi) < 2e-3, f"transform of one wave number is not sin(kr)/(kr): {q / q[0]}")


@monitor("landy_szalay", quick=240, thorough=1500, min_obs=120)
def ls(c):
    L = c.logu(10, 300); n, m = c.size(4, 60, 400), c.size(8, 60, 400); lo = c.uni(.05, .3) * L; R = c.rng.uniform(0, L, (m, 3)); D = c.rng.uniform(0, L, (n, 3))
    if c.coin(.3): D = D[:1] + c.rng.normal(size=(n, 3)) * L * .1
    k = c.pick(["edges", "list", "log", "linear", "cube"]); kw = dict(box_dims=L); nb = c.int(3, 8); c.note(D=D, R=R, L=L, k=k, nb=nb)
    if k in ("edges", "list"): e = np.sort(c.rng.uniform(lo, 1.5 * L, nb)); kw["rbins"] = list(e) if k == "list" else e
    elif k == "cube":
        g = c.int(4, 8); q = (c.rng.random((g, g, g)) < .1) * 1.; e = np.sort(c.rng.uniform(lo, 1.5 * L, nb)); kw["rbins"] = e; D = np.argwhere(q > 0) * L / g
        if len(D) < 2: raise Skip
    else:
        rm = c.uni(.5, 1.6) * L; kw.update(rbins=nb, rmin=lo, rmax=rm, binning=k); e = (np.geomspace if k == "log" else np.linspace)(lo, rm, nb)
    xi, rc = c.call(X.landy_szalay_estimator, q if k == "cube" else D, R, **kw); H = lambda d: np.histogram(d, e)[0]; n = len(D)
    dd, rr, dr = H(pdist(D)) / (n * (n - 1) / 2), H(pdist(R)) / (m * (m - 1) / 2), H(dist(D, R).ravel()) / (n * m)
    c.close(rc, (e[1:] + e[:-1]) / 2, "bin centres", rtol=1e-9); ok = rr > 0
    ds = np.concatenate([pdist(D), pdist(R), dist(D, R).ravel()])
    if np.abs(ds[:, None] - e).min() < 1e-9 * L: raise Skip
    c.close(np.asarray(xi)[ok], ((dd - 2 * dr + rr)[ok] / rr[ok]), "(DD-2DR+RR)/RR over all pairs", rtol=1e-8)


@monitor("wedge", quick=300, thorough=1500, min_obs=100)
def wedge(c):
    sh = tuple(c.size(3, 9, 28) for _ in range(3)); a = c.rng.normal(size=sh); k = psref.kmag(sh, 1.); f = (c.rng.random(sh) < .5) * 1. if c.coin() else np.exp(-(k / k.max()) ** 2 * 3); f = f * 1.; c.note(a=a, f=f)
    o = c.call(t2c.remove_wedge_image, a, 9., filt=f); c.close(o, np.fft.ifftn(np.fft.fftn(a) * np.fft.ifftshift(f)).real, "each Fourier mode times its own filter value", rtol=1e-9)
    if c.coin():
        n = c.int(4, 10); z = c.uni(6, 15); L = c.logu(30, 500); mu = c.uni(.2, .9); fn = c.pick(["step", "sigmoid"]); a = c.rng.normal(size=(n, n, n))
        w = c.call(t2c.diabolo_filter, z, array=a, boxsize=L, mu=mu, funct=fn); k0 = np.linspace(-n * np.pi / L, n * np.pi / L, n); kp = np.hypot(k0[:, None], k0); kl = np.abs(k0) * (1 - mu ** 2) / mu
        kmin = np.pi / (quiet(t2c.z_to_cdist, z) * (21. / 40 / 1e2)); d = kp[..., None] - kl; ref = (d > 0) * 1. if fn == "step" else 1 - 1 / (1 + np.exp(10 * d)); ref = np.where((kp <= kmin)[..., None], 0, ref); ok = (np.abs(d) > 1e-9 * kp.max()) & (np.abs(kp - kmin) > 1e-9 * kp.max())[..., None]
        c.close(w[ok], ref[ok], "the filter keeps modes outside the wedge and beyond the shortest baseline", rtol=1e-9)
        c.close(c.call(t2c.remove_wedge_image, a, z, mu=mu, funct=fn, boxsize=L), c.call(t2c.remove_wedge_image, a, z, filt=w), "built-in filter", rtol=1e-9)
