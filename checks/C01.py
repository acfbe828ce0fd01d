"""C01: spherical power spectra vs the definition (plain FFT + explicit mode membership)."""
import numpy as np
from vh import monitor, Skip, Violation
import psref as R
from gens import field
import tools21cm as t2c
from tools21cm import power_spectrum as PS

def shape_box(c, ndim=None, small=False):
    ndim = ndim or c.pick([1, 2, 3, 3, 3])
    top = {1: 64, 2: 24, 3: 12}[ndim]
    mode = c.pick(["cube_even", "cube_odd", "mixed", "mixed"])
    if mode == "cube_even": shape = (2 * c.int(2, top // 2),) * ndim
    elif mode == "cube_odd": shape = (2 * c.int(1, top // 2) + 1,) * ndim
    else: shape = tuple(c.int(3, top) for _ in range(ndim))
    bm = c.pick(["scalar", "list", "array", "tuple", "aniso"])
    if bm == "scalar": box = c.logu(5, 800) if c.coin(.85) else c.logu(1e-2, 1e6)
    else:
        b = c.logu(5, 800)
        box = [b * c.uni(.4, 2.5) for _ in range(ndim)] if bm != "list" else [b] * ndim
        if bm == "array": box = np.array(box)
        if bm == "tuple": box = tuple(box)
    return shape, box


@monitor("nd", quick=300, thorough=1500, min_obs=30)
def nd(c):
    shape, box = shape_box(c)
    a, kind = field(c, shape); b, _ = field(c, shape)
    c.note(shape=shape, box=box, kind=kind, a=a)
    want = R.power(a, a, box)
    way = c.coin()
    got = c.call(t2c.power_spectrum_nd, a, box_dims=box) if way else c.call(t2c.power_spectrum_nd, a, boxsize=box)
    c.close(got, want, "power_spectrum_nd", rtol=1e-9)
    got = c.call(t2c.cross_power_spectrum_nd, a, b, box_dims=box)
    sc = np.sqrt(want.max() * R.power(b, b, box).max())
    c.close(got, R.power(a, b, box), "cross_power_spectrum_nd", atol=1e-9 * sc, rtol=1e-9)
    # Parseval: summed power / volume = mean square
    V = np.prod(R.dims(box, a.ndim))
    c.close(c.call(t2c.power_spectrum_nd, a, box_dims=box).sum() / V, np.mean(a.astype(float) ** 2), "Parseval sum of the n-d power", rtol=1e-9)
    if a.dtype.kind == "f" and a.dtype.itemsize == 8:
        F = np.fft.fftn(a); r, ph = c.call(t2c.real_to_fourier_amplitude_phase, a); c.close(r, np.abs(F), "Fourier amplitudes", rtol=1e-9, atol=1e-9 * np.abs(F).max())
        c.true(bool((np.abs(ph) <= np.pi).all()), "phases within one turn"); c.close(r * np.exp(1j * ph), F, "amplitude and phase are those of the Fourier modes", rtol=1e-9, atol=1e-9 * np.abs(F).max())


def _bins(c, shape, box):
    k = R.kmag(shape, box)
    how = c.pick(["int", "int", "edges", "edges", "list"])
    if how == "int":
        return c.int(1, 14), c.pick(["log", "linear", "mixed"])
    e = R.safe_edges(c.rng, k, c.int(1, 8), log=c.coin())
    if e is None: raise Skip()
    return (e if how == "edges" else list(e)), "log"


@monitor("oned", quick=800, thorough=5000, min_obs=150)
def oned(c):
    shape, box = shape_box(c)
    a, kind = field(c, shape)
    cross = c.coin(.4)
    b = field(c, shape)[0] if cross else a
    kb, binning = _bins(c, shape, box)
    bp = c.pick([.1, .1, .5, 1.]) if binning == "mixed" else .1
    c.note(shape=shape, box=box, kind=kind, a=a, cross=cross, kbins=kb, binning=binning, bp=bp)
    nm = c.coin(.7)
    kw = dict(kbins=kb, binning=binning, return_n_modes=nm)
    if binning == "mixed": kw["breakpoint"] = bp
    kw["boxsize" if c.coin(.3) else "box_dims"] = box
    e = R.edges(kb, shape, box, binning, bp)
    if len(e) < 2: raise Skip()
    out = c.call(t2c.cross_power_spectrum_1d, a, b, **kw) if cross else c.call(t2c.power_spectrum_1d, a, **kw)
    c.true(len(out) == (3 if nm else 2), "number of outputs")
    k = R.kmag(shape, box); P = R.power(a, b, box)
    want, n = R.binned_mean(k, P, e)
    amb = R.near_edge(k, e)
    sc = np.abs(P).max() if not cross else np.sqrt(R.power(a, a, box).max() * R.power(b, b, box).max())
    c.close(out[1], .5 * (e[1:] + e[:-1]), "bin centres", rtol=1e-10)
    ps = np.asarray(out[0]); w = want.copy(); p2 = ps.copy()
    c.true(ps.shape == w.shape, f"{ps.shape} values for {w.shape} bins")
    R.check_edge_bins(c, ps, out[2] if nm else None, k, P, e, sc, "binned power")
    p2[amb] = w[amb] = 0
    c.close(p2, w, "binned power", atol=1e-8 * sc, rtol=1e-8)
    if nm:
        c.equal(np.where(amb, 0, out[2]), np.where(amb, 0, n), "mode counts")
        # the unambiguous totals: everything strictly inside the outermost edges is counted once
        if not amb.any():
            c.true(np.nansum(out[2]) == ((k >= e[0]) & (k < e[-1])).sum(), "every mode in range counted exactly once")


@monitor("total", quick=120, thorough=400, min_obs=10)
def total(c):
    """One bin holding every non-zero mode: power equals the variance times volume over modes."""
    shape, box = shape_box(c)
    a, kind = field(c, shape)
    c.note(shape=shape, box=box, a=a)
    k = R.kmag(shape, box); kp = k[k > 0]
    ps, kc, n = c.call(t2c.power_spectrum_1d, a, kbins=np.array([kp.min() * .5, kp.max() * 1.5]), box_dims=box, return_n_modes=True)
    c.true(n[0] == a.size - 1, f"{n[0]} non-zero modes of {a.size - 1}")
    V = np.prod(R.dims(box, a.ndim))
    v = np.var(a.astype(float))
    c.close(ps[0] * n[0] / V, v, "variance from the spectrum", rtol=1e-8, atol=1e-8 * np.mean(a.astype(float) ** 2))


@monitor("symmetry", quick=200, thorough=800, min_obs=50)
def symmetry(c):
    shape, box = shape_box(c)
    a = c.rng.normal(size=shape); nd = a.ndim
    k = R.kmag(shape, box)
    e = R.safe_edges(c.rng, k, c.int(2, 6))
    if e is None: raise Skip()
    c.note(shape=shape, box=box, a=a, e=e)
    p0, _, n0 = c.call(t2c.power_spectrum_1d, a, kbins=e, box_dims=box, return_n_modes=True)
    sh = tuple(c.int(0, n) for n in shape)
    p1 = c.call(t2c.power_spectrum_1d, np.roll(a, sh, tuple(range(nd))), kbins=e, box_dims=box)[0]
    c.close(p1, p0, "shift invariance", rtol=1e-8)
    perm = tuple(c.rng.permutation(nd))
    b = R.dims(box, nd)
    p2, _, n2 = c.call(t2c.power_spectrum_1d, np.ascontiguousarray(a.transpose(perm)), kbins=e, box_dims=[b[q] for q in perm], return_n_modes=True)
    c.close(p2, p0, "axis permutation", rtol=1e-8); c.equal(n2, n0, "mode counts under axis permutation")
    f = c.pick([-1., 2.5, 1e-3])
    c.close(c.call(t2c.power_spectrum_1d, a * f, kbins=e, box_dims=box)[0], p0 * f * f, "amplitude scaling", rtol=1e-8)
    c.close(c.call(t2c.cross_power_spectrum_1d, a, a, kbins=e, box_dims=box)[0], p0, "cross(a,a) = auto(a)", rtol=1e-8)
    s = c.pick([.5, 3.])
    c.close(c.call(t2c.power_spectrum_1d, a, kbins=e / s, box_dims=[x * s for x in b])[0], p0 * s ** nd, "box scaling", rtol=1e-8)
    g = c.rng.normal(size=shape)
    c.close(c.call(t2c.cross_power_spectrum_1d, a, g, kbins=e, box_dims=box)[0],
            c.call(t2c.cross_power_spectrum_1d, g, a, kbins=e, box_dims=box)[0], "cross is symmetric", rtol=1e-8)
    both = c.call(t2c.power_spectrum_1d, a + g, kbins=e, box_dims=box)[0]
    parts = p0 + c.call(t2c.power_spectrum_1d, g, kbins=e, box_dims=box)[0] + 2 * c.call(t2c.cross_power_spectrum_1d, a, g, kbins=e, box_dims=box)[0]
    c.close(both, parts, "P(a+b) = P(a)+P(b)+2P(a,b)", rtol=1e-8)


@monitor("default_box", quick=50, thorough=60, min_obs=5)
def default_box(c):
    """Without box_dims the configured simulation box is used."""
    from tools21cm import conv
    old = conv.LB, conv.__dict__.get("boxsize")
    shape = (c.int(4, 10),) * 3
    a = c.rng.normal(size=shape); LB = c.uni(10, 700)
    c.note(LB=LB, a=a)
    keep = conv.LB
    try:
        conv.LB = LB
        got = c.call(t2c.power_spectrum_1d, a, kbins=6)
        want = c.call(t2c.power_spectrum_1d, a, kbins=6, box_dims=LB)
        c.close(got[0], want[0], "default box", rtol=1e-10); c.close(got[1], want[1], "default box k", rtol=1e-10)
        got = c.call(t2c.cross_power_spectrum_1d, a, a, kbins=6)
        c.close(got[0], want[0], "default box, cross", rtol=1e-10)
    finally:
        conv.LB = keep


@monitor("window", quick=200, thorough=600, min_obs=20)
def window(c):
    from scipy.signal import windows
    shape, box = shape_box(c, 3)
    a = c.rng.normal(size=shape)
    w = c.pick(["blackmanharris", "tukey", "array"])
    if w == "array": warr = c.rng.random(shape); arg = warr
    else:
        warr = getattr(windows, w)(shape[-1])[None, None, :]; arg = w
    k = R.kmag(shape, box); e = R.safe_edges(c.rng, k, c.int(1, 6))
    if e is None: raise Skip()
    c.note(shape=shape, box=box, a=a, w=w)
    got = c.call(t2c.power_spectrum_1d, a.copy(), kbins=e, box_dims=box, window=arg)[0]
    want = R.binned_mean(k, R.power(a * warr, a * warr, box), e)[0]
    c.close(got, want, "windowed spectrum", rtol=1e-8)


@monitor("large", quick=12, thorough=80, min_obs=4)
def large(c):
    """Many modes per bin, long axes and big cubes: every mode still counts once, in double precision."""
    shape = c.pick([(c.int(64, 90),) * 3, (64, 64, 64), tuple(c.int(50, 80) for _ in range(3)), (c.int(2, 4), c.int(2, 5), c.int(120, 700)),
                    (c.int(120, 700), c.int(2, 4), c.int(2, 5)), (c.int(300, 600), c.int(2, 600)), (c.int(20000, 80000),)])
    box = [c.logu(20, 500) for _ in shape]
    a = c.rng.normal(size=shape); b = c.rng.normal(size=shape)
    k = R.kmag(shape, box); e = R.safe_edges(c.rng, k, c.int(1, 6))
    if e is None: raise Skip()
    c.note(shape=shape, box=box, a=a, edges=e)
    x = np.roll(a, 3, -1) if c.coin() else a
    P = R.power(a, a, box); m = P.copy(); m.flat[np.argmax(m)] = 0
    got = np.asarray(c.call(t2c.power_spectrum_nd, a, box_dims=box)); g = got.copy(); g.flat[np.argmax(P)] = 0
    c.close(g, m, "power of a large field", rtol=1e-9, atol=1e-9 * m.max())
    want, n = R.binned_mean(k, P, e)
    ps, kk, nm = c.call(t2c.power_spectrum_1d, a, kbins=e, box_dims=box, return_n_modes=True)
    c.equal(np.asarray(nm, float), n, "mode counts of a large field"); c.close(ps, want, "spectrum of a large field", rtol=1e-9)
    got, _, nm = c.call(t2c.cross_power_spectrum_1d, x, b, kbins=e, box_dims=box, return_n_modes=True)
    c.close(got, R.binned_mean(k, R.power(x, b, box), e)[0], "cross spectrum of a large field", atol=1e-9 * np.nanmax(want), rtol=1e-8)
    c.equal(np.asarray(nm, float), n, "mode counts of a large cross spectrum")


@monitor("dimensionless", quick=150, thorough=500, min_obs=15)
def dimensionless(c):
    n = c.int(8, 14); shape = (n, n, n) if c.coin() else (n, n + 1, n + 2)
    box = c.logu(10, 500)
    a = c.rng.normal(size=shape)
    kb = c.int(4, 7); fac = c.int(1, 2); binning = c.pick(["log", "linear"])
    c.note(shape=shape, box=box, a=a, kb=kb, fac=fac, binning=binning)
    got, kn = c.call(t2c.dimensionless_ps, a, kbins=kb, box_dims=box, binning=binning, factor=fac)
    e = R.edges(kb * fac, shape, box, binning); k = R.kmag(shape, box)
    amb = R.near_edge(k, e)
    P, cnt = R.binned_mean(k, R.power(a, a, box), e)
    ks = .5 * (e[1:] + e[:-1]); D = P * ks ** 3 / 2 / np.pi ** 2
    if len(ks) < 3: raise Skip()
    want_k = 10 ** np.linspace(np.log10(ks[1]), np.log10(ks[-1]), kb) if binning == "log" else np.linspace(ks[1], ks[-1], kb)
    c.close(kn, want_k, "k of the dimensionless spectrum", rtol=1e-9)
    j = np.clip(np.searchsorted(ks, want_k) - 1, 0, len(ks) - 2)
    good = ~(amb[j] | amb[j + 1]) & np.isfinite(D[j]) & np.isfinite(D[j + 1])
    good[-1] = False                      # rounding of the last abscissa may fall on either side
    for x in np.flatnonzero(np.abs(want_k[:, None] - ks[None]).min(1) < 1e-9 * ks[-1]):   # on a sample: either of its intervals may be used
        q = int(np.abs(ks - want_k[x]).argmin()); w = slice(max(q - 1, 0), q + 2); good[x] &= bool(np.isfinite(D[w]).all() and not amb[w].any())
    t = (want_k - ks[j]) / (ks[j + 1] - ks[j])
    want = D[j] * (1 - t) + D[j + 1] * t
    if not good.any(): raise Skip()
    c.close(got[good], want[good], "dimensionless power", rtol=1e-7)


@monitor("radial_average", quick=150, thorough=500, min_obs=15)
def radial(c):
    shape, box = shape_box(c)
    box = R.dims(box, len(shape))
    a = c.rng.normal(size=shape)
    kb, binning = _bins(c, shape, box)
    c.note(shape=shape, box=box, a=a, kb=kb, binning=binning)
    e = R.edges(kb, shape, box, binning)
    if len(e) < 2: raise Skip()
    d, kc, n = c.call(t2c.radial_average, a, box, kbins=kb, binning=binning)
    k = R.kmag(shape, box); amb = R.near_edge(k, e)
    w, wn = R.binned_mean(k, a, e)
    c.close(kc, .5 * (e[1:] + e[:-1]), "bin centres", rtol=1e-10)
    c.equal(np.where(amb, 0, n), np.where(amb, 0, wn), "mode counts")
    R.check_edge_bins(c, d, n, k, a, e, np.abs(a).max(), "radial average")
    c.close(np.where(amb, 0, d), np.where(amb, 0, w), "radial average", atol=1e-9 * np.abs(a).max())
    comps, kk = c.call(PS.get_k, a, box)
    c.close(kk, k, "k grid", rtol=1e-10)
    for g, w_ in zip(comps, R.kcomp(shape, box)):
        c.close(g, w_, "k components", rtol=1e-10)
