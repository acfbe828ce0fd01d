"""C08: smoothing vs direct (loop) convolution with independently built kernels."""
import itertools
import numpy as np
from vh import monitor, Skip, quiet
import tools21cm as t2c
from tools21cm import const, conv
from tools21cm import smoothing as S
from tools21cm.fft_functions import fftconvolve
import cosmoref as K
from gens import field


def circ(a, k):
    """Direct periodic convolution, kernel centre at index n//2 of each axis."""
    out = np.zeros(a.shape, np.result_type(a, k, float))
    for y in itertools.product(*[range(n) for n in k.shape]):
        w = k[y]
        if w != 0: out += w * np.roll(a, [i - n // 2 for i, n in zip(y, k.shape)], range(a.ndim))
    return out


def ftol(a):
    return 1e-6 if a.dtype == np.float32 else 1e-9


def gk(n, sigma, dim):
    x = [np.arange(n) - n // 2] * dim
    g = np.exp(-sum(v.astype(float) ** 2 for v in np.meshgrid(*x, indexing="ij")) / (2 * sigma ** 2))
    return g / g.sum()


def tk(n, w):
    """1D tophat, width in cells as the docs say (fractional widths cover floor/ceil halves)."""
    lo = max(int(n / 2 - np.floor(w / 2)), 0); hi = int(n / 2 + np.ceil(w / 2))
    k = np.zeros(n); k[lo:hi] = 1
    return k / k.sum()


@monitor("kernels", quick=600, thorough=3000, min_obs=150)
def kernels(c):
    n = c.int(1, 15); dim = c.pick([2, 3]); s = c.logu(.2, 6); w = c.int(1, n + (4 if c.coin(.3) else 0)); c.note(n=n, dim=dim, s=s, w=w)
    f = t2c.gauss_kernel if dim == 2 else c.pick([t2c.gauss_kernel_3d, t2c.smoothing.gauss_kernel_3d])
    g = c.call(f, n, sigma=s) if c.coin() else c.call(f, n, sigma=99., fwhm=s * 2 * np.sqrt(2 * np.log(2)))
    c.close(g, gk(n, s, dim), "gaussian kernel", rtol=1e-10)
    if dim == 2: k = c.call(t2c.tophat_kernel, n, w)
    else: k = c.call(t2c.tophat_kernel_3d, n, w)
    c.close(k.sum(), 1., "tophat sums to one", rtol=1e-10)
    nz = k > 0
    for ax in range(dim):
        line = nz.any(axis=tuple(a for a in range(dim) if a != ax)); i = np.flatnonzero(line)
        if w <= n:
            c.equal(len(i), w, f"tophat covers {w} cells along axis {ax}")
            c.true(abs(i.mean() - (n // 2 if w % 2 else n // 2 - .5)) < .1, f"tophat centred along axis {ax}: {i}")
        else: c.equal(len(i), n, "tophat wider than the array covers it")
    c.equal(int(nz.sum()), min(w, n) ** dim, "tophat is a full square/cube")
    c.true(np.ptp(k[nz]) < 1e-12, "tophat is flat")
    r = c.call(t2c.tophat_kernel_3d, n, w, shape="sphere")
    x = np.meshgrid(*[np.arange(n) - n // 2] * 3, indexing="ij"); ins = sum(v ** 2 for v in x) <= (w / 2) ** 2 + 1e-9
    c.close(r, ins / ins.sum(), "spherical tophat", rtol=1e-10)
    N = [max(1, n + c.int(-3, 4)) for _ in range(3)]; q = c.call(t2c.tophat_kernel_3d, c.pick([list, tuple, np.array])(N), w); e = 1.
    for m, o in zip(N, [(-1, 1, 1), (1, -1, 1), (1, 1, -1)]): e = e * tk(m, w).reshape(o)
    c.close(q, e, "tophat of unequal sides", rtol=1e-10); q = c.call(t2c.tophat_kernel_3d, N, w, shape="sphere")
    x = np.meshgrid(*[np.arange(m) - m // 2 for m in N], indexing="ij"); ins = sum(v ** 2 for v in x) <= (w / 2) ** 2 + 1e-9; c.close(q, ins / ins.sum(), "spherical tophat in unequal sides", rtol=1e-10)
    if n > 1:
        l = c.call(t2c.smoothing.lanczos_kernel, n, c.uni(1, 4))
        c.close(l.sum(), 1., "lanczos sums to one", rtol=1e-9); c.close(l, l[::-1, ::-1], "lanczos symmetric", rtol=1e-9); c.close(l, l.T, "lanczos symmetric", rtol=1e-9)


@monitor("fftconvolve", quick=900, thorough=5000, min_obs=225)
def conv_direct(c):
    dim = c.pick([1, 2, 2, 3]); hi = {1: 14, 2: 9, 3: 6}[dim]
    s1 = [c.int(2, hi) for _ in range(dim)]
    boundary = c.pick(["circular", "circular", "constant", "reflect", "nearest", "mirror", "wrap"])
    mode = c.pick(["same", "same", "full", "valid"])
    s2 = [c.int(1, n) for n in s1]
    if boundary == "constant" and mode != "valid" and c.coin(.3): s2 = [c.int(1, hi) for _ in s1]
    a = c.rng.normal(size=s1); k = c.rng.normal(size=s2)
    if c.coin(.15): k = k + 1j * c.rng.normal(size=s2)
    elif c.coin(.2): a = np.round(a * 5).astype(int)
    kw = dict(boundary=boundary, mode=mode)
    if mode == "same" and c.coin(): del kw["mode"]
    if boundary == "circular" and mode == "same" and c.coin(): del kw["boundary"]
    c.note(s1=s1, s2=s2, boundary=boundary, mode=mode, a=a, k=k)
    got = c.call(fftconvolve, a, k, **kw)
    if mode == "valid": boundary = "constant"
    if boundary == "circular" and "boundary" not in kw or kw.get("boundary") == "circular" and mode != "valid":
        c.close(got, circ(a, k), f"circular convolution {s1}*{s2}", rtol=1e-9)
        bad = c.pick([dict(mode="sane"), dict(boundary="periodic")]); c.raises(fftconvolve, a, k, **bad, what=str(bad))
        return
    P = [n + 2 for n in s2]
    np_mode = dict(constant="constant", reflect="reflect", mirror="symmetric", nearest="edge", wrap="wrap")[boundary]
    e = np.pad(a, [(p, p) for p in P], mode=np_mode)
    out = [n + m - 1 for n, m in zip(s1, s2)] if mode == "full" else list(s1) if mode == "same" else [n - m + 1 for n, m in zip(s1, s2)]
    off = [0] * dim if mode == "full" else [m // 2 for m in s2] if mode == "same" else [m - 1 for m in s2]
    ref = np.zeros(out, np.result_type(e, k, float))
    for y in itertools.product(*[range(m) for m in s2]):
        ref = ref + k[y] * e[tuple(slice(o + p - i, o + p - i + n) for o, p, i, n in zip(off, P, y, out))]
    c.close(got, ref, f"{boundary}/{mode} convolution {s1}*{s2}", rtol=1e-9)


@monitor("smooth2d", quick=600, thorough=3000, min_obs=150)
def smooth2d(c):
    n = c.size(2, 11, 50); shp = (n, n) if c.coin(.6) else c.pick([(n, n + c.int(1, 9)), (n + c.int(1, 9), n)]); sq = shp[0] == shp[1]
    a, kind = field(c, shp); w = c.int(1, n + 2) if c.coin() else c.uni(.5, n); s = c.logu(.3, 5)
    if not sq: w = min(w, n - 1) if n > 2 else 1; s = min(s, n / 16)  # the kernel's extent beyond the shorter side is not documented
    c.note(shp=shp, kind=kind, w=w, s=s, a=a)
    which = c.pick(["gauss", "fwhm", "tophat", "lanczos", "kernel"])
    if which == "gauss": f, k = (lambda x: c.call(t2c.smooth_gauss, x, sigma=s)), gk(n, s, 2)
    elif which == "fwhm": f, k = (lambda x: c.call(t2c.smooth_gauss, x, fwhm=s)), gk(n, s / 2.3548200450309493, 2)
    elif which == "tophat": f, k = (lambda x: c.call(t2c.smooth_tophat, x, w)), np.outer(tk(n, w), tk(n, w))
    elif which == "lanczos": k = t2c.smoothing.lanczos_kernel(n, 2 + s); f = lambda x: c.call(t2c.smoothing.smooth_lanczos, x, 2 + s)
    else: k = c.rng.random((n, n)); k /= k.sum(); f = lambda x: c.call(t2c.smooth_with_kernel, x, k)
    if which == "fwhm" and not sq: s = s * 2; k = gk(n, s / 2.3548200450309493, 2)
    af = a.astype(float); scale = (np.abs(af).max() + 1e-12) * (500 if a.dtype.itemsize <= 4 and a.dtype.kind == "f" else 1)
    out = f(a); c.equal(np.shape(out), shp, "the shape of the field")
    if sq or which != "lanczos": c.close(out, circ(af, k), f"{which} smoothing is convolution with its kernel", rtol=0, atol=1e-9 * scale)
    c.close(out.mean(), af.mean(), f"{which} smoothing preserves the mean", rtol=1e-9, atol=1e-9 * scale)
    sh = (c.int(0, shp[0]), c.int(0, shp[1]))
    c.close(f(np.roll(a, sh, (0, 1))), np.roll(out, sh, (0, 1)), f"{which} smoothing commutes with cyclic shifts", rtol=0, atol=1e-9 * scale)
    c.close(f(np.full(shp, 3.7)), np.full(shp, 3.7), f"{which} smoothing leaves constants", rtol=1e-9)


def g_slices(a, fw, ax):
    out = np.zeros(a.shape); a = a.astype(float)
    for i in range(a.shape[ax]):
        sl = [slice(None)] * 3; sl[ax] = i
        x = a[tuple(sl)]; k = gk(x.shape[0], fw[i] / (2 * np.sqrt(2 * np.log(2))), 2)
        out[tuple(sl)] = np.real(np.fft.ifft2(np.fft.fft2(x) * np.fft.fft2(np.fft.ifftshift(k) if x.shape[0] % 2 == 0 else np.roll(k, (-(x.shape[0] // 2),) * 2, (0, 1)))))
    return out


def t_axis(a, w, ax):
    n = a.shape[ax]; k = tk(n, w); out = np.zeros(a.shape)
    for j in np.flatnonzero(k): out += k[j] * np.roll(a.astype(float), j - n // 2, ax)
    return out


@monitor("coeval", quick=450, thorough=2500, min_obs=112)
def coeval(c):
    om, h = K.random_cosmology(c, t2c)
    n = c.size(4, 10, 40); m = c.size(4, 10, 40); ax = c.int(0, 2)
    sh = [n, n, n]
    if ax: sh[ax] = m
    a, kind = field(c, tuple(sh)); z = c.uni(5.5, 20); box = c.uni(50, 600); bl = c.logu(.4, 6); ratio = c.pick([1., 1., .5, 2.])
    kw = {}
    if ax != 2 or c.coin(): kw["nu_axis"] = ax
    if ratio != 1: kw["ratio"] = ratio
    if c.coin(): kw["max_baseline"] = bl
    else: bl = 2.
    c.note(sh=sh, ax=ax, z=z, box=box, bl=bl, ratio=ratio, om=om, h=h)
    import astropy.units as u
    if "max_baseline" in kw and c.coin(.3): kw["max_baseline"] = (bl * 1000) * u.m
    if c.coin(.8): kw["box_size_mpc"] = box
    else: box = conv.LB
    out = c.call(t2c.smooth_coeval, a, z, verbose=False, **kw)
    w = (1 + z) * 21e-5 / bl * K.cdist(z, om, h)[0] * n / box
    x = w * ratio
    if min(abs(x / 2 - round(x / 2)), 1) < 1e-6: raise Skip()
    c.close(out, g_slices(t_axis(a, x, ax), np.full(sh[ax], w), ax), f"coeval smoothing along axis {ax}", rtol=0, atol=2e-6 * (np.abs(a.astype(float)).max() + 1e-12))
    wi = c.int(1, 5)
    c.close(c.call(t2c.smooth_coeval_tophat, a, wi, ax, verbose=False), t_axis(a, wi, ax), "tophat acts on the frequency axis only", rtol=0, atol=ftol(a) * (np.abs(a.astype(float)).max() + 1e-12))
    rs = [n, n, n]; o = [i for i in range(3) if i != ax]; rs[o[0]] += c.int(0, 5); rs[o[1]] += c.int(0, 5); sg = min(w, 2.35 * n / 16)
    b = c.rng.normal(size=rs); got = c.call(t2c.smooth_coeval_gauss, b, sg, ax); i = c.int(0, rs[ax] - 1)
    c.equal(got.shape, b.shape, "a box with unequal sky axes keeps its shape"); c.close(np.take(got, i, ax), circ(np.take(b, i, ax), gk(n, sg / (2 * np.sqrt(2 * np.log(2))), 2)), "gaussian on unequal sky axes", rtol=0, atol=1e-9 * np.abs(b).max())
    c.close(c.call(t2c.smooth_coeval_gauss, a, w, ax), g_slices(a, np.full(sh[ax], w), ax), "gaussian acts on the sky axes only", rtol=0, atol=ftol(a) * (np.abs(a.astype(float)).max() + 1e-12))
    K.reset()


@monitor("lightcone", quick=360, thorough=2000, min_obs=90)
def lightcone(c):
    om, h = K.random_cosmology(c, t2c)
    n = c.int(30, 70) if c.i % 25 == 4 else c.int(4, 9); m = c.int(6, 30); box = c.uni(40, 400); zl = c.uni(6, 12); cell = box / n
    d0 = K.cdist(zl, om, h)[0]; m = max(2, min(m, int((K.cdist(25., om, h)[0] - d0) / cell))); z = K.zof(d0 + np.arange(m) * cell, om, h)
    a = c.rng.normal(size=(n, n, m)) + c.pick([0, 10]); bl = c.logu(.5, 4); ratio = c.pick([1., 1., .5, 3.])
    style = c.pick(["array", "array", "lowest", "decreasing"])
    kw = dict(box_size_mpc=box, max_baseline=bl, ratio=ratio, verbose=False)
    c.note(n=n, m=m, box=box, zl=zl, bl=bl, ratio=ratio, style=style, om=om, h=h)
    if style == "array": out, zo = c.call(t2c.smooth_lightcone, a, z, **kw)
    elif style == "lowest": out, zo = c.call(t2c.smooth_lightcone, a, c.pick([zl, np.array([zl])]), **kw)
    else:
        out, zo = c.call(t2c.smooth_lightcone, a[:, :, ::-1], z[::-1], **kw); out, zo = out[:, :, ::-1], zo[::-1]
    c.close(zo, z, "redshifts of the smoothed light-cone", rtol=1e-5)
    ares = (1 + zo) * 21e-5 / bl * K.cdist(zo, om, h)
    dz = ratio * ares / K.C * 100 * h * K.E(zo, om)
    st = np.zeros(a.shape); sure = np.ones(m, bool)
    for i in range(m):
        lo, hi = (np.interp(v, zo, np.arange(m)) for v in (zo[i] - dz[i] / 2, zo[i] + dz[i] / 2))
        sure[i] = all(min(v % 1, 1 - v % 1) > 1e-4 or v in (0, m - 1) for v in (lo, hi))
        j0, j1 = int(np.ceil(lo)), int(np.ceil(hi)); st[:, :, i] = a[:, :, j0:j1 + 1].mean(2)
    ref = g_slices(st, ares * n / box, 2)
    c.close(out[..., sure], ref[..., sure], f"light-cone smoothing ({style})", rtol=0, atol=1e-5 * np.abs(a).max())
    u = c.call(t2c.smooth_lightcone, np.full((n, n, m), 2.5), z, **kw)[0]
    c.close(u, np.full((n, n, m), 2.5), "uniform light-cone stays uniform", rtol=1e-8)
    K.reset()


@monitor("lines", quick=360, thorough=1500, min_obs=90)
def lines(c):
    y = c.rng.normal(size=c.size(12, 40, 2000)) + 3; w = c.int(1, 5)
    kind = c.pick(["tophat", "boxcar", "gaussian", "normal", "triangular", "hamming", "hanning", "custom", "customlist"])
    if kind == "hanning": w = c.int(3, 7)
    if kind in ("gaussian", "normal"): w = 1
    k = {"tophat": np.ones(w), "boxcar": np.ones(w), "triangular": w - np.abs(np.arange(-w + 1, w)), "hamming": .54 - .46 * np.cos(2 * np.pi * np.arange(w) / max(w - 1, 1)) if w > 1 else np.ones(1),
         "hanning": .5 - .5 * np.cos(2 * np.pi * np.arange(w) / max(w - 1, 1))}.get(kind)
    if kind in ("gaussian", "normal"): x = np.linspace(-3 * w, 3 * w, 6 * w + 1); k = np.exp(-x ** 2 / (2 * w ** 2))
    if kind.startswith("custom"): k = c.rng.random(c.int(1, 6)) + .1 if c.coin(.7) else c.rng.integers(1, 9, c.int(1, 6))
    c.note(y=y, kind=kind, w=w)
    if kind == "custom": out = c.call(t2c.smoothing.smooth_line, y, window=k * (c.uni(1, 5) if k.dtype.kind == "f" else 1))
    elif kind == "customlist": out = c.call(t2c.smoothing.smooth_line, list(y), window=k.tolist())
    else: out = c.call(t2c.smoothing.smooth_line, c.pick([y, list(y)]), window=w, kind=c.pick([kind, kind.upper()]))
    k = k / k.sum(); n, m = len(y), len(k); full = np.zeros(n + m - 1)
    for i in range(m): full[i:i + n] += k[i] * y
    st = (m - 1) // 2
    c.close(out, full[st:st + n], f"{kind} line smoothing", rtol=1e-9)
    z = c.uni(5, 20); b = c.logu(100, 1e4)
    bw = c.call(t2c.get_beam_w, b, z)
    c.close(bw, .2112 * (1 + z) / b * 180 * 60 / np.pi, "beam width in arcmin", rtol=2e-3, atol=0)


@monitor("beam", quick=180, thorough=1000, min_obs=45)
def beam(c):
    om, h = K.random_cosmology(c, t2c)
    n = c.size(4, 12, 60); a = c.rng.normal(size=(n, n)); z = c.uni(6, 14); fov = c.uni(100, 800)
    ang = np.degrees(fov / K.cdist(z, om, h)[0]) * 60
    kw = {}
    if c.coin(): kw["beam_w"] = bw = c.uni(.05, .5) * ang
    else: kw["max_baseline"] = b = c.uni(300, 4000); bw = 3e8 / (1.42e9 / (1 + z)) / b * 180 * 60 / np.pi
    c.note(n=n, z=z, fov=fov, kw=kw)
    out = c.call(t2c.beam_convolve, a, z, fov, **kw)
    k = gk(n, bw / ang / 2.3548200450309493 * n, 2)
    pad = np.pad(a, n); ref = np.zeros((n, n)); h0 = n // 2
    for i in range(n):
        for j in range(n): ref += k[i, j] * pad[n + h0 - i:2 * n + h0 - i, n + h0 - j:2 * n + h0 - j]
    c.close(out, ref, "beam convolution with empty surroundings", rtol=5e-4)
    c.raises(t2c.beam_convolve, a, z, fov, what="no beam given")
    K.reset()


@monitor("interp", quick=360, thorough=1500, min_obs=90)
def interp(c):
    d = c.pick([2, 3]); sh = [c.int(2, 7) for _ in range(d)]; a = c.rng.normal(size=sh)
    q = [np.sort(c.rng.uniform(0, n - 1, c.int(1, 6))) for n in sh]; order = c.pick([0, 1, 1])
    f = t2c.interpolate2d if d == 2 else t2c.interpolate3d
    c.note(sh=sh, order=order, q=q)
    got = c.call(f, a, *q, order=order)
    if order == 0:
        if any(np.any(np.abs(v % 1 - .5) < 1e-6) for v in q): raise Skip()
        ref = a[np.ix_(*[np.floor(v + .5).astype(int) for v in q])]
    else:
        ref = a
        for ax, v in enumerate(q):
            i = np.minimum(np.floor(v).astype(int), sh[ax] - 2); t = (v - i).reshape([-1 if b == ax else 1 for b in range(d)])
            ref = np.take(ref, i, ax) * (1 - t) + np.take(ref, i + 1, ax) * t
    c.close(got, ref, f"{d}D interpolation of order {order}", rtol=1e-9)
    i = [c.rng.integers(0, n, 3) for n in sh]
    c.close(c.call(f, a, *[v.astype(float) for v in i], order=order), a[np.ix_(*i)], "interpolation at the nodes", rtol=1e-9)
