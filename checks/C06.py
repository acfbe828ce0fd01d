"""C06: coordinate conversion vs an independent slice-by-slice resampler using the reference cosmology."""
import numpy as np
from scipy import ndimage
from vh import monitor, Skip
import tools21cm as t2c
from tools21cm import const, conv
from tools21cm import angular_coordinates as A
import cosmoref as K


def cmp(c, got, ref, what, rtol):
    c.equal(got.shape, ref.shape, what + ": shape")
    m = ~np.isnan(ref); c.true(not np.isnan(got).any(), what + ": NaN")
    c.close(got[m], ref[m], what, rtol=rtol)


def ifloor(x):
    """int(x) where x is far enough from an integer for rounding not to matter."""
    if abs(x - round(x)) < 1e-4 * max(1, abs(x)): raise Skip()
    return int(x)


def resample(a, n, order, prefilter=True):
    N = a.shape[0]; w = max(int(np.round(N / n)), 1) if prefilter else 1
    k = np.zeros(N); k[max(int(N / 2 - np.floor(w / 2)), 0):int(N / 2 + np.ceil(w / 2))] = 1; k /= k.sum()
    for ax in (0, 1):
        a = sum(k[j] * np.roll(a, j - N // 2, ax) for j in np.flatnonzero(k))
    q = np.linspace(0, N - 1, n)
    if order == 0:
        i = np.floor(q + .5).astype(int); r = a[np.ix_(i, i)]
        t = np.abs(q % 1 - .5) < 1e-6; r[t] = np.nan; r[:, t] = np.nan  # half-way points: either neighbour
        return r
    if order == 1:
        for ax in (0, 1):
            i = np.minimum(np.floor(q).astype(int), N - 2); t = (q - i).reshape((-1, 1) if ax == 0 else (1, -1))
            a = np.take(a, i, ax) * (1 - t) + np.take(a, i + 1, ax) * t
        return a
    return ndimage.map_coordinates(a, np.array(np.meshgrid(q, q, indexing="ij")), mode="wrap", order=order)


def p2a(a, z, size, fov, dth, order, om, h):
    D = K.cdist(z, om, h)[0]
    n = ifloor(np.degrees(size / D) * 60 / dth)
    if n % 2 == 0: n -= 1
    r = resample(a, n, order); N = max(int(fov * 60 / dth), n)
    i = np.arange(N) % n; return r[np.ix_(i, i)]   # repeated periodically out to the field of view


def a2p(a, z, deg, cell, size, order, om, h, prefilter=True, ncut=None):
    n = ifloor(np.radians(deg) * K.cdist(z, om, h)[0] / cell)
    if n % 2 == 0: n += 1
    m = min(ifloor(size / cell) if ncut is None else ncut, a.shape[0])
    return resample(a, n, order, prefilter)[:m, :m]


def win(a, w):
    """Mean over the w slices centred on each slice (those that exist)."""
    n = a.shape[2]; out = np.zeros(a.shape)
    for i in range(n):
        lo, hi = i + (w - 1) // 2 - w + 1, i + (w - 1) // 2
        out[..., i] = a[..., max(lo, 0):min(hi, n - 1) + 1].mean(-1)
    return out


def fbin(lc, zl, box, dnu, om, h):
    """Returns binned cube, frequencies, mask of channels whose slice index is unambiguous."""
    cell = box / lc.shape[0]; d = K.cdist(zl, om, h)[0] + np.arange(lc.shape[2]) * cell
    nu = const.nu0 / (1 + K.zof(d, om, h)); fr = nu[0] - dnu * np.arange(int(np.ceil((nu[0] - nu[-1]) / dnu)))
    ifloor((nu[0] - nu[-1]) / dnu)
    if len(fr) < 2: raise Skip()
    dd = K.cdist(const.nu0 / fr - 1, om, h)
    w = (dd[-1] - dd[-2]) / cell
    if abs(w % 1 - .5) < 1e-3: raise Skip()
    sm = win(lc, max(int(np.round(w)), 1))
    x = np.interp(-fr, -nu, np.arange(len(nu))); i = np.floor(x).astype(int)
    i[0] = 0; sure = (np.minimum(x % 1, 1 - x % 1) > 5e-3) | (np.arange(len(fr)) == 0)
    return sm[..., i], fr, sure


@monitor("slices", quick=1600, thorough=6000, min_obs=350)
def slices(c):
    om, h = K.random_cosmology(c, t2c)
    n = c.size(3, 16, 80); a = c.rng.normal(size=(n, n)) + c.pick([0, 5]); z = c.uni(5.5, 15); size = c.logu(50, 800); order = c.pick([0, 0, 1, 1, 2, 3])
    D = K.cdist(z, om, h)[0]; deg = np.degrees(size / D)
    if c.coin():
        dth = deg * 60 / c.uni(1.6, 2 * n + 4); fov = deg * c.pick([c.uni(1., 1.6), c.uni(1.6, 5), c.uni(.7, 1)])
        c.note(n=n, z=z, size=size, order=order, dth=dth, fov=fov, om=om, h=h)
        ifloor(fov * 60 / dth)
        got = c.call(A.physical_slice_to_angular, a, z, size, fov, dth, order); ref = p2a(a, z, size, fov, dth, order, om, h)
    else:
        cell = size / c.uni(1.6, n * 1.2 + 1); out = size * c.uni(.4, 1.); pf = c.coin(.7)
        c.note(n=n, z=z, deg=deg, order=order, cell=cell, out=out, pf=pf, om=om, h=h)
        got = c.call(A.angular_slice_to_physical, a, z, deg, cell, out, order, pf); ref = a2p(a, z, deg, cell, out, order, om, h, pf)
    cmp(c, got, ref, "resampled slice", 1e-9)
    m = c.int(1, 2 * n); r = c.call(A.resample_slice, a, m, order)
    cmp(c, r, resample(a, m, order), f"slice resampled to {m} cells", 1e-9)
    K.reset()


def lightcone(c, om, h, nmin=3):
    n = c.size(nmin, 9, 36); box = c.logu(60, 500); zl = c.uni(5.5, 11) if c.coin(.8) else c.uni(.1, 4); cell = box / n
    d0 = K.cdist(zl, om, h)[0]; m = max(3, min(c.int(8, 50), int((K.cdist(25., om, h)[0] - d0) / cell)))
    z = K.zof(d0 + np.arange(m) * cell, om, h)
    lc = c.rng.normal(size=(n, n, m)) + c.pick([0, 4]); nu = const.nu0 / (1 + z)
    return n, m, box, cell, z, lc, nu, np.full((n, n, m), 1.75)


@monitor("frequency_bins", quick=800, thorough=3000, min_obs=250)
def frequency_bins(c):
    om, h = K.random_cosmology(c, t2c)
    n, m, box, cell, z, lc, nu, uni = lightcone(c, om, h)
    dnu = (nu[0] - nu[-1]) / c.uni(2.1, 1.5 * m)
    c.note(n=n, m=m, box=box, zl=z[0], dnu=dnu, om=om, h=h)
    ref, fr, sure = fbin(lc, z[0], box, dnu, om, h)
    got, f = c.call(A.bin_lightcone_in_frequency, lc, z[0], box, dnu)
    c.close(f, fr, "channel frequencies", rtol=1e-6)
    c.close(got[..., sure], ref[..., sure], "channel averages", rtol=1e-9)
    c.close(c.call(A.bin_lightcone_in_frequency, uni, z[0], box, dnu)[0], np.full(got.shape, 1.75), "uniform light-cone in frequency", rtol=1e-9)
    # and the other way
    fr = np.sort(c.rng.uniform(nu[-1], nu[0], c.int(4, 30)))[::-1] if c.coin(.3) else np.linspace(nu[0], nu[-1], c.int(4, 40))
    lc = c.rng.normal(size=(2, 3, len(fr))); d = K.cdist(const.nu0 / fr - 1, om, h); L = d[-1] - d[0]
    out_cell = L / c.uni(1.5, 1.4 * len(fr)); k = ifloor(L / out_cell) + 1; w = len(fr) / (L / out_cell)
    if abs(w % 1 - .5) < 1e-6: raise Skip()
    dd = d[0] + out_cell * np.arange(k); x = np.interp(dd, d, np.arange(len(d))); i = np.floor(x).astype(int); i[0] = 0
    sure = (np.minimum(x % 1, 1 - x % 1) > 1e-3) | (np.arange(k) == 0)
    got, zz = c.call(A.bin_lightcone_in_mpc, lc, fr, out_cell)
    c.close(np.atleast_1d(zz), K.zof(dd, om, h), "redshifts of the Mpc slices", rtol=1e-4)
    c.close(got[..., sure], win(lc, max(int(np.round(w)), 1))[..., i][..., sure], "Mpc slice averages", rtol=1e-9)
    K.reset()


@monitor("to_observational", quick=500, thorough=2000, min_obs=200)
def to_observational(c):
    om, h = K.random_cosmology(c, t2c)
    n, m, box, cell, z, lc, nu, uni = lightcone(c, om, h)
    if c.coin(.2):
        if n ** 0 and c.coin(): t2c.set_sim_constants(c.pick([37, 64, 114, 244, 425]))
        box = conv.LB; cell = box / n; d0 = K.cdist(z[0], om, h)[0]; m = min(m, max(3, int((K.cdist(25., om, h)[0] - d0) / cell)))
        lc, uni = lc[..., :m], uni[..., :m]; z = K.zof(d0 + np.arange(m) * cell, om, h); nu = const.nu0 / (1 + z); kw = {}
    else: kw = dict(input_box_size_mpc=box)
    dnu = (nu[0] - nu[-1]) / c.uni(2.1, 1.2 * m)
    fov_lo, fov_hi = (np.degrees(box / K.cdist(v, om, h)[0]) for v in (z[0], z[-1]))
    nth = c.uni(6, 2 * n + 6); dth = fov_lo * 60 / nth
    if int(fov_hi * 60 / dth) < nth / 2 + 2: raise Skip()
    mode = c.pick(["pad", "crop", "full", "extend", "valid", "PAD", "Crop", None]); order = c.pick([None, 0, 1, 2, 3])
    if mode: kw["mode"] = mode
    if order is not None: kw["order"] = order
    zarg = c.pick([z[0], float(z[0]), np.array(z), list(z), np.array([z[0]])])
    if c.coin(.1): zarg = z[::-1].copy()
    c.note(n=n, m=m, box=box, z0=z[0], dnu=dnu, dth=dth, mode=mode, order=order, ztype=type(zarg).__name__, om=om, h=h)
    ref, fr, sure = fbin(lc, z[0], box, dnu, om, h)
    N = ifloor(nth)
    out = np.stack([p2a(ref[..., i], const.nu0 / f - 1, box, fov_lo, dth, 2 if order is None else order, om, h) for i, f in enumerate(fr)], -1)
    if mode and mode.lower() in ("crop", "valid"):
        M = ifloor(fov_hi * 60 / dth); sl = slice((N - M) // 2, (N + M) // 2); out = out[sl, sl]
    got, f = c.call(t2c.physical_lightcone_to_observational, lc, zarg, dnu, dth, verbose=False, **kw)
    c.close(f, fr, "output frequencies", rtol=1e-6)
    c.equal(got.shape, out.shape, "output grid")
    cmp(c, got[..., sure], out[..., sure], f"observational light-cone (mode {mode}, order {order})", 1e-7)
    u = c.call(t2c.physical_lightcone_to_observational, uni, zarg, dnu, dth, verbose=False, **kw)[0]
    c.close(u, np.full(u.shape, 1.75), "uniform light-cone stays uniform", rtol=1e-9)
    K.reset()


@monitor("to_physical", quick=600, thorough=2000, min_obs=200)
def to_physical(c):
    om, h = K.random_cosmology(c, t2c)
    n = c.size(4, 12, 48); z0, z1 = c.uni(5.5, 9), c.uni(9.5, 14); m = c.int(6, 40); fr = np.linspace(const.nu0 / (1 + z0), const.nu0 / (1 + z1), m)
    d = K.cdist(const.nu0 / fr - 1, om, h); par = d[-1] - d[-2]
    dth = np.degrees(par * c.logu(.3, 3) / d[0]) * 60; order = c.pick([None, 0, 1, 2])
    lc = c.rng.normal(size=(n, n, m)) + c.pick([0, 3]); kw = {} if order is None else dict(order=order)
    perp = np.radians(dth / 60) * d[0]; cell = max(par, perp); fov = perp * n
    if d[-1] - d[0] < 2 * cell or fov < 1.5 * cell: raise Skip()
    ncut = n if cell == perp else ifloor(fov / cell)
    c.note(n=n, m=m, z0=z0, z1=z1, dth=dth, order=order, om=om, h=h)
    sl = np.stack([a2p(lc[..., i], const.nu0 / f - 1, n * dth / 60, cell, fov, 2 if order is None else order, om, h, ncut=ncut) for i, f in enumerate(fr)][1 if cell == perp else 0:], -1)
    if cell == perp: sl = np.concatenate([sl[..., :1] * np.nan, sl], -1)
    L = d[-1] - d[0]; k = ifloor(L / cell) + 1; w = max(int(np.round(m / (L / cell))), 1); dd = d[0] + cell * np.arange(k)
    x = np.interp(dd, d, np.arange(m)); i = np.floor(x).astype(int); i[0] = 0; sure = (np.minimum(x % 1, 1 - x % 1) > 5e-3) | (np.arange(k) == 0)
    got, zz, cc = c.call(t2c.observational_lightcone_to_physical, lc, fr, dth, verbose=False, **kw)
    c.close(cc, cell, "output cell size", rtol=1e-5)
    zr = K.zof(dd, om, h); c.close(np.atleast_1d(zz), zr, "redshifts of the output", rtol=1e-4)
    c.equal(got.shape[2], k, "one slice per redshift"); c.equal(got.shape[0], got.shape[1], "square slices")
    ref = win(sl, w)[..., i]; sure &= ~np.isnan(ref).all((0, 1))
    q = min(got.shape[0], ref.shape[0])
    c.true(q >= ncut - 1 and got.shape[0] <= ncut, f"field of view {got.shape[0]} cells, expected {ncut}")
    cmp(c, got[:q, :q][..., sure], ref[:q, :q][..., sure], "physical light-cone", 1e-7)
    u = c.call(t2c.observational_lightcone_to_physical, np.full((n, n, m), 1.75), fr, dth, verbose=False, **kw)[0]
    c.close(u, np.full(u.shape, 1.75), "uniform light-cone stays uniform", rtol=1e-9)
    K.reset()


@monitor("padding", quick=200, thorough=1000, min_obs=50)
def padding(c):
    n, m = c.size(3, 8, 40), c.size(3, 8, 40); lc = c.rng.normal(size=(n, m, c.int(1, 5))); p = c.int(0, 7); mode = c.pick(["wrap", "reflect", "constant", "edge", "symmetric"])
    kw = {}
    if c.coin(): kw["padded_n"] = p
    else: p = m // 2
    if mode != "wrap" or c.coin(): kw["mode"] = mode
    c.note(n=n, m=m, p=p, mode=mode)
    idx = []
    for N in (n, m):
        i = np.arange(-p, N + p)
        if mode == "wrap": i = i % N
        elif mode == "edge": i = np.clip(i, 0, N - 1)
        elif mode == "reflect": i = i % (2 * N - 2); i = np.where(i >= N, 2 * N - 2 - i, i)
        elif mode == "symmetric": i = i % (2 * N); i = np.where(i >= N, 2 * N - 1 - i, i)
        idx.append(i)
    if mode == "constant":
        ref = np.zeros((n + 2 * p, m + 2 * p, lc.shape[2])); ref[p:p + n, p:p + m] = lc
    else: ref = lc[idx[0]][:, idx[1]]
    c.equal(c.call(t2c.padding_lightcone, lc, verbose=False, **kw), ref, f"{mode} padding by {p}")
