"""C11: bubble-size statistics against exhaustive references (own flood fill, exact ray laws, direct ball averages)."""
import numpy as np
from itertools import product
from vh import monitor, Skip, quiet
from skimage import morphology
from gens import flood, binary, with_threshold
import tools21cm as t2c
from tools21cm import conv


def same_partition(c, lab, ref, what):
    lab = np.asarray(lab); c.true(lab.shape == ref.shape, what + ": shape")
    c.equal(lab > 0, ref > 0, what + ": labelled cells are the selected ones")
    pairs = set(zip(lab[ref > 0].tolist(), ref[ref > 0].tolist()))
    c.true(len(pairs) == len(set(p[0] for p in pairs)) == len(set(p[1] for p in pairs)) == ref.max(), what + ": labels are exactly the connected components")


@monitor("fof", quick=700, thorough=8000, min_obs=1250)
def fof(c):
    nd = c.pick([2, 3, 3, 3]); sh = tuple(c.size(1, 9, 28) for _ in range(nd)); k, m = binary(c, sh); f, xth, fk = with_threshold(c, m)
    conn = c.int(1, nd); c.note(sh=sh, k=k, fk=fk, xth=xth, conn=conn)
    ref, sizes = flood(m, conn)
    kw = dict(connectivity=conn) if conn > 1 or c.coin() else {}
    if xth != .5 or c.coin(): kw["xth"] = xth
    lab, sz = c.call(t2c.fof, f, **kw); sz = np.asarray(sz)
    same_partition(c, lab, ref, "fof")
    c.true(sz.sum() == m.sum(), f"sizes sum to {sz.sum()}, {m.sum()} cells selected")
    c.equal(np.sort(sz), np.sort(sizes), "component sizes")
    labs = [l for l in np.unique(lab) if l > 0]
    c.equal(sz, np.array([np.sum(lab == l) for l in labs], sz.dtype if len(sz) else int), "sizes listed in the order of the labels")
    if conn == 1:
        g = np.where(m, xth + c.uni(1e-6, 2), c.pick([xth, xth - 1.]))  # cells at the threshold are not above it
        l2, s2 = c.call(t2c.FoF_search, g, xth); same_partition(c, l2, ref, "FoF_search"); c.equal(np.sort(s2), np.sort(sizes), "FoF_search sizes")
        c.equal(np.asarray(s2), np.array([np.sum(l2 == l) for l in range(1, len(s2) + 1)], int), "FoF_search sizes in label order")


@monitor("percolation", quick=600, thorough=6000, min_obs=275)
def percolation(c):
    nd = c.pick([2, 3, 3]); sh = tuple(c.size(2, 8, 24) for _ in range(nd)); k, m = binary(c, sh); f, xth, fk = with_threshold(c, m)
    conn = c.int(1, nd); c.note(sh=sh, k=k, xth=xth, conn=conn)
    ref, sizes = flood(m, conn); ok = set()
    for ax in range(nd):
        a, b = np.take(ref, 0, ax), np.take(ref, -1, ax); ok |= set(a[(a == b) & (a > 0)].tolist())
    kw = dict(connectivity=conn) if conn > 1 or c.coin() else {}
    r = c.call(t2c.find_percolation_cluster, f, xth=xth, **kw)
    if ok: c.true(r == max(sizes[l - 1] for l in ok), f"percolating cluster of {max(sizes[l-1] for l in ok)} cells reported as {r}")
    else: c.true(r in (0, -1), f"no percolating cluster, but {r} reported")


@monitor("volumes", quick=400, thorough=4000, min_obs=750)
def volumes(c):
    n = c.size(1, 60, 5000); sizes = c.rng.integers(1, c.pick([5, 100, 10 ** 5]), n); c.note(n=n, mx=sizes.max())
    sz = c.pick([sizes, list(map(int, sizes)), sizes.astype(float)]); bins = c.pick([1, 5, 20, 100]); res = c.pick([1., .5, 2.7]); nf = c.pick([None, 1e-9])
    kw = {}
    if bins != 100 or c.coin(): kw["bins"] = bins
    if res != 1 or c.coin(): kw["resolution"] = res
    if nf: kw["null_factor"] = nf
    v, dv, r, dr = c.call(t2c.dist_from_volumes, sz, **kw)
    lv = np.log10(sizes.astype(float)); hv, ev = np.histogram(lv, bins); lr = np.log10((3 * sizes / 4 / np.pi) ** (1 / 3)); hr, er = np.histogram(lr, bins)
    c.close(v, 10 ** ev * res ** 3, "volumes", rtol=1e-10); c.close(r, 10 ** er * res, "radii", rtol=1e-10)
    pv = np.append(hv / n, 0); c.close(dv[pv > 0], pv[pv > 0], "volume distribution", rtol=1e-12)
    c.true(abs(dv[pv > 0].sum() - 1) < 1e-12, "volume distribution sums to one")
    c.true(np.all(dv[pv == 0] <= (nf or pv[pv > 0].min() / 1000) * (1 + 1e-9)), "empty bins carry only the null value")
    # edge rounding of the second histogram: only its totals and bulk
    pr = np.insert(hr / n, 0, 0); c.close(np.cumsum(dr[1:]), np.cumsum(pr[1:]), "radius distribution", rtol=1e-12)
    d = c.call(t2c.get_distribution, sizes, resolution=res, bins=bins, sizes=True)
    hl, el = np.histogram(np.log(sizes.astype(float)), bins)
    c.close(d[1], np.append(hl, 0) / n, "get_distribution: distribution", rtol=1e-12); c.close(d[2], np.exp(el) * res, "get_distribution: volumes", rtol=1e-10)
    box = c.pick([None, 37., 200.]); norm = c.pick(["box", "ionized"])
    if c.coin(.5): t2c.set_sim_constants(c.pick([37, 64, 244]))
    x, z, dm = c.call(t2c.plot_fof_sizes, sz, bins=bins, boxsize=box, normalize=norm)
    y = hv * 10 ** ev[:-1]; y = y / y.sum() if norm == "ionized" else y / (conv.LB if box is None else box) ** 3
    low = y[y > 0].min() / 10; y[y == 0] = low
    c.close(x, 10 ** ev, "sizes", rtol=1e-10); c.close(z, np.append(y, low), "size-weighted distribution", rtol=1e-9); c.close(dm, low, "lowest value", rtol=1e-9)
    t2c.set_sim_constants(244)


@monitor("labels", quick=100, thorough=1000, min_obs=100)
def labels(c):
    """get_distribution on a label map counts the cells of each label."""
    sh = tuple(c.int(3, 8) for _ in range(3)); _, m = binary(c, sh)
    if not m.any(): raise Skip
    lab, sizes = flood(m, 1); c.note(sh=sh, n=len(sizes)); b = c.int(1, 20)
    s, d, v = c.call(t2c.get_distribution, lab, bins=b); c.equal(s, np.array(sizes, float), "cells per label")
    h, e = np.histogram(np.log(np.array(sizes, float)), b); c.close(d, np.append(h, 0) / len(sizes), "distribution", rtol=1e-12); c.close(v, np.exp(e), "volumes", rtol=1e-10)


# ---------------------------------------------------------------- spherical averages
def ball(R):
    return morphology.ball(R).astype(bool)      # the digital ball of skimage is the definition


def average(f, k):
    m = k.shape[0]; r = np.zeros(f.shape)
    # convolution, mode 'same': out[x] = sum_j k[j] f[x + (m-1)//2 - j]
    o = (m - 1) // 2; p = np.pad(f.astype(float), ((m, m),) * 3)
    for j in zip(*np.nonzero(k)): r += p[tuple(slice(m + o - jj, m + o - jj + s) for jj, s in zip(j, f.shape))]
    return r / k.sum()


@monitor("spa", quick=120, thorough=1200, min_obs=60)
def spa(c):
    n = c.int(5, 11); sh = (n, n, n) if c.coin(.7) else (n, c.int(4, 11), c.int(4, 11)); k, m = binary(c, sh)
    f = m.astype(float) if c.coin() else np.clip(m * .8 + .25 * c.rng.random(sh), 0, 1)
    xth = c.pick([.9371, .9371, .5317, .317, .7013]); ns = c.pick([3, 5, 20]); b = c.pick(["log", "linear"]); up = c.coin(.3)
    box = c.pick([None, 50., 100]); fft = c.coin(.7); c.note(sh=sh, k=k, xth=xth, ns=ns, b=b, up=up, fft=fft)
    g, th = (-f, -xth) if up else (f, xth)
    Rs = np.linspace(1, n / 2, ns) if b == "linear" else np.exp(np.linspace(np.log(2), np.log(n / 2), ns))
    cnt = np.zeros(ns); best = np.full(sh, -1)
    for i, R in enumerate(Rs):
        a = average(g, ball(R))
        if np.abs(a - th).min() < 1e-9: raise Skip
        best[a >= th] = i
    for i in range(ns): cnt[i] = np.sum(best == i)
    if cnt.sum() == 0: raise Skip
    if c.coin(.5): t2c.set_sim_constants(c.pick([37, 64, 244]))
    kw = dict(boxsize=box) if box else {}
    if ns != 20 or c.coin(): kw["nscales"] = ns
    if b != "log": kw["binning"] = b
    if up: kw["upper_lim"] = True
    r, dn = c.call(t2c.spa, f, xth=xth, verbose=False, use_fftconvolve=fft, **kw)
    c.close(r, Rs * (box or conv.LB) / n, "radii", rtol=1e-9)
    # equal radii (n/2 == 2) share their cells
    if len(np.unique(np.round(Rs, 9))) == ns: c.close(dn, cnt / cnt.sum(), "fraction of cells per largest averaging radius", rtol=1e-9)
    c.true(abs(np.sum(dn) - 1) < 1e-9 or len(np.unique(np.round(Rs, 9))) < ns, "normalised")
    t2c.set_sim_constants(244)


# ---------------------------------------------------------------- mean free paths
DEG = np.arange(360)


def survive(m, pts, dirs, nmax, eps):
    """Number of whole unit steps each ray makes inside the region (interpolated mask > 1/2),
    nmax if it never leaves within nmax steps."""
    nd = m.ndim; p = pts.astype(float).copy(); out = np.full(len(p), nmax); alive = np.arange(len(p)); sh = np.array(m.shape)
    d = dirs.copy(); mf = m.astype(float)
    for s in range(nmax):
        p = p + d; inside = np.all((p >= 0) & (p <= sh - 1), 1); v = np.zeros(len(p)); q = p[inside]
        i0 = np.clip(np.floor(q).astype(int), 0, np.maximum(sh - 2, 0)); w = q - i0; val = np.zeros(len(q))
        for o in product((0, 1), repeat=nd):
            o = np.array(o); ww = np.prod(np.where(o, w, 1 - w), 1); ii = np.minimum(i0 + o, sh - 1); val += ww * mf[tuple(ii.T)]
        v[inside] = val; ok = v > .5 + eps; out[alive[~ok]] = s; p, d, alive = p[ok], d[ok], alive[ok]
        if not len(p): break
    return out


def law(m, pts, dirs, nmax):
    """Probability of each length; lower and upper estimate where the exit test ties."""
    P = [np.bincount(survive(m, pts, dirs, nmax, e), minlength=nmax + 1)[:nmax] / len(pts) for e in (-1e-9, 1e-9)]
    return np.array(P)


def law_check(c, got, m, pts, dirs, nmax, it, exact, what):
    P = law(m, pts, dirs, nmax); lo, hi = P.min(0), P.max(0); slack = 0 if exact else 6 * np.sqrt(hi * (1 - lo) / len(pts)) + 20 / len(pts)
    tie = np.abs(P[0] - P[1]).max(); lo, hi = lo - tie - slack, hi + tie + slack
    # Bernstein bound, false alarm < 1e-11 per bin
    s = np.sqrt(2 * 28 * np.maximum(hi, 0) / it) + 2 * 28 / (3 * it)
    bad = (got < lo - s) | (got > hi + s)
    c.true(not bad.any(), f"{what}: length {int(np.argmax(bad))} steps has frequency {got[np.argmax(bad)]:.4g}, law says {P.min(0)[np.argmax(bad)]:.4g}-{P.max(0)[np.argmax(bad)]:.4g} ({it} rays)")
    if exact: c.true(not np.any(got[P.max(0) == 0] > 0), f"{what}: a length no ray can have was reported")


def dirs3(th, ph): th, ph = np.radians(th), np.radians(ph); return np.stack([np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)], 1)


def dirs2(th): th = np.radians(th); return np.stack([np.sin(th), np.cos(th)], 1)


def mfp_field(c, nd):
    sh = tuple(c.int(4, 10) for _ in range(nd)) if c.coin(.4) else (c.int(4, 12),) * nd
    k, m = binary(c, sh)
    if c.i % 6 == 4:                    # few starting points, so that every one of them shows in the law: a block, and the last cell
        k = "block"; m = np.zeros(sh, bool); m[(-1,) * nd] = True
        if c.coin(): m[tuple(slice(a, a + 2) for a in (c.int(0, s - 3) for s in sh))] = True
        else: m[tuple(-1 - (i == c.int(0, nd - 1)) for i in range(nd))] = True; m[(0,) * nd] = True   # two cells that touch and one that does not
    f, xth, fk = with_threshold(c, m); up = c.coin(.3)
    return sh, k, m, (-f if up else f), (-xth if up else xth), up


@monitor("mfp", quick=60, thorough=600, min_obs=75)
def mfp(c):
    nd = c.pick([2, 3]); sh, k, m, f, xth, up = mfp_field(c, nd); it = 20000 if m.sum() > 9 else 150000; box = c.pick([None, 100., 37])
    c.note(sh=sh, k=k, xth=xth, up=up, box=box); quiet(np.random.seed, c.int(0, 2 ** 31))
    kw = dict(xth=xth, iterations=c.pick([it, float(it)]), verbose=False)
    if up: kw["upper_lim"] = True
    if box: kw["boxsize"] = box
    r, p = c.call(t2c.mfp, f, **kw)
    cell = (box or conv.LB) / sh[0]; nmax = len(r); c.close(r, np.arange(nmax) * cell, "lengths are whole steps", rtol=1e-12)
    c.true(nmax >= max(sh), "lengths up to the box size")
    if not m.any(): c.true(not np.any(p), "nothing selected: no sizes"); return
    pts = np.argwhere(m)
    if nd == 2 and len(pts) * 360 < 60000: a = np.repeat(pts, 360, 0); d = np.tile(dirs2(DEG), (len(pts), 1)); ex = True
    elif nd == 3 and len(pts) <= 9: a = np.repeat(pts, 360 * 360, 0); d = np.tile(dirs3(np.repeat(DEG, 360), np.tile(DEG, 360)), (len(pts), 1)); ex = True
    else:
        a = pts[c.rng.integers(0, len(pts), 60000)]; ex = False
        d = dirs2(c.rng.integers(0, 360, 60000)) if nd == 2 else dirs3(c.rng.integers(0, 360, 60000), c.rng.integers(0, 360, 60000))
    g = np.asarray(p)[1:] / np.arange(1, nmax)
    G = np.append(0., g)
    # the length-0 entry of rdP/dr carries no information: check the others
    c.true(survive(m, a, d, 3 * max(sh), 0).max() < nmax, f"the sizes stop at {nmax - 1} steps, rays inside the region go on")
    full = law(m, a, d, nmax); G[0] = full.mean(0)[0]
    law_check(c, G, m, a, d, nmax, it, ex, "mfp")
    c.true(g.sum() <= 1 + 1e-9, "frequencies are at most one in total")


@monitor("mfp_point", quick=60, thorough=600, min_obs=75)
def mfp_point(c):
    nd = c.pick([2, 3, 3]); sh, k, m, f, xth, up = mfp_field(c, nd)
    if not m.any(): raise Skip
    it = 15000; box = c.pick([None, 100., 37]); pt = [int(x) for x in c.pick(np.argwhere(m))]; c.note(sh=sh, k=k, xth=xth, up=up, pt=pt); quiet(np.random.seed, c.int(0, 2 ** 31))
    kw = dict(xth=xth, iterations=it, verbose=False)
    if up: kw["upper_lim"] = True
    if box: kw["boxsize"] = box
    r, p = c.call(t2c.mfp_from_point, f, pt, **kw); cell = (box or conv.LB) / sh[0]; nmax = len(r)
    c.close(r, np.arange(nmax) * cell, "lengths are whole steps", rtol=1e-12)
    d = dirs2(DEG) if nd == 2 else dirs3(np.repeat(DEG, 360), np.tile(DEG, 360))
    law_check(c, np.asarray(p), m, np.tile(pt, (len(d), 1)), d, nmax, it, True, "mfp_from_point")
    c.close(p.sum(), 1., "every ray is accounted for", rtol=1e-9)
    if not m.all():
        out = [int(x) for x in c.pick(np.argwhere(~m))]; c.true(c.call(t2c.mfp_from_point, f, out, **kw) is None, "a point outside the region has no mean free path")


@monitor("averaged_mfp", quick=24, thorough=200, min_obs=20)
def averaged(c):
    sh, k, m, f, xth, up = mfp_field(c, 3)
    if not m.any(): raise Skip
    it = 150; rp = c.pick([10, 30]); nj = 2 if c.i % 12 == 5 else 1; c.note(sh=sh, k=k, up=up, rp=rp, nj=nj); quiet(np.random.seed, c.int(0, 2 ** 31))
    pts = np.argwhere(m); nmax = int(3 ** .5 * max(sh)); a = pts[c.rng.integers(0, len(pts), 4000)]; A = np.repeat(a, rp, 0); L = survive(m, A, dirs3(c.rng.integers(0, 360, len(A)), c.rng.integers(0, 360, len(A))), nmax, 0).reshape(-1, rp).astype(float)
    w = L < nmax; n = w.sum(1); ml = np.where(n > 0, (L * w).sum(1) / np.maximum(n, 1), np.nan); ml = ml[np.isfinite(ml) & (ml > 0)]
    if len(ml) < 2000 or np.mean((n == 0)) > 0: raise Skip
    box = c.pick([None, 100.]); kw = dict(boxsize=box) if box else {}
    if up: kw["upper_lim"] = True
    r, p = c.call(t2c.averaged_mfp, f, xth=xth, iterations=it, rays_per_point=rp, verbose=False, n_jobs=nj, **kw)
    lr = np.log(r * sh[0] / (box or conv.LB)); h = lr[1] - lr[0]
    c.true(np.all(p >= 0) and abs(np.sum(p * h) - 1) < 1e-6, "density in log length normalised to one")
    mean = np.sum(p * h * lr); s = np.log(ml).std() / np.sqrt(it); c.true(abs(mean - np.log(ml).mean()) < 7 * s + h + 1e-6, f"mean log length {mean:.4f}, expected {np.log(ml).mean():.4f} +- {s:.4f}")
    c.true(lr.max() < np.log(ml.max()) + np.log(2) and np.exp(lr.max()) < nmax, "no length beyond the box")


@monitor("rebin", quick=150, thorough=1500, min_obs=125)
def rebin(c):
    n = c.int(20, 60); r = np.arange(n) * c.uni(.5, 3); k = c.int(0, 3); co = c.rng.normal(size=k + 1); p = np.polyval(co, r / r.max()); c.note(n=n, k=k)
    b = c.rng.uniform(r[0], r[-1], c.int(2, 12)); x, y = c.call(t2c.rebin_bsd, r, p, bins=c.pick([b, list(b)])); c.close(x, b, "requested sizes", rtol=1e-12); c.close(y, np.polyval(co, b / r.max()), "cubics are interpolated exactly", rtol=1e-8, atol=1e-8 * np.abs(co).sum())
    q = c.rng.random(n); j = c.rng.integers(0, n, 5); x, y = c.call(t2c.rebin_bsd, r, q, bins=r[j]); c.close(y, q[j], "unchanged at the sampled sizes", rtol=1e-8)
    nb = c.int(2, 12); a, z = sorted(c.rng.uniform(r[0] + .1, r[-1], 2)); x, y = c.call(t2c.rebin_bsd, r, p, bins=nb, r_min=a, r_max=z)
    c.close(x, np.exp(np.linspace(np.log(a), np.log(z), nb)), "log-spaced sizes", rtol=1e-9)


# ---------------------------------------------------------------- granulometry, watershed
def erode_dilate(m, n):
    nd = m.ndim; offs = [o for o in product(range(-n, n + 1), repeat=nd) if sum(x * x for x in o) <= n * n]; p = np.pad(m, n)
    sl = lambda o: tuple(slice(n + x, n + x + s) for x, s in zip(o, m.shape)); e = np.ones(m.shape, bool)
    for o in offs: e &= p[sl(o)]
    p = np.pad(e, n); d = np.zeros(m.shape, bool)
    for o in offs: d |= p[sl(o)]
    return d


@monitor("granulometry", quick=80, thorough=800, min_obs=100)
def granulometry(c):
    nd = c.pick([2, 3]); sh = (c.int(6, 11),) * nd if c.coin(.7) else tuple(c.int(6, 11) for _ in range(nd)); k, m = binary(c, sh)
    if not m.any(): raise Skip
    f, xth, fk = with_threshold(c, m); f = np.where(f == xth, xth + 1, f); up = c.coin(.3); box = c.pick([None, 50.]); c.note(sh=sh, k=k, up=up)
    half = max(sh) // 2; area = np.zeros(half)
    for n in range(half):
        area[n] = erode_dilate(m, n).sum()
        if area[n] == 0: break
    d = np.append((area[:-1] - area[1:]) / area[0], 0); kw = dict(boxsize=box) if box else {}
    if up: kw["upper_lim"] = True
    R, a, b = c.call(t2c.granulometry_bsd, -f if up else f, xth=-xth if up else xth, verbose=c.coin(.3), **kw)
    c.close(R, np.arange(half) * (box or conv.LB) / sh[0], "radii", rtol=1e-12)
    c.close(b, d, "fraction of the selected cells removed by each opening", rtol=1e-9, atol=1e-12); c.close(a, np.arange(half) * d, "rdF/dr", rtol=1e-9, atol=1e-12)
    if nd == 3:
        s = np.array(sorted(set(c.rng.integers(0, half, 4).tolist()))); g = c.call(t2c.granulometry_CDF, m, sizes=s, n_jobs=1)
        c.equal(g, np.array([erode_dilate(m, int(n)).sum() for n in s]), "selected cells left by each opening")


@monitor("watershed", quick=60, thorough=600, min_obs=50)
def watershed(c):
    """Well-separated balls are their own watershed regions: their volumes give the sizes."""
    n = c.int(16, 26); m = np.zeros((n,) * 3, bool); ix = np.indices(m.shape); vol = []
    for _ in range(c.int(1, 6)):
        R = c.int(1, 4); ce = [c.int(R + 1, n - R - 2) for _ in range(3)]
        b = sum((ix[d] - ce[d]) ** 2 for d in range(3)) <= R * R; fat = sum((ix[d] - ce[d]) ** 2 for d in range(3)) <= (R + 3) ** 2
        if (m & fat).any(): continue
        m |= b; vol.append(b.sum())
    f, xth, fk = with_threshold(c, m); f = np.where(f == xth, xth + 1, f); up = c.coin(.3); box = c.pick([None, 50.]); c.note(n=n, nb=len(vol), up=up); kw = dict(boxsize=box) if box else {}
    if up: kw["upper_lim"] = True
    if c.coin(.3): kw["h"] = c.uni(.1, .9)
    R, a, b = c.call(t2c.watershed_bsd, -f if up else f, xth=-xth if up else xth, **kw)
    r = np.cbrt(3 * np.array(vol) / 4 / np.pi); R = np.asarray(R) * n / (box or conv.LB); want = np.array([np.sum((r >= x - .5) & (r < x + .5)) for x in R]) / len(r)
    c.close(R, np.arange(len(R)), "integer radii", rtol=1e-9); c.close(b, want, "fraction of regions per radius", rtol=1e-9); c.close(a, want * R, "rdF/dr", rtol=1e-9)
