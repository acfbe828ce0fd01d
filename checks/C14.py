"""C14: region identification and superpixels: every mask, map and statistic recomputed from the cells themselves."""
import time
import numpy as np
from skimage.filters import threshold_triangle, threshold_otsu
from vh import monitor, Skip, quiet
import tools21cm as t2c
from tools21cm import superpixels as sp
time.sleep = lambda s: None          # the progress bars wait a second


def cube(c, lo=4, hi=10, nd=3):
    sh = tuple(c.size(lo, hi, 24) for _ in range(nd)); x = c.rng.normal(size=sh)
    k = c.pick(["noise", "smooth", "bimodal", "skewed", "f4", "int"])
    if k == "smooth":
        for d in range(nd): x = x + np.roll(x, 1, d) + np.roll(x, -1, d)
    if k == "bimodal": x = np.where(c.rng.random(sh) < c.uni(.2, .8), 10., 0.) + .5 * x
    if k == "skewed": x = np.exp(x)
    if k == "f4": x = x.astype("f4")
    if k == "int": x = np.round(5 * x).astype(int)
    return sh, k, x


@monitor("threshold", quick=600, thorough=3000, min_obs=350)
def threshold(c):
    sh, k, x = cube(c); up = c.coin(); th = c.pick([0, c.uni(-2, 2), float(x.ravel()[c.int(0, x.size - 1)]), 1e9, -1e9]); c.note(sh=sh, k=k, up=up, th=th)
    kw = {}
    if th != 0 or c.coin(): kw["threshold"] = th
    if not up or c.coin(): kw["upper_lim"] = up
    c.equal(np.asarray(c.call(t2c.bubbles_from_fixed_threshold, x, **kw), bool), (x <= th) if up else (x >= th), "cells on the requested side of the fixed threshold")
    kw = {} if up and c.coin() else dict(upper_lim=up); nb = c.pick([256, 64, 20])
    if nb != 256: kw["nbins"] = nb
    t = threshold_triangle(x, nbins=nb); c.equal(np.asarray(c.call(t2c.bubbles_from_triangle3D, x, **kw), bool), (x <= t) if up else (x >= t), "triangle threshold of the cube")
    ax = c.pick([None, 0, 1, 2, -1, -2, -3]); a = 2 if ax is None else ax
    try: ts = [threshold_triangle(np.take(x, i, a), nbins=nb) for i in range(x.shape[a])]
    except ValueError: raise Skip
    t = np.median(ts)
    if ax is not None: kw["loc_axis"] = ax
    c.equal(np.asarray(c.call(t2c.bubbles_from_triangle2D, x, **kw), bool), (x <= t) if up else (x >= t), "median triangle threshold of the slices")


@monitor("kmeans", quick=240, thorough=1200, min_obs=150)
def kmeans(c):
    up = c.coin(); k = c.pick(["modes", "modes", "noise", "two", "single"]); sh = tuple(c.int(4, 8) for _ in range(3)); nc = c.pick([2, 3, 3]); kw = {}
    if k == "modes":
        m = c.rng.integers(0, nc, sh); m.ravel()[:nc] = range(nc); x = np.array(sorted(c.rng.uniform(-50, 50, nc)))
        if np.diff(x).min() < 8: raise Skip
        x = x[m] + c.pick([0, 1e-3]) * c.rng.random(sh)
    elif k == "noise": x = c.rng.normal(size=sh)
    elif k == "two": m = c.rng.integers(0, 2, sh); m.ravel()[:2] = [0, 1]; x = np.array([-1.5, 4.])[m] * c.pick([1, 1.])
    else: x = np.full(sh, 3.7)
    if k != "single" and c.coin(.5): x = x * c.pick([1e-6, 1e-4, 1e-2, 1e3])
    c.note(sh=sh, k=k, up=up, nc=nc, x=x)
    if nc != 3 or c.coin(): kw["n_clusters"] = nc
    if not up or c.coin(): kw["upper_lim"] = up
    r = np.asarray(c.call(t2c.bubbles_from_kmeans, x, **kw)); c.true(r.shape == sh and set(np.unique(r)) <= {0, 1}, "a binary cube"); r = r.astype(bool)
    if k == "single": c.true(r.all(), "a single-valued field is one region"); return
    c.true(r.any() and not r.all(), "neither nothing nor everything")
    lo, hi = (r, ~r) if up else (~r, r); c.true(x[lo].max() < x[hi].min(), "selected cells are exactly those on the requested side of a threshold")
    if k == "two" or (k == "modes" and nc == 2): c.equal(r, (x < 0) if k == "two" and up else (x > 0) if k == "two" else (m == 0) if up else (m == 1), "the requested mode")
    if k == "modes" and nc == 3: c.equal(r, m == (0 if up else 2), "the requested one of three modes")
    if nc == 2 and k != "two":
        a, t = c.call(t2c.identify_regions.threshold_kmeans, x, upper_lim=up) if hasattr(t2c, "identify_regions") else c.call(t2c.threshold_kmeans, x, upper_lim=up)
        c.equal(np.asarray(a, bool), (x <= t) if up else (x > t), "cells on the requested side of the reported k-means threshold"); c.true(x.min() <= t <= x.max(), "threshold within the data")


def label_map(c, sh):
    """Arbitrary partitions: contiguous or not, counting from 0, 1 or elsewhere, with gaps."""
    n = c.int(1, 12); lab = c.rng.integers(0, n, sh); k = c.pick(["zero", "one", "gaps", "negative"])
    _, lab = np.unique(lab, return_inverse=True); lab = lab.reshape(sh)
    if k == "one": lab = lab + 1
    if k == "gaps": lab = np.array(sorted(c.rng.choice(100, lab.max() + 1, replace=False)))[lab]
    if k == "negative": lab = lab - c.int(1, 5)
    return k, lab


@monitor("statistics", quick=800, thorough=4000, min_obs=1250)
def stats(c):
    sh, k, x = cube(c, 2, 8, c.pick([2, 3, 3])); lk, lab = label_map(c, sh); c.note(sh=sh, k=k, lk=lk, n=lab.max()); v = c.coin(.2)
    ids = np.unique(lab); cells = [x[lab == i] for i in ids]; xf = x.astype(float); S = np.abs(xf).max() + 1e-9; tol = dict(rtol=0, atol=S * (3e-5 if x.dtype == np.float32 else 1e-9))
    mn = c.call(sp.get_superpixel_means, x, labels=lab, verbose=v); c.close(mn, np.array([a.astype(float).mean() for a in cells]), "superpixel means", **tol)
    sg = c.call(sp.get_superpixel_sigmas, x, labels=lab, verbose=v); c.close(sg, np.array([a.astype(float).std() for a in cells]), "superpixel sigmas", **tol)
    npx = c.call(sp.get_superpixel_n_pixels, x, labels=lab); c.equal(npx, np.array([len(a) for a in cells]), "superpixel cell counts"); c.true(npx.sum() == x.size, "every cell counted once")
    op = c.pick([np.max, np.min, np.sum, np.median, len]); c.close(np.array(c.call(sp.apply_operator_labelled_data, x, lab, operator=op, verbose=v), float), np.array([op(a) for a in cells], float), f"{op.__name__} of each superpixel", rtol=0, atol=max(tol["atol"] * 50, 1e-12))
    px = c.call(sp.get_superpixel_pixels, data=x, labels=lab, verbose=v); c.true(len(px) == len(ids) and all(np.array_equal(np.sort(a), np.sort(b)) for a, b in zip(px, cells)), "cells of each superpixel")
    m = c.call(sp.superpixel_map, x, lab, verbose=v); ref = np.zeros(sh)
    for i, a in zip(ids, cells): ref[lab == i] = a.astype(float).mean()
    c.close(m, ref, "superpixel map", **tol)
    q = c.rng.normal(size=len(ids)); m = c.call(sp.superpixel_map, x, lab, mns=q, verbose=v); c.equal(m, q[np.searchsorted(ids, lab)], "map of given values")
    if len(ids) > 1:
        r = c.call(sp.get_superpixel_SNRs, means=mn, sigmas=sg, n_pix=npx) if c.coin() else c.call(sp.get_superpixel_SNRs, data=x, labels=lab); o = np.argsort(mn, kind="stable")
        if np.diff(np.sort(mn)).min() > 1e-9 * S:
            c.close(r[1], mn[o], "sorted means", **tol); c.close(r[2], sg[o], "their sigmas", **tol); c.equal(r[3], npx[o], "their cell counts"); c.close(r[0][sg[o] > 0], (mn / np.where(sg > 0, sg, 1))[o][sg[o] > 0], "signal to noise", rtol=1e-4)
            r = c.call(sp.get_superpixel_SNRs, data=x, labels=lab, pixels=True); c.true(all(np.array_equal(np.sort(a), np.sort(cells[i])) for a, i in zip(r[4], o)), "their cells")
    if lab.ndim == 2 or c.coin(.2):
        X2, L2 = (xf, lab) if lab.ndim == 2 else (xf[..., 0], lab[..., 0]); fc = c.pick([1.01, c.uni(1.1, 3)]); o2 = c.call(sp.boundaries, X2, L2, **({} if fc == 1.01 else dict(factor=fc))); mark = X2.max() * fc
        near = np.zeros(L2.shape, bool)
        for dx, dy in ((0, 1), (1, 0), (1, 1), (1, -1)):
            A = np.pad(L2, 1, mode="edge"); near |= (A[1 + dx:A.shape[0] - 1 + dx, 1 + dy:A.shape[1] - 1 + dy] != L2) | (A[1 - dx:A.shape[0] - 1 - dx, 1 - dy:A.shape[1] - 1 - dy] != L2)
        c.equal(o2[~near], X2[~near], "cells inside a superpixel keep their value"); c.true(bool(((o2 == X2) | (o2 == mark)).all()), "boundary cells carry the mark")
        for ax in (0, 1):
            d = np.diff(L2, axis=ax) != 0; a_, b_ = (o2[:-1], o2[1:]) if ax == 0 else (o2[:, :-1], o2[:, 1:]); c.true(bool(((a_ == mark) | (b_ == mark))[d].all()), "a boundary is marked wherever two superpixels touch")
        o2 = c.call(sp.boundaries, X2, L2, mark=False, factor=fc); c.true(o2[0, 0] == mark and np.array_equal(o2.ravel()[1:], X2.ravel()[1:]), "unmarked slice keeps the colour scale")
    z = c.uni(0, 20); c.close(c.call(sp.xfrac_mass_estimate, xf, z), 1 - xf / (27 * np.sqrt((1 + z) / 10)), "ionised mass fraction", rtol=1e-9, atol=1e-9)
    c.close(c.call(sp.xfrac_volume_estimate, xf > xf.mean()), (xf > xf.mean()).sum() / xf.size, "volume fraction", rtol=1e-12)
    i = c.pick(list(ids)); c.equal(c.call(sp.see_label, lab, i), (lab == i).astype(float), "mask of one label")
    st = c.pick(["mean", "otsu"]) if len(ids) > 2 else "mean"
    if k != "f4":
        y = np.array([a.astype(float).mean() for a in cells]); t = threshold_otsu(y) if st == "otsu" else xf.mean()
        if c.coin(.3): t = c.pick([0, 0., c.uni(.2, 1), -c.uni(.2, 1), 1e-4 * c.uni(-1, 1), float(np.median(y)) + 1e-5 * S]); b = c.call(sp.binary_stitch, x, lab, thres=t)
        else: b = c.call(sp.binary_stitch, x, lab, stitch=st)
        if np.abs(y - t).min() > 1e-9 * S: c.equal(b, ref < t, "binary stitch: superpixels below the threshold")


@monitor("stitching", quick=400, thorough=2000, min_obs=250)
def stitching(c):
    sh, k, x = cube(c); lk, lab = label_map(c, sh)
    if c.coin(.6): lab = np.digitize(x.astype(float) + .3 * c.rng.normal(size=sh), np.quantile(x, np.linspace(.1, .9, c.int(2, 9))))
    bins = c.pick(["knuth", "blocks", 5, 10, 30]); c.note(sh=sh, k=k, lk=lk, bins=bins, lab=lab, x=x); ids = np.unique(lab)
    if len(ids) < 2: raise Skip
    mn = np.array([x[lab == i].mean() for i in ids])
    t = c.call(sp.stitch_superpixels, x, lab, bins=bins, binary=False, verbose=False)
    c.true(np.ndim(t) == 0 and np.isfinite(t) and mn.min() - 1e-9 <= t <= mn.max() + 1e-9, "one threshold within the range of superpixel means")
    ref = mn[np.searchsorted(ids, lab)]
    if np.abs(mn - t).min() < 1e-9 * np.abs(mn).max(): raise Skip
    c.equal(c.call(sp.stitch_superpixels, x, lab, bins=bins, binary=True, verbose=False), ref < t, "superpixels below the reported threshold")
    c.equal(c.call(sp.stitch_superpixels, x, lab, bins=bins, binary=True, on_superpixel_map=False, verbose=False), x < t, "cells below the reported threshold")


@monitor("slic", quick=100, thorough=500, min_obs=60)
def slic(c):
    sh, k, x = cube(c, 6, 14); x = x.astype(float)
    if c.coin(.5): ix = np.indices(sh); x = np.where(sum((ix[d] - sh[d] / 2) ** 2 for d in range(3)) < (min(sh) / 3) ** 2, -10., 10.) + .3 * c.rng.normal(size=sh)
    n = c.pick([10, 50, 200]); c.note(sh=sh, k=k, n=n, x=x)
    lab = np.asarray(c.call(t2c.slic_cube, x, n_segments=n, verbose=False)); c.true(lab.shape == sh, f"a label for every cell: {lab.shape}"); ids = np.unique(lab)
    c.equal(ids, np.arange(ids.size), "labels count from zero"); c.true(ids.size > 1 or n < 20, "more than one segment")
    b = c.pick(["knuth", 20]); got = c.call(t2c.bubbles_from_slic, x, n_segments=n, bins=b, verbose=False); c.true(np.shape(got) == sh, "mask of the cube's shape")
    if len(ids) > 1:
        mn = np.array([x[lab == i].mean() for i in ids]); t = quiet(sp.stitch_superpixels, x, lab, bins=b, binary=False, verbose=False)
        if np.abs(mn - t).min() > 1e-9: c.equal(got, mn[lab] < t, "superpixels below the threshold")
    c.equal(quiet(t2c.slic_cube, x, n_segments=n, verbose=False), lab, "reproducible")


@monitor("segmentation_error", quick=200, thorough=1000, min_obs=75)
def segerr(c):
    sh = tuple(c.size(2, 6, 24) for _ in range(3)); _, a = label_map(c, sh); tr = c.rng.integers(0, 3, sh); b = c.pick([.25, .1, .5]); c.note(sh=sh, a=a, tr=tr, b=b)
    u = sum((a == j).sum() for i in np.unique(tr) for j in np.unique(a) if ((tr == i) & (a == j)).sum() > b * (a == j).sum())
    c.close(c.call(sp.under_segmentation_error, a, tr, b=b, verbose=False), (u - a.size) / a.size, "under-segmentation error", rtol=1e-9, atol=1e-12)
    x = c.rng.normal(size=sh) - .5; th = c.pick([5, .3, 0, -.3]); ids = np.unique(a); mn = np.array([x[a == j].mean() for j in ids]); sg = np.array([x[a == j].std() for j in ids]); n = np.array([(a == j).sum() for j in ids])
    if np.any(sg == 0): raise Skip
    w = mn / sg < (th if th <= 0 else -th); r = c.call(sp.mean_estimate, x, labels=a, SNR_thres=th) if c.coin() else c.call(sp.mean_estimate, x, means=mn, sigmas=sg, n_pix=n, SNR_thres=th)
    if not w.any(): c.true(tuple(r) == (0, 0), "nothing significant: zero"); return
    M = np.sum(np.abs(mn[w]) * n[w]) / n[w].sum(); s = np.sqrt(np.sum((n[w] - 1) * sg[w] ** 2 + n[w] * (np.abs(mn[w]) - M) ** 2) / (n[w].sum() - 1))
    c.close(r[0], M, "combined mean of the significant superpixels", rtol=1e-9); c.close(r[1], s, "combined sigma", rtol=1e-7)


@monitor("many_labels", quick=4, thorough=16, min_obs=12)
def many(c):
    """More superpixels than 16-bit integers can count, labels not sorted in memory."""
    n = c.int(36000, 70000); sh = (2, c.int(180, 190), 200); lab = c.rng.integers(0, n, sh) + c.pick([0, 1, 10 ** 6]); lab = lab.astype(c.pick(["i4", "i8"])); x = c.rng.normal(size=sh); c.note(n=n, sh=sh)
    ids, inv, cnt = np.unique(lab, return_inverse=True, return_counts=True); s = np.bincount(inv.ravel(), x.ravel())
    c.close(c.call(sp.get_superpixel_means, x, labels=lab, verbose=False), s / cnt, "superpixel means", rtol=0, atol=1e-9); c.equal(c.call(sp.get_superpixel_n_pixels, x, labels=lab), cnt, "superpixel cell counts")
    c.close(np.array(c.call(sp.apply_operator_labelled_data, x, lab, operator=np.sum, verbose=False)), s, "sum of each superpixel", rtol=0, atol=1e-9)
