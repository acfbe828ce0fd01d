"""Reference model for Fourier statistics, written from the definitions (no code shared with the package)."""
import numpy as np


def dims(box, ndim):
    return [float(box)] * ndim if np.ndim(box) == 0 else [float(b) for b in box]


def kcomp(shape, box):
    """k components in shifted order (ascending frequency), one array per axis, full grid."""
    box = dims(box, len(shape))
    ks = [2 * np.pi * np.fft.fftshift(np.fft.fftfreq(n, d=L / n)) for n, L in zip(shape, box)]
    return np.meshgrid(*ks, indexing="ij")


def kmag(shape, box):
    return np.sqrt(sum(k ** 2 for k in kcomp(shape, box)))


def power(a, b, box):
    """shifted n-D (cross) power, P = Re(F1 conj F2) * V / N^2"""
    V = np.prod(dims(box, a.ndim)); N = a.size
    f1 = np.fft.fftshift(np.fft.fftn(a.astype(np.float64)))
    f2 = f1 if b is a else np.fft.fftshift(np.fft.fftn(b.astype(np.float64)))
    return (f1 * np.conj(f2)).real * V / N ** 2


def edges(kbins, shape, box, binning, breakpoint=0.1):
    if not isinstance(kbins, (int, np.integer)):
        return np.asarray(kbins, float)
    lo = 2 * np.pi / min(dims(box, len(shape))); hi = kmag(shape, box).max()
    lin = np.linspace(lo, hi, kbins + 1)
    log = 10 ** np.linspace(np.log10(lo), np.log10(hi), kbins + 1)
    if binning == "linear": return lin
    if binning == "log": return log
    return np.concatenate([lin[lin < breakpoint], log[log > breakpoint]])


def near_edge(x, e, rel=1e-9):
    """which bins have a member sitting on one of their edges (assignment there is not specified)"""
    x = np.sort(np.asarray(x, float).ravel())
    amb = np.zeros(len(e), bool)
    tol = rel * max(abs(e[0]), abs(e[-1]))
    for j, v in enumerate(e):
        amb[j] = np.searchsorted(x, v + tol, "right") > np.searchsorted(x, v - tol, "left")
    return amb[:-1] | amb[1:]


def binned_mean(x, val, e):
    """mean of val, count of members with e[i] <= x < e[i+1]"""
    x, val = x.ravel(), val.ravel()
    j = np.searchsorted(e, x, "right") - 1
    ok = (j >= 0) & (j < len(e) - 1)
    n = np.bincount(j[ok], minlength=len(e) - 1).astype(float)
    s = np.bincount(j[ok], weights=val[ok], minlength=len(e) - 1)
    with np.errstate(all="ignore"):
        return s / n, n


def safe_edges(rng, x, nb, lo=None, hi=None, log=False):
    """strictly increasing bin edges, none of which coincides with a value of x"""
    x = np.unique(np.round(x.ravel(), 12))
    lo = x[x > 0].min() * 0.7 if lo is None else lo
    hi = x.max() * 1.05 if hi is None else hi
    for _ in range(200):
        t = np.sort(rng.random(nb - 1))
        e = np.concatenate([[0], t, [1]])
        e = lo * (hi / lo) ** e if log else lo + (hi - lo) * e
        if nb > 1 and np.diff(e).min() < 1e-3 * (hi - lo) / nb: continue
        d = np.abs(x[np.clip(np.searchsorted(x, e), 0, len(x) - 1)] - e)
        d2 = np.abs(x[np.clip(np.searchsorted(x, e) - 1, 0, len(x) - 1)] - e)
        if min(d.min(), d2.min()) > 1e-6 * hi: return e
    return None


def check_edge_bins(c, mean, n, x, val, e, scale, what, rel=1e-9):
    """Bins with a member on an edge: the members on each edge may fall on either side, everything
    strictly inside must be there and nothing else.  Returns the mask of bins handled here."""
    amb = near_edge(x, e, rel)
    if not amb.any(): return amb
    x, val = x.ravel(), val.ravel(); tol = rel * max(abs(e[0]), abs(e[-1]))
    for j in np.flatnonzero(amb):
        core = (x > e[j] + tol) & (x < e[j + 1] - tol)
        left = np.abs(x - e[j]) <= tol; right = np.abs(x - e[j + 1]) <= tol
        nmin, nmax = core.sum(), core.sum() + left.sum() + right.sum()
        combos = []
        for l in (0, 1):
            for r in (0, 1):
                m = core | (left if l else False) | (right if r else False)
                combos.append((m.sum(), val[m].mean() if m.any() else np.nan))
        if n is not None:
            c.true(nmin <= n[j] <= nmax, f"{what}: bin {j} holds {n[j]} modes, must hold {nmin}..{nmax}")
            combos = [q for q in combos if q[0] == n[j]] or None
            if combos is None: continue
        elif nmax - nmin > 2 and left.sum() + right.sum() > 2 and not any(_eq(mean[j], q[1], scale) for q in combos):
            lo = val[core].sum(); edge = val[left | right]
            # a split group: only bounds remain
            if nmin == 0: continue
            b0 = (lo + edge[edge < 0].sum()) / nmin; b1 = (lo + edge[edge > 0].sum()) / nmin
            c.true(min(b0, b0 * nmin / nmax) - 1e-8 * scale <= mean[j] <= max(b1, b1 * nmin / nmax) + 1e-8 * scale, f"{what}: bin {j} mean {mean[j]} outside its possible range")
            continue
        c.true(any(_eq(mean[j], q[1], scale) for q in combos), f"{what}: bin {j} is {mean[j]}, possible {[q[1] for q in combos]}")
    return amb


def _eq(a, b, scale):
    return (np.isnan(a) and np.isnan(b)) or abs(a - b) <= 1e-8 * scale + 1e-8 * abs(b)
