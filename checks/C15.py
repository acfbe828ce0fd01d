"""C15: one-point statistics against their definitions in extended precision."""
import numpy as np
from vh import monitor, Skip
import tools21cm as t2c
from tools21cm import superpixels as sp


def field(c, nd=3, lo=1, hi=8):
    if c.i % 30 == 7 and nd < 4: hi = 40
    sh = tuple(c.int(lo, hi) for _ in range(nd)); k = c.pick(["normal", "offset", "exp", "int", "f4", "bool", "F", "u1"])
    x = c.rng.normal(size=sh) * c.logu(1e-3, 1e3)
    if k == "offset": x = x + 100 * np.abs(x).max()
    if k == "exp": x = np.exp(c.rng.normal(size=sh))
    if k == "int": x = c.rng.integers(-20, 40, sh)
    if k == "u1": x = c.rng.integers(0, 255, sh).astype("u1")
    if k == "f4": x = x.astype("f4")
    if k == "bool": x = c.rng.random(sh) < .4
    if k == "F": x = np.asfortranarray(x)
    return sh, k, x


def L(x): return np.asarray(x).astype(np.longdouble)


@monitor("moments", quick=1500, thorough=6000, min_obs=450)
def moments(c):
    sh, k, x = field(c, c.int(1, 4))
    if x.size < 3 or np.ptp(x.astype(float)) == 0: raise Skip
    if k in ("bool", "u1") and c.coin(): pass
    if k == "bool": x = x.astype("i1")
    c.note(sh=sh, k=k, x=x); d = L(x) - L(x).mean(); n = d.size; v = (d ** 2).sum() / (n - 1); tol = 2e-3 if k == "f4" else 1e-6
    a, b = c.call(t2c.skewness, x), c.call(t2c.kurtosis, x)
    c.close(a, float((d ** 3).sum() / n / v ** 1.5), "skewness", atol=tol, rtol=tol); c.close(b, float((d ** 4).sum() / n / v ** 2), "kurtosis", rtol=tol)
    p = c.rng.permutation(x.ravel()).reshape(sh); s = c.uni(.5, 3)
    c.close(c.call(t2c.skewness, p.astype(float) * -s), -float(a), "skewness changes sign with the field", atol=2 * tol, rtol=2 * tol); c.close(c.call(t2c.kurtosis, p.astype(float) * -s + s), float(b), "kurtosis invariant under scaling, shift and permutation", rtol=4 * tol)


@monitor("mass_weighted", quick=900, thorough=3000, min_obs=300)
def mass(c):
    sh, k, x = field(c, lo=50, hi=72) if c.i % 150 == 8 else field(c); xi = np.abs(x); r = np.abs(c.rng.normal(size=sh)) + .1
    if c.coin(.3): r = r.astype("f4")
    if c.coin(.2): r = c.rng.integers(1, 2 ** 30, sh)
    c.note(sh=sh, k=k, xi=xi, r=r); w = float((L(xi) * L(r)).sum() / L(r).sum())
    c.close(c.call(t2c.mass_weighted_mean_xi, xi, r), w, "mass-weighted mean", rtol=1e-9 if k == "f4" else 3e-13 * max(1, x.size) ** .5)
    c.close(c.call(t2c.mass_weighted_mean_xi, xi, r.astype(float) * 1e-27), w, "independent of the density's units", rtol=1e-9); c.close(c.call(t2c.mass_weighted_mean_xi, xi, np.ones(sh)), float(L(xi).mean()), "uniform density: the mean", rtol=1e-9)


@monitor("along_los", quick=1500, thorough=6000, min_obs=1000)
def los(c):
    sh, k, x = field(c); ax = c.pick([0, 1, 2, -1, -2, -3]); a = ax % 3; c.note(sh=sh, k=k, ax=ax, x=x); o = tuple(i for i in range(3) if i != a)
    if k == "bool": x = x.astype("i1")
    m = L(x).mean(o, keepdims=True); S = float(np.abs(L(x)).max()) + 1e-30; tol = 2e-4 if k == "f4" else 1e-9
    kw = {} if a == 2 and c.coin() else dict(los_axis=ax)
    r = c.call(t2c.subtract_mean_signal, x, **kw); c.close(np.asarray(r, float), (L(x) - m).astype(float), "field minus the mean of each slice", rtol=0, atol=tol * S)
    c.close(np.asarray(r, float).mean(o), np.zeros(sh[a]), "every slice has zero mean", rtol=0, atol=tol * S); c.true(not np.shares_memory(r, x), "a new array")
    if np.all(np.abs(m) > 1e-3 * S):
        d = c.call(t2c.signal_overdensity, x, ax); c.close(np.asarray(d, float), (L(x) / m - 1).astype(float), "overdensity about the mean of each slice", rtol=0, atol=tol * float((np.abs(L(x)) / np.abs(m)).max() + 1))
        s = np.moveaxis(x, a, 0) ; f = c.rng.uniform(.5, 2, sh[a]); sc = np.moveaxis((s.T * f).T.astype(float), 0, a); c.close(np.asarray(c.call(t2c.signal_overdensity, sc, ax), float), (L(x) / m - 1).astype(float), "unchanged by the level of each slice", rtol=0, atol=2 * tol * float((np.abs(L(x)) / np.abs(m)).max() + 1))
    fn = c.pick([np.mean, np.var, np.std, np.max, np.sum, t2c.skewness, np.size]); al = a
    if fn is t2c.skewness and x.size // sh[a] < 3: fn = np.mean
    with np.errstate(all="ignore"):
        w = np.array([fn(np.take(x, i, a)) for i in range(sh[a])], float); g = c.call(t2c.apply_func_along_los, x, fn, al)
    c.close(g, w, f"{fn.__name__} of each slice", rtol=1e-4 if k == "f4" else 1e-9, atol=1e-9 * S)
    if c.coin(.3):
        v = c.rng.normal(size=(3,) + sh); w = np.array([np.take(v, i, a + 1).std() for i in range(sh[a])]); c.close(c.call(t2c.apply_func_along_los, v, np.std, a), w, "vector field: std of each slice", rtol=1e-9)


@monitor("combination", quick=1200, thorough=4000, min_obs=600)
def combination(c):
    n = c.int(1, 8); k = c.pick(["float", "int", "f4"]); parts = [c.rng.normal(c.uni(-5, 5), c.uni(.1, 5), c.int(1, 30)) for _ in range(n)]
    if k == "int": parts = [np.round(p * 5).astype(int) for p in parts]
    allx = np.concatenate(parts)
    if allx.size < 2: raise Skip
    mn = np.array([p.mean() for p in parts]); var = np.array([p.var(ddof=1) if len(p) > 1 else 0. for p in parts]); ns = np.array([len(p) for p in parts]); c.note(n=n, k=k, x=allx)
    form = c.pick(["array", "list", "dict", "intarr"]); g = lambda a: list(map(float, a)) if form == "list" else {f"s{i}": float(v) for i, v in enumerate(a)} if form == "dict" else a
    m, v = c.call(t2c.combined_mean_variance, g(mn), g(var), g(ns) if form != "intarr" else ns); S = np.abs(allx).max()
    c.close(m, allx.mean(), "combined mean", rtol=1e-9, atol=1e-10 * S); c.close(v, allx.var(ddof=1), "combined variance", rtol=1e-9, atol=1e-10 * S ** 2)
    a, b = c.call(sp.get_combined_mean_std, mn, np.sqrt(var), ns); c.close(a, allx.mean(), "combined mean (superpixels)", rtol=1e-9, atol=1e-10 * S); c.close(b, allx.std(ddof=1), "combined sigma (superpixels)", rtol=1e-7, atol=1e-7 * S)
    if n > 1:
        m, v = c.call(t2c.combined_mean_variance, g(mn), g(var)); c.close(m, mn.mean(), "without sizes every set counts once", rtol=1e-9, atol=1e-10 * S); c.close(v, mn.var(ddof=1), "variance of the means", rtol=1e-9, atol=1e-10 * S ** 2)
    # combining in two stages gives the same
    if n > 2:
        h = c.int(1, n - 1); r = [t2c.combined_mean_variance(mn[s], var[s], ns[s]) if ns[s].sum() > 1 else (mn[s][0], 0.) for s in (slice(0, h), slice(h, n))]
        m, v = c.call(t2c.combined_mean_variance, np.array([r[0][0], r[1][0]]), np.array([r[0][1], r[1][1]]), np.array([ns[:h].sum(), ns[h:].sum()])); c.close(m, allx.mean(), "two-stage mean", rtol=1e-9, atol=1e-10 * S); c.close(v, allx.var(ddof=1), "two-stage variance", rtol=1e-8, atol=1e-10 * S ** 2)
    # arrays of statistics, one per bin
    B = c.int(1, 4); X = [c.rng.normal(size=(q, B)) for q in (3, 5, 9)]; Z = np.concatenate(X)
    m, v = c.call(t2c.combined_mean_variance, np.array([x.mean(0) for x in X]), np.array([x.var(0, ddof=1) for x in X]), np.array([[len(x)] * B for x in X])); c.close(m, Z.mean(0), "per-bin mean", rtol=1e-9); c.close(v, Z.var(0, ddof=1), "per-bin variance", rtol=1e-9)
