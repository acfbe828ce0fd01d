"""C25: posterior diagnostics, fits and plots against the statistics and data they were given."""
import re
import numpy as np
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
from vh import monitor, Skip
import tools21cm as t2c
from tools21cm import plotting as pt, conv

QS = dict(median=.5, lo1=.16, hi1=.84, lo2=.025, hi2=.975)


def groups(x, w):
    """distinct values with the weight up to and including each"""
    u, i = np.unique(x, return_inverse=True); g = np.zeros(len(u)); np.add.at(g, i, w); return u, np.cumsum(g)


def check_stats(c, s, X, w, truth, S):
    """one stats dictionary against the weighted sample"""
    w = np.asarray(w, float) / np.sum(np.asarray(w, float)); n = X.shape[1]; mu = (X.astype(np.longdouble) * w[:, None]).sum(0).astype(float)
    c.close(s["means"], mu, "weighted means", rtol=1e-9, atol=1e-9 * S); D = X - mu; C = (D * w[:, None]).T @ D; f = 1 / (1 - (w ** 2).sum()); cov = np.atleast_2d(s["cov"])
    c.close(cov, C * f, "weighted covariance", rtol=1e-6, atol=1e-9 * S ** 2 * f); c.close(np.asarray(s["sigmas"]), np.sqrt(np.diag(C) * f), "sigmas", rtol=1e-6, atol=1e-6 * S); c.true(len(s["cis"]) == n, "one set of intervals per parameter")
    for p in range(n):
        u, F = groups(X[:, p], w); ci = s["cis"][p]; e = 1e-9
        for k, q in QS.items():
            lo = u[max(np.searchsorted(F, q - e) - 1, 0)]; hi = u[min(np.searchsorted(F, q + e), len(u) - 1)]
            c.true(lo - 1e-9 * S <= ci[k] <= hi + 1e-9 * S, f"{k} of parameter {p}: {ci[k]:.6g} outside [{lo:.6g}, {hi:.6g}], where the cumulative weight passes {q}")
        for v in [c.uni(u[0], u[-1]), u[0] - 1, u[-1] + 1] + ([] if truth is None or p >= len(truth) else [float(truth[p])]):
            r = ci["cdf_at"](v); lo = F[np.searchsorted(u, v, "right") - 1] if v >= u[0] else 0.; lo = 0. if v in u else lo; hi = F[min(np.searchsorted(u, v, "right"), len(u) - 1)]
            c.true(lo - e <= r <= hi + e, f"cdf of parameter {p} at {v:.5g}: {r:.6g} outside [{lo:.6g}, {hi:.6g}]")
        c.true(ci["lo2"] <= ci["lo1"] <= ci["median"] <= ci["hi1"] <= ci["hi2"], "intervals are nested")
    if truth is None: c.true("z_scores" not in s and "pit" not in s, "no truth, no truth-based metrics"); return
    t = np.asarray(truth, float)[:n]; m = len(t)
    if m == n:
        sg = np.sqrt(np.diag(C) * f)
        if np.all(sg > 1e-9 * S): c.close(s["z_scores"], np.abs(mu - t) / sg, "z-scores", rtol=1e-5, atol=1e-6)
        c.close(s["rmse"], np.sqrt(((mu - t) ** 2).mean()), "rmse", rtol=1e-8, atol=1e-9 * S)
        ev = np.linalg.eigvalsh(C * f)
        if ev[0] > 1e-7 * ev[-1] and ev[0] > (1e-6 * S) ** 2:
            c.close(s["mahalanobis"], np.sqrt((mu - t) @ np.linalg.solve(C * f, mu - t)), "Mahalanobis distance", rtol=1e-4, atol=1e-6); c.close(s["entropy"], .5 * np.log((2 * np.pi * np.e * ev).prod()), "entropy", rtol=1e-5, atol=1e-5)
    for p in range(m):
        ci = s["cis"][p]; c.close(s["pit"][p], ci["cdf_at"](t[p]), "PIT is the cdf at the truth", rtol=1e-12)
        c.true(bool(s["cover_68"][p]) == (ci["lo1"] <= t[p] <= ci["hi1"]), "68% coverage"); c.true(bool(s["cover_95"][p]) == (ci["lo2"] <= t[p] <= ci["hi2"]), "95% coverage")


def truth_for(c, X):
    k = c.pick(["none", "list", "array", "far"]); n = X.shape[1]
    if k == "none": return None
    t = X[c.int(0, len(X) - 1)] + c.uni(-.5, .5) * X.std(0) * c.int(0, 1) if k != "far" else X.max(0) + c.uni(.1, 3)
    t = np.concatenate([t, c.rng.normal(size=c.int(0, 2))]); return list(map(float, t)) if k == "list" else t


@monitor("sampled", quick=600, thorough=5000, min_obs=5000)
def sampled(c):
    n, N = c.int(1, 4), c.size(3, 60, 4000); X = c.rng.normal(size=(N, n)) @ c.rng.normal(size=(n, n)) * c.logu(1e-3, 1e3) + c.uni(-5, 5)
    if c.coin(.3): X = np.round(X, c.int(0, 1)); X[0] += 1.
    wk = c.pick(["none", "float", "int", "zeros"]); w = dict(none=None, float=c.rng.random(N) + .01, int=c.rng.integers(1, 9, N), zeros=c.rng.integers(0, 2, N) * c.rng.random(N), f4=(c.rng.random(N) + .1).astype("f4"))[wk]
    if w is not None and (w > 0).sum() < 2: raise Skip
    truth = truth_for(c, X); S = np.abs(X).max() + 1e-30; c.note(n=n, N=N, X=X, w=w, truth=truth)
    d = t2c.SampledDistribution(true_values=truth); c.call(d.add_distribution, X, weights=w) if w is not None or c.coin() else c.call(d.add_distribution, X)
    c.true(list(d.distributions) == ["Distribution 1"], "the first unnamed distribution is 'Distribution 1'"); q = d.distributions["Distribution 1"]; W = np.ones(N) if w is None else w
    c.equal(q["points"], X, "the points are the samples"); c.equal(q["weights"], W, "the weights are the weights"); check_stats(c, q["stats"], X, W, truth, S)
    # the order of the samples and the scale of the weights carry no information; a linear map of the parameters maps every statistic
    p = c.rng.permutation(N); a, b = c.logu(.1, 10), c.uni(-3, 3); d2 = t2c.SampledDistribution(); c.call(d2.add_distribution, a * X[p] + b, label="x", weights=np.asarray(W, float)[p] * c.logu(1e-3, 1e3)); r = d2.distributions["x"]["stats"]; s = q["stats"]
    c.close(r["means"], a * s["means"] + b, "means follow a linear map", rtol=1e-8, atol=1e-8 * (a * S + 3)); c.close(r["sigmas"], a * np.asarray(s["sigmas"]), "sigmas follow a linear map", rtol=1e-5, atol=1e-7 * (a * S + 3))
    if len(np.unique(X)) == X.size and wk in ("none", "float"):
        for k in QS: c.close([i[k] for i in r["cis"]], [a * i[k] + b for i in s["cis"]], f"{k} follows a linear map", rtol=1e-7, atol=1e-7 * (a * S + 3))
    # distributions accumulate and do not disturb each other
    d.add_distribution(X[::-1] * 2, label="second", color="r"); c.call(d.add_distribution, X + 1); c.true(list(d.distributions) == ["Distribution 1", "second", "Distribution 3"], f"labels {list(d.distributions)}"); c.true(d.distributions["second"]["color"] == "r", "colour kept"); d.add_distribution(X + 2, label=f"Distribution {c.int(4, 6)}"); c.call(d.add_distribution, X + 3); c.true(len(d.distributions) == 5, f"an unnamed distribution replaced a named one: {list(d.distributions)}"); c.equal(d.distributions["Distribution 1"]["points"], X, "earlier distributions stay")


@monitor("gridded", quick=300, thorough=2500, min_obs=2000)
def gridded(c):
    n = c.int(1, 3); m = c.int(3, {1: 60, 2: 20, 3: 9}[n]); x = np.linspace(c.uni(-5, 0), c.uni(.5, 6), m) if c.coin(.7) else np.sort(c.rng.normal(size=m) * 3); kind = c.pick(["random", "gauss", "spike"]); sh = (m,) * n
    if len(np.unique(x)) < m: raise Skip
    M = np.stack(np.meshgrid(*[x] * n, indexing="ij"), -1); mu = c.rng.uniform(x[0], x[-1], n); sg = c.rng.uniform(.1, .5, n) * np.ptp(x)
    g = {"random": c.rng.random(sh), "gauss": np.exp(-.5 * (((M - mu) / sg) ** 2).sum(-1)), "spike": np.zeros(sh)}[kind]
    if kind == "spike": g.ravel()[c.rng.integers(0, g.size, 3)] = c.rng.random(3) + .1
    if (g > 0).sum() < 2: raise Skip
    g = g * c.logu(1e-6, 1e6); X = M.reshape(-1, n); truth = truth_for(c, X); c.note(n=n, m=m, x=x, g=g, truth=truth)
    d = t2c.GriddedProbabilities(coords_1d=x, true_values=truth); c.call(d.add_distribution, g, label="g"); q = d.distributions["g"]; c.equal(q["grid"], g, "the grid is kept")
    P, W = np.asarray(q["points"]), np.asarray(q["weights"]); c.true(P.shape == X.shape, "one point per grid cell"); ix = tuple(np.searchsorted(x, P[:, i]) for i in range(n)); c.equal(W, g[ix], "every point carries the probability of its grid cell"); c.true(len(np.unique(np.ravel_multi_index(ix, sh))) == g.size, "every cell once")
    S = np.abs(x).max() + 1e-30; check_stats(c, q["stats"], X, g.ravel(), truth, S)
    ax = c.int(0, n - 1); marg = g.sum(tuple(i for i in range(n) if i != ax)); c.close(q["stats"]["means"][ax], (marg * x).sum() / marg.sum(), "mean of the marginal", rtol=1e-8, atol=1e-8 * S)
    if c.coin(.2):
        d = t2c.GriddedProbabilities(); u = np.linspace(0, 1, 100); h = np.exp(-.5 * ((u - .4) / .1) ** 2); c.call(d.add_distribution, h); s = d.distributions["Distribution 1"]["stats"]; c.close(s["means"], [.4], "default coordinates run from 0 to 1 in 100 steps", atol=1e-4)


@monitor("forest", quick=40, thorough=200, min_obs=200)
def forest(c):
    n = c.int(1, 3); k = c.int(1, 4); truth = c.pick([None, [.1] * n, np.full(n, .2), [.3]]); labs = [None, [f"q_{j}" for j in range(n)], [f"q_{j}" for j in range(n - 1)], [f"q_{j}" for j in range(n + 1)]][c.int(0, 3)]
    # chains need not share their number of parameters: they fill the panels of the parameters they have
    dims = [n if c.coin(.5) else c.int(1, n) for _ in range(k)]; dims[c.int(0, k - 1)] = n; c.note(n=n, k=k, truth=truth, labels=labs, dims=dims); d = c.call(t2c.SampledDistribution, true_values=truth, **({} if labs is None and c.coin() else dict(param_labels=labs)))
    for i in range(k): d.add_distribution(c.rng.normal(size=(30, dims[i])), label=f"d{i}")
    try:
        f = c.call(d.plot_forest); ax = f.axes[:n]; c.true(len(f.axes) == n, "one panel per parameter")
        for p in range(n):
            who = [i for i in range(k) if p < dims[i]]; bars = [b.get_segments()[0] for b in ax[p].collections]; c.true(len(bars) == 2 * len(who), f"two bars per distribution that has parameter {p}: {len(bars)} for {len(who)}")
            for r, i in enumerate(who):
                ci = d.distributions[f"d{i}"]["stats"]["cis"][p]
                for b, (lo, hi) in ((bars[2 * r], ("lo2", "hi2")), (bars[2 * r + 1], ("lo1", "hi1"))): c.close(b, [[ci[lo], i], [ci[hi], i]], f"bar of d{i} spans {lo}..{hi}", rtol=1e-9, atol=1e-9)
            own = labs is not None and p < len(labs); lab = ax[p].get_xlabel().strip("$"); c.true(lab == labs[p] if own else lab != "", f"panel {p} is labelled {lab!r}")
            ln = [l for l in ax[p].lines if len(l.get_xdata()) == 2 and l.get_linestyle() == "--"]; want = [float(truth[p])] * 2 if truth is not None and p < len(truth) else None
            if want is None: c.true(not ln, "no truth, no line of the truth")
            else: c.true(len(ln) == 1, "one line of the truth"); c.close(ln[0].get_xdata(), want, "the line of the truth stands at the truth")
        c.true(len({a.get_xlabel() for a in ax}) == n, "the panels carry different labels"); c.true([t.get_text() for t in ax[0].get_yticklabels()] == [f"d{i}" for i in range(k)], "rows carry the labels")
    finally: plt.close("all")


@monitor("chain_stats", quick=100, thorough=600, min_obs=500)
def chain(c):
    k, n = c.int(1, 3), c.int(1, 3); ch, ws = {}, {}; wk = c.pick(["none", "float", "int", "ones"])
    for i in range(k):
        N = c.size(5, 60, 3000); ch[f"chain{i}"] = c.rng.normal(c.uni(-3, 3), c.uni(.5, 3), (N, n)); ws[f"chain{i}"] = dict(none=None, float=c.rng.random(N) + .05, int=c.rng.integers(1, 9, N), ones=np.ones(N))[wk]
    names = [c.pick(["a", "b_c", ""]) + "" for _ in range(n)]; W = None if wk == "none" else ws; keep = {a: None if b is None else b.copy() for a, b in ws.items()}; c.note(k=k, n=n, wk=wk, x=ch["chain0"]); c.call(pt.print_chain_stats, ch, W, names)
    if W is not None:
        for a in keep: c.equal(ws[a], keep[a], "the weights stay as they were")
    rows = [r.split("|") for r in c.stdout.splitlines() if r.startswith("chain")]; c.true(len(rows) == k * n, f"{len(rows)} rows for {k} chains of {n} parameters")
    for j, r in enumerate(rows):
        X = ch[f"chain{j // n}"][:, j % n]; w = keep[f"chain{j // n}"]; w = np.ones(len(X)) / len(X) if w is None else w / w.sum(); c.true(r[0].strip() == f"chain{j // n}" and r[1].strip() == (names[j % n] or f"Param {j % n}"), f"row {r[:2]}")
        mean = float(r[2]); pl, mi = map(float, re.match(r"\s*\+(-?[\d.]+) / -(-?[\d.]+)", r[3]).groups()); c.close(mean, (X * w).sum(), "printed mean", rtol=0, atol=6e-5); u, F = groups(X, w)
        for v, q in ((mean + pl, .84), (mean - mi, .16)): c.true(u[max(np.searchsorted(F, q - 1e-9) - 1, 0)] - 2e-4 <= v <= u[min(np.searchsorted(F, q + 1e-9), len(u) - 1)] + 2e-4, f"the {q} quantile {v} printed for {r[0]}")


@monitor("fits", quick=60, thorough=400, min_obs=200)
def fits(c):
    kind = c.pick(["line", "parabola", "power", "plane"]); N = c.int(12, 40); names = [f"p{i}" for i in c.rng.permutation(3)]
    if kind == "line": f, th = (lambda x, t: t[0] + t[1] * x), [c.uni(-2, 2), c.uni(-2, 2)]
    if kind == "parabola": f, th = (lambda x, t: t[0] + t[1] * x + t[2] * x ** 2), [c.uni(-2, 2), c.uni(-2, 2), c.uni(-2, 2)]
    if kind == "power": f, th = (lambda x, t: t[0] * x ** t[1]), [c.uni(1, 3), c.uni(.5, 2)]
    if kind == "plane": f, th = (lambda x, t: x @ t), [c.uni(-2, 2), c.uni(-2, 2)]
    th = np.array(th); X = c.rng.uniform(-1.5 if kind == "parabola" else .2, 2, (N, 2) if kind == "plane" else N); y = f(X, th); noise = c.coin(.4); y = y + noise * .05 * c.rng.normal(size=N); init = th + c.rng.uniform(-.3, .3, len(th)); cv = c.pick([None, None, None, 4]) if kind != "parabola" else None; atctor = c.coin()
    c.note(kind=kind, X=X, y=y, cv=cv, th=th); np.random.seed(c.int(0, 2 ** 31)); fp = dict(zip(names, init)); F = c.call(t2c.FitFunction, f, fit_params=fp, **(dict(cv=cv) if atctor else {})); import tools21cm.fitting_methods as fmod; sl, fmod.sleep = getattr(fmod, "sleep", None), lambda s: None
    try: c.call(F.fit, X, y, **({} if atctor else dict(cv=cv)))
    finally: fmod.sleep = sl
    c.true(fp == dict(zip(names, init)), "the starting point the caller gave is left alone")
    c.true(sorted(F.fitted_params_) == sorted(names[:len(th)]), "one value per parameter"); got = np.array([F.fitted_params_[k] for k in names[:len(th)]])
    best = th
    if not noise: c.close(got, th, "the parameters the data were made with, under their own names", rtol=0, atol=.05 if kind == "parabola" else 3e-3)
    else:
        from scipy.optimize import least_squares
        best = least_squares(lambda t: f(X, t) - y, th).x; c.close(got, best, "the least-squares parameters", rtol=0, atol=.15 if cv or kind == "parabola" else 3e-3)
    if cv is None: c.true(((f(X, got) - y) ** 2).mean() <= ((f(X, best) - y) ** 2).mean() + (1e-3 if kind == "parabola" else 1e-5), "no better parameters exist")
    p = c.call(F.predict, X); c.close(p, f(X, got), "prediction is the function at the fitted parameters", rtol=1e-12); c.close(c.call(F.score, X, y), 1 - ((y - p) ** 2).sum() / ((y - y.mean()) ** 2).sum(), "score is the coefficient of determination", rtol=1e-9)
    c.close(F.residual_func(th, X, y), ((f(X, th) - y) ** 2).sum(), "residual is the sum of squares", rtol=1e-12, atol=1e-15)
    if cv: c.true(all(F.fitted_params_std[k] >= 0 for k in names[:len(th)]) and len(F.cv_scores_) == cv and np.all(F.cv_scores_ <= 1 + 1e-12), "a spread per parameter and a score per split")
    else: c.close(c.call(F.fit_predict, X, y), p, "fit_predict fits, then predicts", rtol=1e-6, atol=1e-9)


@monitor("plots", quick=40, thorough=200, min_obs=100)
def plots(c):
    sh = tuple(c.size(2, 7, 40) for _ in range(3)); x = c.rng.random(sh) + .01; ax = c.int(0, 2); i = c.int(0, sh[ax] - 1); lg = c.coin(.3); k = c.pick(["array", "xfrac", "density", "temper"]); c.note(sh=sh, x=x, ax=ax, i=i, k=k); src = x; zz = round(c.uni(6, 15), 3)
    if k != "array": K_ = dict(xfrac=t2c.XfracFile, density=t2c.DensityFile, temper=t2c.TemperFile)[k]; src = K_.__new__(K_); src.z = zz; setattr(src, dict(xfrac="xi", density="cgs_density", temper="temper")[k], x); src.raw_density = x * 3
    try:
        kw = {} if ax == 0 and c.coin() else dict(los_axis=ax); c.call(pt.plot_slice, src, slice_num=i, logscale=lg, **kw); im = plt.gcf().axes[0].images[0]; w = np.take(x, i, ax); c.close(np.asarray(im.get_array()), np.log10(w) if lg else w, "the slice shown is the slice asked for", rtol=1e-6, atol=1e-7); c.close(im.get_extent(), [0, conv.LB] * 2, "the axes span the box", rtol=1e-12); c.call(plt.gcf().canvas.draw); t = plt.gcf().axes[0].get_title(); c.true(k not in ("xfrac", "density") or f"{zz:.2f}" in t, f"title {t!r} of a slice at z={zz}"); plt.close("all")
        b = c.pick([None, 5, np.linspace(0, 1.1, 8)]); c.call(pt.plot_hist, src, **({} if b is None else dict(bins=b))); h = plt.gca().patches[0].get_xy(); n, e = np.histogram(x, bins=(np.linspace(0, 1, 30) if k == "xfrac" else 30) if b is None else b); c.call(plt.gcf().canvas.draw)
        c.close(sorted(set(np.round(h[:, 0], 9))), sorted(set(np.round(e, 9))), "histogram edges", rtol=1e-6, atol=1e-8); c.true(abs(h[:, 1].max() - n.max()) < 1e-9, "histogram counts"); c.close(h[1:2 * len(n) + 1:2, 1], n, "counts of every bin", rtol=1e-9)
    finally: plt.close("all")


@monitor("cross_validation", quick=40, thorough=300, min_obs=60)
def cross_validation(c):
    """The reported parameters are mean and spread of the fits of those splits whose held-out score is positive (seen through the model function's own calls)."""
    import tools21cm.fitting_methods as fmod
    from sklearn.metrics import r2_score
    N = c.int(12, 40); cv = c.int(3, 8); th = c.rng.normal(size=2); X = c.rng.uniform(0, 2, N); y = th[0] * X + th[1] + c.pick([.02, .3, .6]) * c.rng.normal(size=N); S = []
    def f(x, t):
        if len(x) < N / 2: S.append((np.array(x), np.array(t, float)))
        return t[0] * x + t[1]
    c.note(N=N, cv=cv, X=X, y=y); np.random.seed(c.int(0, 2 ** 31)); F = t2c.FitFunction(f, fit_params=dict(zz=th[0] + .3, aa=th[1] - .2)); sl, fmod.sleep = getattr(fmod, "sleep", None), lambda s: None
    try: c.call(F.fit, X, y, cv=cv)
    finally: fmod.sleep = sl
    if len(S) != cv: raise Skip
    at = {v: i for i, v in enumerate(X)}; sc = np.array([r2_score(y[[at[v] for v in x]], t[0] * x + t[1]) for x, t in S])
    c.close(F.cv_scores_, sc, "score of every split on its held-out points", rtol=1e-9, atol=1e-9); ok = sc > 0
    if not ok.any() or np.abs(sc).min() < 1e-9: return
    T = np.array([t for _, t in S])[ok]
    for i, k in enumerate(("zz", "aa")): c.close(F.fitted_params_[k], T[:, i].mean(), f"{k}: mean over the successful splits", rtol=1e-9, atol=1e-12); c.close(F.fitted_params_std[k], T[:, i].std(), f"{k}: spread over the successful splits", rtol=1e-9, atol=1e-12)
