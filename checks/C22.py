"""C22: bispectra against a direct sum over closed Fourier triangles; position-dependent spectra against explicit sub-volumes."""
import numpy as np
from vh import monitor, Skip, quiet
import tools21cm as t2c
from tools21cm import conv
import psref, gens


def grid(c, lo=4, hi=9):
    s = c.pick(["cube", "any", "any"]); n = c.int(lo, hi); sh = (n,) * 3 if s == "cube" else tuple(c.int(lo, hi) for _ in range(3))
    b = c.pick([c.logu(5, 300), c.int(10, 300), [c.logu(40, 90) for _ in sh]]); return sh, b


def data(c, sh):
    a, k = gens.field(c, sh)
    if c.coin(.4): a = a.astype(float) ** 2 + .3 * a
    return a


def triangles(F, k, box, k1, k2, k3, w1, w2, w3):
    """(sum of F F F, number) over wave-vector triples adding up to zero; None when a shell's membership is ambiguous or wraps."""
    sh = F.shape; L = psref.dims(box, 3); ms = np.stack(np.meshgrid(*[np.arange(n) - n // 2 for n in sh], indexing="ij"), -1)
    S = []
    for q, w in ((k1, w1), (k2, w2), (k3, w3)):
        d = np.abs(k - q)
        if np.any(np.abs(d - w / 2) < 1e-9 * k.max()): return None
        S.append(d < w / 2)
    # wrap-around (aliasing) excluded: the three largest components along an axis stay below the grid's sampling
    for ax in range(3):
        if sum(np.abs(ms[s][:, ax]).max() if s.any() else 0 for s in S) >= sh[ax]: return None
    A, B = ms[S[0]], ms[S[1]]; fa, fb = F[S[0]], F[S[1]]; tot, n, mag = 0., 0, 0.
    if not len(A) or not len(B): return 0., 0, 0.
    half = np.array([m // 2 for m in sh])
    for v, f in zip(A, fa):
        q = -(v + B) + half; ok = np.all((q >= 0) & (q < sh), 1); q, g = q[ok], fb[ok]; i = tuple(q.T); m = S[2][i]
        t = f * g[m] * F[i][m]; tot += t.sum(); n += int(m.sum()); mag += np.abs(t).sum()
    return tot.real, n, mag


def setup(c, hi=9):
    sh, box = grid(c, hi=hi); a = data(c, sh); k = psref.kmag(sh, box); F = np.fft.fftshift(np.fft.fftn(a.astype(float))); V = np.prod(psref.dims(box, 3)); return sh, box, a, k, F, V ** 2 / a.size ** 3


@monitor("shells", quick=750, thorough=5000, min_obs=400)
def shells(c):
    """One triangle configuration with its own three widths."""
    sh, box, a, k, F, nrm = setup(c); kf = 2 * np.pi / min(psref.dims(box, 3)); km = k.max() * .55; w = [c.uni(.3, 1.6) * kf for _ in range(3)]; q = [c.uni(0, km) for _ in range(3)]; same = c.pick(["none", "12", "13", "23", "all", "wide"])
    if same == "12": q[1] = q[0]
    if same == "13": q[2] = q[0]
    if same == "23": q[2] = q[1]
    if same in ("all", "wide"): q = [q[0]] * 3
    if same == "all" or c.coin(.4): w = [w[0]] * 3
    c.note(a=a, box=box, q=q, w=w); r = triangles(F, k, box, *q, *w)
    if r is None: raise Skip
    B = quiet(t2c.Bispectrum, a, box_dims=box, verbose=False); L = psref.dims(box, 3)
    g = c.call(B.bispectrum_fast, F, *q, *w, box_dims=L, k_mag=k)
    if r[1] == 0: c.true(np.isnan(g) or not np.isfinite(g), f"no closed triangle, yet {g}"); return
    c.close(g, r[0] / r[1] * nrm, f"average over {r[1]} closed triangles", rtol=0, atol=1e-8 * r[2] / r[1] * nrm + 1e-9 * np.abs(F).max() ** 3 * nrm * 1e-3 + 1e-300)
    # odd statistic, cubic in amplitude, permutation of the sides
    c.close(c.call(B.bispectrum_fast, -F, *q, *w, box_dims=L, k_mag=k), -g, "sign-flipped field", rtol=1e-9, atol=1e-300)
    p = c.rng.permutation(3); c.close(c.call(B.bispectrum_fast, F, *[q[i] for i in p], *[w[i] for i in p], box_dims=L, k_mag=k), g, "order of the sides", rtol=1e-9, atol=1e-9 * r[2] / r[1] * nrm + 1e-12 * np.abs(F).max() ** 3 * nrm)


def widths(c, box):
    kf = 2 * np.pi / min(psref.dims(box, 3)); return c.uni(.4, 1.7) * kf


@monitor("k1k2", quick=225, thorough=2000, min_obs=400)
def k1k2(c):
    sh, box, a, k, F, nrm = setup(c, hi=8); jobs = 2 if c.i % 40 == 7 else c.pick([1, 1, 0]); dk = widths(c, box); k1, k2 = c.uni(.5, 3) * dk, c.uni(.5, 3) * dk
    if c.coin(.3): k2 = k1
    nb = c.int(2, 5); bi = c.pick(["linear", "log"]); w = c.pick([None, None, "blackmanharris", "array"]); where = c.pick(["init", "call"]); c.note(a=a, box=box, dk=dk, k1=k1, k2=k2, nb=nb, bi=bi, w=w, where=where, jobs=jobs)
    x = a.astype(float); wn = w
    if w == "array": wn = c.rng.random(sh); x = x * wn
    elif w: from scipy.signal import windows; x = x * windows.blackmanharris(sh[2])
    F = np.fft.fftshift(np.fft.fftn(x))
    B = quiet(t2c.Bispectrum, a, box_dims=box if where == "init" else 17., verbose=False)
    o = c.call(B.bispectrum_k1k2, k1, k2, dk=dk, n_bins=nb, binning=bi, window=wn, n_jobs=jobs, verbose=c.coin(.2), **({} if where == "init" else dict(box_dims=box)))
    al = np.linspace(0, np.pi, nb) if bi == "linear" else 10 ** np.linspace(-2, np.log10(np.pi), nb); k3 = np.sqrt(np.maximum(k1 ** 2 + k2 ** 2 + 2 * k1 * k2 * np.cos(al), 0))
    c.close(o["alpha"], al, "angles"); c.close(o["theta"], np.pi - al, "inner angles", rtol=1e-12); c.close(o["k3"], k3, "third side", rtol=0, atol=1e-7 * k1); c.true(o["k1"] == k1 and o["k2"] == k2 and len(o["B"]) == nb, "sides")
    for i in range(nb):
        r = triangles(F, k, box, k1, k2, k3[i], dk, dk, dk)
        if r is None: continue
        if r[1] == 0: c.true(not np.isfinite(o["B"][i]), f"no closed triangle, yet {o['B'][i]}")
        else: c.close(o["B"][i], r[0] / r[1] * nrm, f"average over {r[1]} closed triangles", rtol=0, atol=1e-8 * r[2] / r[1] * nrm + 1e-12 * np.abs(F).max() ** 3 * nrm)


@monitor("equilateral", quick=225, thorough=2000, min_obs=200)
def equilateral(c):
    sh, box, a, k, F, nrm = setup(c, hi=9); jobs = 2 if c.i % 40 == 7 else 1; nb = c.int(1, 5); dk = c.pick([widths(c, box), [widths(c, box) for _ in range(nb)], 1]); bi = c.pick(["linear", "log"]); where = c.pick(["init", "call", "default"])
    if where == "default": quiet(t2c.set_sim_constants, c.pick([37, 64, 114])); box = conv.LB; k = psref.kmag(sh, box); nrm = box ** 6 / a.size ** 3
    c.note(a=a, box=box, dk=dk, nb=nb, bi=bi, where=where)
    B = quiet(t2c.Bispectrum, a, verbose=False, **(dict(box_dims=box) if where == "init" else dict(box_dims=17.) if where == "call" else {}))
    o = c.call(B.bispectrum_k, dk=np.array(dk) if isinstance(dk, list) else dk, n_bins=nb, binning=bi, n_jobs=jobs, verbose=c.coin(.2), **(dict(box_dims=box) if where == "call" else {}))
    lo, hi = 2 * np.pi / min(psref.dims(box, 3)), k.max() / 2; e = (np.linspace if bi == "linear" else np.geomspace)(lo, hi, nb + 1); ks = (e[1:] + e[:-1]) / 2; c.close(o["k"], ks, "wave numbers", rtol=1e-9)
    for i in range(nb):
        d = dk[i] if isinstance(dk, list) else dk; r = triangles(F, k, box, *[ks[i]] * 3, d, d, d)
        if r is None: continue
        if r[1] == 0: c.true(not np.isfinite(o["B"][i]), f"no closed triangle, yet {o['B'][i]}")
        else: c.close(o["B"][i], r[0] / r[1] * nrm, f"equilateral average over {r[1]} triangles", rtol=0, atol=1e-8 * r[2] / r[1] * nrm + 1e-12 * np.abs(F).max() ** 3 * nrm)


@monitor("waves", quick=150, thorough=1000, min_obs=150)
def waves(c):
    """Three plane waves that close give their product of amplitudes; two give nothing; shifts change nothing."""
    n = c.int(9, 14); L = c.logu(20, 300); sh = (n,) * 3; u, v = [np.array([c.int(-1, 1) for _ in range(3)]) for _ in range(2)]; t = -(u + v)
    if any(not x.any() for x in (u, v, t)) or len({tuple(np.sort(np.abs(x))) for x in (u, v, t)}) < 1: raise Skip
    ix = np.indices(sh); A = [c.uni(.5, 3) for _ in range(3)]; ph = [c.uni(0, 6) for _ in range(3)]; c.note(n=n, L=L, u=u, v=v, A=A, ph=ph)
    a = sum(x * np.cos(2 * np.pi * np.tensordot(m, ix, (0, 0)) / n + p) for x, m, p in zip(A, (u, v, t), ph)); kf = 2 * np.pi / L; q = [kf * np.sqrt((m ** 2).sum()) for m in (u, v, t)]
    k = psref.kmag(sh, L); w = .05 * kf; F = np.fft.fftshift(np.fft.fftn(a)); B = quiet(t2c.Bispectrum, a, box_dims=L, verbose=False); g = c.call(B.bispectrum_fast, F, *q, w, w, w, box_dims=[L] * 3, k_mag=k)
    r = triangles(F, k, L, *q, w, w, w); c.close(g, r[0] / r[1] * L ** 6 / a.size ** 3, "closed plane waves", rtol=1e-8, atol=1e-8 * r[2] / r[1] * L ** 6 / a.size ** 3)
    s = np.roll(a, [c.int(0, n) for _ in range(3)], (0, 1, 2)); c.close(c.call(B.bispectrum_fast, np.fft.fftshift(np.fft.fftn(s)), *q, w, w, w, box_dims=[L] * 3, k_mag=k), g, "cyclic shift", rtol=1e-8, atol=1e-8 * r[2] / r[1] * L ** 6 / a.size ** 3)
    m = c.call(B.spherical_shell_mask, sh, q[0], w, k_mag=k); c.equal(m > 0, np.abs(k - q[0]) < w / 2, "shell mask"); c.equal(c.call(B.spherical_shell_mask, sh, q[0], w, k_comp=psref.kcomp(sh, L)), m, "shell mask from components")


@monitor("subvolumes", quick=450, thorough=4000, min_obs=500)
def subvolumes(c):
    cuts = c.int(1, 3); sh = tuple(cuts * c.int(2, 5) for _ in range(3)); box = c.pick([c.logu(10, 500), c.logu(10, 500), [c.logu(50, 200) for _ in sh]]); kb = c.int(2, 8); bi = c.pick(["log", "linear"]); a = c.rng.normal(size=sh) + c.uni(-1, 1); b = c.rng.normal(size=sh) * c.logu(.1, 10) + c.uni(-1, 1); f = c.pick(["cross", "cross", "auto", "response", "response2"]); c.note(a=a, b=b, box=box, kb=kb, bi=bi, cuts=cuts, f=f)
    if f in ("auto", "response"): b = a
    kw = dict(Ncuts=cuts, kbins=kb, box_dims=box, binning=bi, verbose=np.ndim(box) == 0 and c.coin(.2)); nm = c.coin()
    if f == "cross": o, ks = c.call(t2c.integrated_bispectrum_cross, a, b, normalize=nm, **kw)
    elif f == "auto": o, ks = c.call(t2c.integrated_bispectrum, a, normalize=nm, **kw)
    else: nm = True; o, ks = c.call(t2c.power_spectrum_response, a, *(() if f == "response" else (b,)), **kw)
    bl = [n // cuts for n in sh]; P = []; M = []
    for i in np.ndindex((cuts,) * 3):
        s = tuple(slice(q * l, (q + 1) * l) for q, l in zip(i, bl)); x = np.zeros(sh); x[s] = a[s]; p, kr = quiet(t2c.power_spectrum_1d, x, kbins=kb, box_dims=box, binning=bi); P.append(p); M.append(b[s].mean())
    P, M = np.array(P), np.array(M); ref = (P * M[:, None]).mean(0)
    with np.errstate(all="ignore"): ref = ref / P.mean(0) / (M ** 2).mean() if nm else ref
    c.close(ks, kr, "wave numbers of the sub-volume spectra", rtol=1e-12); m = np.isfinite(ref); c.close(np.asarray(o)[m], ref[m], "mean product of sub-volume power and sub-volume mean", rtol=1e-8)
    c.equal(np.isfinite(o), m, "empty bins")
    if f != "response": pass
    if not nm: s = c.uni(.5, 3); o2, _ = c.call(t2c.integrated_bispectrum_cross, s * a, -s * b, normalize=False, **kw); c.close(np.asarray(o2)[m], -s ** 3 * np.asarray(o)[m], "odd and cubic", rtol=1e-8)
    if np.ptp(sh) or cuts == 1: return
    q = c.rng.permutation(3)
    if np.ndim(box) == 0: o3, _ = c.call(t2c.integrated_bispectrum_cross, a.transpose(q), b.transpose(q), normalize=nm, **kw); c.close(np.asarray(o3)[m], np.asarray(o)[m], "axes exchanged", rtol=1e-6, atol=1e-8 * np.abs(np.asarray(o)[m]).max() if m.any() else 0)


@monitor("subvolume_errors", quick=30, thorough=100, min_obs=10)
def suberr(c):
    n = c.int(4, 9); k = c.int(2, 5)
    if n % k == 0: c.raises(t2c.integrated_bispectrum_cross, np.ones((n,) * 3), np.ones((n, n, n + 1)), Ncuts=k, verbose=False, what="different shapes")
    else: c.raises(t2c.integrated_bispectrum_cross, np.ones((n,) * 3), np.ones((n,) * 3), Ncuts=k, verbose=False, what="cuts that do not divide the grid")
