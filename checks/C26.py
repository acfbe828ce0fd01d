"""C26: wedge removal from light-cones against a per-channel double-precision restatement, plus its own invariants."""
import numpy as np
from scipy.integrate import quad
from vh import monitor, Skip
import cosmoref as K
import tools21cm as t2c
from tools21cm import const, conv, foreground_model as fm


def slope(z, Om):
    """k_par/k_perp of the horizon at redshift z, flat LCDM: D_c(z) H(z) / (c (1+z))"""
    E = lambda x: np.sqrt(Om * (1 + x) ** 3 + 1 - Om)
    return E(z) / (1 + z) * quad(lambda x: 1 / E(x), 0, z, epsrel=1e-10)[0]


def window(n, thr):
    B = np.blackman(n); p = np.abs(np.fft.fft(B)) ** 2; w = np.flatnonzero(p / p.max() <= thr)
    return B, (w[0] - 1 if w.size else None), p / p.max()


def model(lc, z, d, n, Om, thr):
    """-> cleaned light-cone and, per channel, how much the modes within rounding of the wedge's edge could add"""
    N, _, nz = lc.shape; B, m, _ = window(n, thr); dk = 1 / (n * d)
    F = np.fft.fft2(lc, axes=(0, 1)); P = np.concatenate([np.zeros((N, N, n)), F, np.zeros((N, N, n))], 2)
    k = np.fft.fftfreq(N, d); kperp = np.sqrt(k[:, None] ** 2 + k[None] ** 2)[:, :, None]; kpar = np.fft.fftfreq(n, d)[None, None]
    out = np.empty(lc.shape); amb = np.zeros(nz)
    for c in range(nz):
        a = c + n - n // 2; G = np.fft.fft(P[:, :, a:a + n] * B, axis=2)
        edge = kperp * slope(z[min(c + n - n // 2 - 1, nz - 1)], Om) + m * dk
        with np.errstate(all="ignore"): r = np.abs(kpar) / edge
        close = np.abs(r - 1) < 2e-5; r = np.where(np.isnan(r), 0, r)
        out[:, :, c] = np.fft.ifftn(G * ((r > 1) & ~close)).real[:, :, n // 2]; amb[c] = np.abs(G * close).sum() / G.size
    return out, amb


def case(c, odd=True):
    N = c.size(2, 14, 40); nz = c.size(3, 24, 60); n = c.int(3, 16)
    if not odd: n += n % 2
    thr = c.pick([1e-1, 3e-2, 1e-3, 1e-4, 1e-6, 1e-10]); d = c.logu(.1, 20); Om = c.pick([None, c.uni(.1, .6)])
    B, m, p = window(n, thr)
    if m is None or np.any(np.abs(p / thr - 1) < 1e-4): raise Skip
    z0 = c.uni(5, 20); z = z0 + np.arange(nz) * c.uni(.005, .2)
    if c.coin(.2): z = z[::-1].copy()
    if c.coin(.5): z = 5 + np.cumsum(c.rng.uniform(.1, 4, nz)); z = z if c.coin(.7) else c.rng.permutation(z)   # the slope changes much from channel to channel
    lc = c.rng.normal(size=(N, N, nz)) * c.logu(1e-3, 1e3)
    if c.coin(.3): lc = lc.astype("f4")
    return N, nz, n, thr, d, Om, z, lc, m


@monitor("rolling", quick=300, thorough=3000, min_obs=200)
def rolling(c):
    N, nz, n, thr, d, Om, z, lc, m = case(c); kw = dict(cell_size=d, chunk_length=n, buffer_threshold=thr)
    if Om is not None: kw["OMm"] = Om
    K.random_cosmology(c, t2c)
    dflt = c.coin(.3)
    if dflt and N >= 3 and N <= nz:
        B, m, p = window(N, thr)
        if m is not None and not np.any(np.abs(p / thr - 1) < 1e-4): n = N; kw.pop("chunk_length")
    if c.coin(.5): lc = lc - lc.mean((0, 1))
    c.note(N=N, nz=nz, n=n, thr=thr, d=d, Om=Om, z=z, lc=lc)
    g = c.call(t2c.rolling_wedge_removal_lightcone, lc, z, **kw)
    w, amb = model(lc.astype(float), z.astype("f4").astype(float), d, n, const.Omega0 if Om is None else Om, thr)
    S = np.abs(lc).max(); c.true(g.shape == lc.shape and np.isrealobj(g), f"a real light-cone of the same shape, got {g.dtype}{g.shape}")
    e = np.abs(g - w).max((0, 1)); i = int(np.argmax(e - amb)); c.true(e[i] <= amb[i] + 2e-5 * S * np.sqrt(N), f"cleaned channel {i}: differs from the modes outside the wedge by {e[i]:.3g} (field {S:.3g}, edge modes {amb[i]:.3g})")


@monitor("removal", quick=120, thorough=1200, min_obs=200)
def removal(c):
    """what must vanish, what must survive, and what may influence a channel"""
    N = c.int(3, 7); n = 2 * c.int(4, 10); nz = n + c.int(2, 12); d = c.uni(1, 8); z = c.uni(6, 12) + np.arange(nz) * c.uni(.005, .05); thr = 1e-3; m = window(n, thr)[1]
    kw = dict(cell_size=d, chunk_length=n, buffer_threshold=thr, OMm=c.uni(.2, .4)); c.note(N=N, n=n, nz=nz, d=d, z=z, kw=str(kw)); f = lambda x: c.call(t2c.rolling_wedge_removal_lightcone, x, z, **kw).astype(float)
    core = slice(n // 2, nz - n // 2 + 1); T = c.rng.normal(size=(N, N, 1)); flat = np.repeat(T, nz, 2); S = np.abs(T).max()
    r = f(flat); c.true(np.abs(r[:, :, core]).max() <= .08 * S, f"spectrally flat foreground: {np.abs(r[:, :, core]).max() / S:.3g} of it is left")
    # a mode far outside the wedge: no transverse structure, Nyquist frequency along the line of sight
    ny = np.broadcast_to((-1.) ** np.arange(nz), (N, N, nz)).copy()
    if m + 3 < n // 2:
        q = f(ny); B = np.blackman(n)[n // 2]; c.close(q[:, :, core], ny[:, :, core] * B, "a mode outside the wedge survives", rtol=0, atol=.05)
    # linear
    a, b = c.rng.normal(size=(N, N, nz)), c.rng.normal(size=(N, N, nz)); s = c.uni(-3, 3); ga, gb = f(a), f(b); tol = 1e-4 * (1 + abs(s)) * np.abs(a).max()
    c.close(f(s * a + b), s * ga + gb, "linear in the light-cone", rtol=0, atol=tol)
    # local: channels further than half a chunk away cannot matter
    j = c.int(0, nz - 1); b = a.copy(); b[:, :, j] += 10 * c.rng.normal(size=(N, N)); gb = f(b); far = np.abs(np.arange(nz) - j) > n // 2
    c.close(gb[:, :, far], ga[:, :, far], "local along the line of sight", rtol=0, atol=tol)
    # equivariant under periodic shifts and transposition of the sky
    sh = (c.int(0, N - 1), c.int(0, N - 1)); c.close(f(np.roll(a, sh, (0, 1))), np.roll(ga, sh, (0, 1)), "follows a shift of the sky", rtol=0, atol=tol); c.close(f(a.transpose(1, 0, 2).copy()), ga.transpose(1, 0, 2), "follows a transposition of the sky", rtol=0, atol=tol)
    # cleaning a coarser grid: only the ratio of the frequencies matters
    kw["cell_size"] = d * 3; c.close(f(a), ga, "independent of the unit of length", rtol=0, atol=20 * tol) if not _edge(N, n, z, kw["OMm"], m) else None


def _edge(N, n, z, Om, m):
    k = np.fft.fftfreq(N); kp = np.sqrt(k[:, None] ** 2 + k[None] ** 2).ravel(); q = np.abs(np.fft.fftfreq(n))
    return any(np.any(np.abs(q[None] - (kp * slope(x, Om) + m / n)[:, None]) < 1e-5) for x in z)


@monitor("image", quick=150, thorough=1000, min_obs=300)
def image(c):
    sh = tuple(c.size(2, 9, 40) for _ in range(3)); x = c.rng.normal(size=sh); F = (c.rng.random(sh) < .5).astype(float)
    k = [np.fft.fftshift(np.fft.fftfreq(s)) for s in sh]; q = np.sqrt(k[0][:, None, None] ** 2 + k[1][None, :, None] ** 2)
    if c.coin(): F = (q + 0 * F > np.abs(k[2])[None, None] * c.uni(.2, 3)).astype(float)
    sym = np.allclose(F, np.fft.fftshift(np.fft.ifftshift(F)[np.ix_(*[-np.arange(s) % s for s in sh])]))
    c.note(sh=sh, x=x, F=F, sym=sym); g = c.call(t2c.remove_wedge_image, x, c.uni(6, 12), filt=F)
    H = np.fft.ifftshift(F); H = (H + H[np.ix_(*[-np.arange(s) % s for s in sh])]) / 2; X = np.fft.fftn(x)
    c.close(np.fft.fftn(g), X * H, "every mode is multiplied by its filter value (zero frequency in the centre)", rtol=0, atol=1e-9 * np.abs(X).max()); c.true(np.isrealobj(g), "the image is real")
    if sym: c.close(t2c.remove_wedge_image(g, 8., filt=F), g, "a 0/1 filter applied twice changes nothing more", rtol=0, atol=1e-9)
    c.close(t2c.remove_wedge_image(x, 8., filt=np.ones(sh)), x, "the all-pass filter returns the image", rtol=0, atol=1e-9)


@monitor("filters", quick=80, thorough=400, min_obs=150)
def filters(c):
    n = c.size(2, 12, 48); L = c.logu(10, 1000); z = c.uni(5, 20); short = c.coin(.4) and n > 2; nz = c.int(1, n - 1) if short else n; kw = dict(boxsize=L) if c.coin(.8) else {}
    kc = np.abs(np.fft.fftshift(np.fft.fftfreq(n, (L if kw else conv.LB) / n))) * 2 * np.pi; cut = c.uni(0, 1.2) * kc.max(); fk = c.pick(["step", "sigmoid"])
    src = dict(array=np.zeros((n, n, nz))) if short or c.coin() else dict(ncells=n); c.note(n=n, L=L, z=z, nz=nz, cut=cut, src=str(list(src)), kw=str(kw))
    b = np.asarray(c.call(fm.barrel_filter, z, k_par_min=cut, **src, **kw)); mu = c.uni(.1, .9); g = np.asarray(c.call(fm.diabolo_filter, z, mu=mu, funct=fk, **src, **kw))
    q = np.sqrt(kc[:, None] ** 2 + kc[None] ** 2); dk = 2 * np.pi / (L if kw else conv.LB) * 1.5      # the filters' own grid may sit half a cell off
    for F, nm in ((b, "barrel"), (g, "diabolo")):
        c.true(F.shape == (n, n, nz), f"{nm} filter for {(n, n, nz)} cells has shape {F.shape}"); c.true(np.all((F >= 0) & (F <= 1)), f"{nm} filter between 0 and 1"); c.close(F, F.transpose(1, 0, 2), f"{nm} filter treats both sky axes alike", rtol=0, atol=1e-12)
    if (n - nz) % 2 == 0: c.close(g, g[:, :, ::-1], "diabolo filter treats modes and their mirror along the line of sight alike", rtol=0, atol=1e-9)
    if nz == n:   # the cone |k_par| (1-mu^2)/mu, and the smallest wave number across the sky
        s = (1 - mu ** 2) / mu; edge = np.maximum(kc[None, None] * s + dk * s, np.pi / (t2c.z_to_cdist(z) * .21 / 40)); low = np.maximum(kc[None, None] * s - dk * s, np.pi / (t2c.z_to_cdist(z) * .21 / 40)); Q = q[:, :, None] + 0 * kc
        c.true(np.all(g[Q > edge + dk] >= .5), "diabolo filter keeps modes outside the cone"); c.true(np.all(g[Q < low - dk] <= .5), "diabolo filter removes modes inside the cone")
        if fk == "step": c.true(np.isin(g, (0, 1)).all(), "step filter keeps or removes"); c.true(np.all(g[Q > edge + dk] == 1), "step filter keeps modes outside the cone"); c.true(np.all(g[Q < low - dk] == 0), "step filter removes modes inside the cone")
    far, near = q > cut + dk, q < cut - dk
    c.true(np.all(b[far] == 1), "barrel filter keeps every mode beyond the cut"); c.true(np.all(b[near] == 0), "barrel filter removes every mode below the cut"); c.true(np.all(b == b[:, :, :1]), "barrel filter does not depend on k_par")
    x = c.rng.normal(size=(n, n, nz)); y = c.call(t2c.remove_wedge_image, x, z, **kw) if nz == n else x
    if nz == n:
        mk = c.pick([{}, dict(mu=c.uni(.1, .9)), dict(funct=fk), dict(mu=c.uni(.1, .9), funct=fk)])
        c.close(c.call(t2c.remove_wedge_image, x, z, **mk, **kw), t2c.remove_wedge_image(x, z, filt=fm.diabolo_filter(z, array=x, **mk, **kw)), "the filter made when none is given is that of the same box and settings", rtol=0, atol=1e-12)
    c.true(np.isrealobj(y) and y.shape == x.shape and (y ** 2).sum() <= (x ** 2).sum() * (1 + 1e-9), "filtering never adds power")
