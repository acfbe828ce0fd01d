"""C19: telescope sensitivity, thermal noise and instrument response, against formulas and ensembles of noise maps."""
import os, time
import numpy as np
import astropy.units as u
from scipy.signal import windows
from vh import monitor, Skip, quiet
import tools21cm as t2c
from tools21cm import conv, const, radio_telescope_noise as rn, radio_telescope_sensitivity as rs, smoothing as sm
import cosmoref as K
rn.sleep = lambda s: None

KB = 1.380649e-23


def cosmo(c):
    om, h = K.random_cosmology(c, t2c, .5)
    if c.coin(.4): t2c.set_sim_constants(c.pick([37, 64, 114, 244, 425]))
    return om, h


def sky(c):
    """Kwargs of the system and the SEFD they stand for (Jy), as a function of frequency in MHz."""
    k = c.pick(["default", "default", "numbers", "functions", "table", "SKA1", "dish"]); kw = {}; T = lambda nu: 60 * (300 / nu) ** 2.55 + 100; ep = lambda nu: np.where(nu > 110., (110 / nu) ** 2, 1.); D = 40.
    if k == "numbers": a, b = c.pick([c.uni(50, 2000), 300]), c.pick([c.uni(.2, 1), 1]); kw = dict(T_sys=a, ep_aperture=b); T = lambda nu: a + 0 * nu; ep = lambda nu: b + 0 * nu
    if k == "functions": a = c.uni(1, 3); T = lambda nu: 100 + 50 * (200 / nu) ** a; ep = lambda nu: .5 + 20 / nu; kw = dict(T_sys=T, ep_aperture=ep)
    if k == "dish":
        D = c.pick([35., 38, 12.5]); kw = dict(D_station=D)
        if c.coin(): a = c.uni(50, 2000); kw["T_sys"] = a; T = lambda nu: a + 0 * nu
    if k == "table": n = c.int(2, 9); nu = np.sort(c.rng.uniform(50, 350, n)); s = np.exp(c.rng.normal(8, 1, n)); kw = dict(sefd_data=s, nu_data=nu)
    if k == "SKA1": t = np.loadtxt(os.path.join(os.path.dirname(rs.__file__), "input_data", "SEFD_SKAO-TEL-0000818-V2_SKA1.txt")); nu, s = t[:, 0], t[:, 2]; kw = dict(sefd_data="SKA1-Low")
    if k in ("table", "SKA1"):
        def f(q):
            q = np.asarray(q, float); i = np.clip(np.searchsorted(nu, q) - 1, 0, len(nu) - 2); w = (q - nu[i]) / (nu[i + 1] - nu[i]); l = np.log(s); return np.exp(l[i] * (1 - w) + l[i + 1] * w)
    else: f = lambda q: 2 * KB * T(np.asarray(q, float)) / (ep(np.asarray(q, float)) * np.pi * D ** 2 / 4) * 1e26
    return k, kw, f


def rms(f, z, depth, dt): return 1e6 * float(f(1420. / (1 + z))) / np.sqrt(2 * depth * 1e6 * dt)


def coverage(c, n):
    """Point-symmetric uv map in FFT order."""
    k = c.pick(["poisson", "sparse", "full", "frac", "asym", "int"]); m = c.rng.poisson(3, (n, n)).astype(float)
    if k == "sparse": m *= c.rng.random((n, n)) < .2
    if k == "full": m += 1
    if k == "frac": m = c.rng.random((n, n)) * c.rng.integers(0, 2, (n, n)) * 4
    if k == "int": m = m.astype(int)
    if k != "asym": m = m + np.roll(np.flip(m), 1, (0, 1))
    if c.coin(.7): m[0, 0] = 0
    if not m.any(): m[1, 1] = m[-1, -1] = 1
    return k, m


@monitor("sefd", quick=600, thorough=4000, min_obs=600)
def sefd(c):
    k, kw, f = sky(c); form = c.pick(["float", "int", "array", "one"]); nu = c.rng.uniform(60, 330, c.int(2, 6)); nu = {"float": float(nu[0]), "int": int(nu[0]), "array": nu, "one": nu[:1]}[form]; c.note(k=k, nu=nu)
    r = c.call(rs.get_SEFD, nu, **kw); c.close(np.asarray(r, float).ravel(), np.atleast_1d(f(nu)), "system equivalent flux density", rtol=1e-9)
    c.true(np.shape(r) == np.shape(nu) or np.size(nu) == 1, "one value per frequency")
    z, d, T, dt = c.pick([c.uni(5, 20), c.int(6, 15)]), c.logu(.01, 20), c.logu(1, 5000), c.logu(1, 1000); N = c.int(2, 600); w = rms(f, float(z), d, dt)
    s, r = c.call(rs.sigma_noise_radio, z, d, T, dt, N_ant=N, verbose=c.coin(.2), uv_map=None, **kw); c.close(float(r), w, "rms per visibility: SEFD over sqrt(2 bandwidth time)", rtol=1e-9)
    c.close(float(s), w / np.sqrt(N * (N - 1) / 2) / np.sqrt(3600 * T / dt), "image rms of uniformly spread antennas", rtol=1e-9)
    q = c.logu(.1, 10); c.close(float(c.call(rs.sigma_noise_radio, z, d * q, T, dt, N_ant=N, verbose=False, **kw)[1]), w / np.sqrt(q), "falls with the square root of bandwidth", rtol=1e-9); s2, r2 = c.call(rs.sigma_noise_radio, z, d, T * q, dt * q, N_ant=N, verbose=False, **kw); c.close(float(r2), w / np.sqrt(q), "... and of integration time", rtol=1e-9)
    c.close(float(s2), float(s) / np.sqrt(q), "... and of observing time", rtol=1e-9)


@monitor("flux", quick=600, thorough=4000, min_obs=750)
def flux(c):
    om, h = cosmo(c); z = c.pick([c.uni(5, 20), c.int(6, 15), np.float32(8)]); box = c.pick([None, c.logu(20, 1000)]); sh = c.pick([(8,), (6, 6), (5, 5, 5), (4, 7)]); x = c.rng.normal(size=sh) * c.logu(1e-3, 1e3); nc = c.pick([None, c.int(2, 300)]); c.note(om=om, h=h, z=z, box=box, sh=sh, nc=nc, x=x)
    if c.coin(.2): x = x.astype("f4")
    kw = {} if box is None else dict(boxsize=box); th = (box or conv.LB) / K.cdist(float(z), om, h)[0]; n = nc or sh[0]; nu = const.nu0 / (1 + float(z)) * 1e6; f = 2 * KB / 2.99792458e8 ** 2 * 1e26 * nu ** 2 * 1e3 * (th / n) ** 2
    c.close(c.call(rs.kelvin_jansky_conversion, n, z, **kw), f, "conversion factor 2 k nu^2 / c^2 per pixel", rtol=2e-6)
    if nc: kw["ncells"] = nc
    j = c.call(t2c.kelvin_2_jansky, x, z, **kw); c.close(j, x.astype(float) * f, "temperature to flux", rtol=3e-6); k = c.call(t2c.jansky_2_kelvin, x, z, **kw); c.close(k, x.astype(float) / f, "flux to temperature", rtol=3e-6)
    c.close(c.call(t2c.jansky_2_kelvin, j, z, **kw), x, "there and back", rtol=1e-5 if x.dtype == np.float32 else 1e-12); c.close(c.call(t2c.kelvin_2_jansky, k, z, **kw), x, "back and there", rtol=1e-5 if x.dtype == np.float32 else 1e-12)


@monitor("response", quick=600, thorough=4000, min_obs=750)
def response(c):
    n = c.pick([4, 6, 8, 9, 16]); ck, m = coverage(c, n); x, y = c.rng.normal(size=(n, n)), c.rng.normal(size=(n, n)); a = c.uni(-3, 3); c.note(n=n, ck=ck, m=m, x=x)
    r = c.call(rn.apply_uv_response_on_image, x, m); c.close(r, np.fft.ifft2(np.fft.fft2(x) * (m > 0)).real, "sampled modes kept, others dropped", rtol=1e-9)
    c.close(c.call(rn.apply_uv_response_on_image, x + a * y, m), r + a * quiet(rn.apply_uv_response_on_image, y, m), "linear", rtol=1e-9, atol=1e-9)
    c.close(c.call(rn.apply_uv_response_on_image, x, m * c.uni(.1, 10)), r, "only whether a cell is sampled matters", rtol=1e-9, atol=1e-12)
    if ck != "asym": c.close(c.call(rn.apply_uv_response_on_image, r, m), r, "idempotent", rtol=1e-9, atol=1e-9); F = np.fft.fft2(r); c.true(np.abs(F[m == 0]).max(initial=0) < 1e-9 * n * n, "no power in unsampled modes"); c.close(F[m > 0], np.fft.fft2(x)[m > 0], "sampled modes unchanged", rtol=1e-9, atol=1e-9)
    c.close(c.call(rn.apply_uv_response_on_image, x, np.ones((n, n))), x, "complete coverage changes nothing", rtol=0, atol=1e-12)
    c.close(c.call(rs.apply_uv_response, x + 1j * y, m * 1e-5), np.where(m > 0, (x + 1j * y) / np.sqrt(np.where(m > 0, m * 1e-5, 1)), 0), "visibilities over the square root of however small counts", rtol=1e-9)
    q = c.rng.normal(size=(n, n, c.pick([n, n, c.int(1, 2 * n)]))); z = c.uni(6, 12); c.close(c.call(rn.apply_uv_response_on_coeval, q, z, uv_map=m), np.fft.ifft2(np.fft.fft2(q, axes=(0, 1)) * (m > 0)[:, :, None], axes=(0, 1)).real, "each slice of a cube", rtol=1e-9)
    cx = x + 1j * y; w = np.where(m > 0, cx / np.sqrt(np.where(m > 0, m, 1)), 0); c.close(c.call(rs.apply_uv_response, cx, m), w, "visibilities over the square root of the counts", rtol=1e-9)
    sel = m >= .01; c.close(c.call(rn.apply_uv_response_noise, cx, m, uv_weighting=c.pick(["natural", "nat", "Natural_weighting"])), np.where(sel, w, 0), "natural weighting", rtol=1e-9); c.close(c.call(rn.apply_uv_response_noise, cx, m, uv_weighting=c.pick(["uniform", "uni"])), np.where(sel, cx, 0), "uniform weighting", rtol=1e-9)
    b = c.call(rn.apply_uv_response_noise_briggs, cx, m, robust=c.uni(-2, 2)); c.true(not b[m == 0].any() and np.all(np.isfinite(b)), "Briggs weighting: unsampled cells empty")
    sl = m >= .01; q = m[sl]; w = {R: np.abs(c.call(rn.apply_uv_response_noise_briggs, np.ones((n, n)), m, robust=R))[sl] for R in (-2., c.uni(-2, 2), 2.)}
    if sl.any():
        pad = np.zeros((n + 3, n + 3)); pad[:n, :n] = m; v = c.call(rn.apply_uv_response_noise_briggs, np.ones(pad.shape), pad, robust=sorted(w)[1]); c.close(np.abs(v[:n, :n][sl]), w[sorted(w)[1]], "Briggs weights are those of the sampled cells alone", rtol=1e-6)
        t = np.maximum(1, q / q.mean()); R = sorted(w); c.true(np.all(np.abs(w[2.] * np.sqrt(q) - 1) < 2e-3 * t + 1e-3), "Briggs weighting with robust=2: natural"); o = np.argsort(q)
        c.true(np.all(np.abs(w[-2.] / np.median(w[-2.]) - 1) < 2e-3 * (1 + q.mean() / q + q.mean() / np.median(q))), "Briggs weighting with robust=-2: uniform"); f = w[R[1]][o]; c.true(np.all(np.diff(f) <= 1e-9 * f[:-1]) and np.all(np.diff(f * np.sqrt(q[o])) >= -1e-3 * f[:-1] * np.sqrt(q[o])[:-1]), "Briggs weighting between natural and uniform")
    # de-noising a light-cone by its own coverage
    L = c.rng.normal(size=(n, n, 3)); B = np.stack([m, m * c.rng.integers(0, 2), m + 1], -1); t = float(c.pick([0., 1., 2.5])); c.close(c.call(t2c.smooth_lightcone_uv_threshold, L, B, t), np.fft.ifft2(np.fft.fft2(L, axes=(0, 1)) * (B >= t), axes=(0, 1)).real, "modes below the threshold dropped", rtol=1e-9, atol=1e-12)


@monitor("baseline_cut", quick=450, thorough=3000, min_obs=150)
def baseline_cut(c):
    om, h = cosmo(c); n = c.pick([8, 9, 16, 24]); ck, m = coverage(c, n); z = c.uni(6, 15); box = c.pick([None, c.logu(50, 600)]); L = box or conv.LB; d = K.cdist(z, om, h)[0]; f = np.fft.fftfreq(n, 1 / n); R = np.hypot(f[:, None], f[None]); kc = c.uni(.5, n * .6); b = kc * (1 + z) * 21e-5 * d / L; mb = c.pick([b, b * u.km, b * 1e3 * u.m]); c.note(om=om, h=h, n=n, ck=ck, z=z, box=box, b=b, m=m)
    if np.abs(R - kc).min() < 1e-4 * kc: raise Skip
    W = np.where((R <= kc) & (R > 0), m, 0); kw = {} if box is None else dict(box_size_mpc=box); c.close(c.call(sm.remove_baselines_from_uvmap, m, z, max_baseline=mb, **kw), W, "exactly the baselines up to the longest kept", rtol=1e-12)
    x = c.rng.normal(size=(n, n)); k = m if c.coin() or not W.any() else W; a = dict(uv_map=m, z=z, **kw)
    if k is W: a["max_baseline"] = mb
    c.close(c.call(sm.convolve_uvmap, x, **a), np.fft.ifft2(np.fft.fft2(x) * k / k.max()).real, "image convolved with the uv coverage", rtol=1e-9)
    if W.any() and c.i % 3 == 0:
        q = c.rng.normal(size=(n, n, n)); ax = c.pick([0, 1, 2]); ratio = c.uni(.3, 1); w = b and (1 + z) * 21e-5 / b * d * n / L * ratio; t = quiet(t2c.smooth_coeval_tophat, q, w, nu_axis=ax, verbose=False); t = np.moveaxis(t, ax, 2) if ax == 2 else np.swapaxes(t, ax, 2)
        want = np.fft.ifft2(np.fft.fft2(t, axes=(0, 1)) * (W / W.max())[:, :, None], axes=(0, 1)).real; want = np.swapaxes(want, ax, 2); c.close(c.call(sm.convolve_uvmap_coeval, q, z, max_baseline=mb, ratio=ratio, nu_axis=ax, uv_map=m, verbose=False, **kw), want, "coeval cube: coverage across, top-hat along the frequency axis", rtol=1e-8)
    if c.coin(.15):
        um = quiet(rn.get_uv_map, n, z, boxsize=L, total_int_time=1., int_time=600., subarray_type="AA4" if c.coin(.0) else "AA4", verbose=False)[0] if c.coin(.03) else None
        if um is not None and um.any(): c.close(c.call(sm.convolve_uvmap, x, z=z, total_int_time=1., int_time=600., verbose=False, **kw), np.fft.ifft2(np.fft.fft2(x) * um / um.max()).real, "coverage made when none is given", rtol=1e-6)


def expected(m, r, dt, T, weight, n):
    """Ensemble mean of |F|^2 of the real image per Fourier cell."""
    win = np.fft.ifftshift(np.outer(windows.blackmanharris(n), windows.blackmanharris(n))); m = np.asarray(m, float)
    s2 = np.where(m >= .01, r ** 2 * (1 / np.where(m >= .01, m, 1) if weight == "natural" else 1.), 0) * win ** 2 * dt / 3600 / T
    return (s2 + np.roll(np.flip(s2), 1, (0, 1))) / 2, s2


def judge(c, P, M, E, what):
    """P: sum over M draws of |F|^2; E: expected mean.  |F|^2/E is at worst chi^2_1, so the mean has relative sd sqrt(2/M)."""
    z = E > 1e-12 * E.max(); c.true(np.all(P[~z] <= 1e-9 * M * E.max() + 1e-300), f"{what}: noise in unsampled uv cells"); q = P[z] / M / E[z]; sd = np.sqrt(2 / M); n = q.size
    c.true(abs(q.mean() - 1) < 7 * sd * np.sqrt(2 / n), f"{what}: variance {q.mean():.4f} times the expected one over {n} cells and {M} maps")
    c.true(q.max() < 1 + 9 * sd + 40 / M and q.min() > 1 - 7 * sd, f"{what}: variance of single cells between {q.min():.3f} and {q.max():.3f} of the expected")


@monitor("noise_map", quick=90, thorough=800, min_obs=100)
def noise_map(c):
    cosmo(c); n = c.pick([8, 12, 16, 9, 15]); ck, m = coverage(c, n); k, kw, f = sky(c); z = c.uni(6, 15); d, T, dt = c.logu(.05, 5), c.logu(10, 3000), c.pick([10., 60.]); w = c.pick(["natural", "natural", "uniform"]); M = 300; c.note(n=n, ck=ck, k=k, z=z, d=d, T=T, dt=dt, w=w, m=m)
    np.random.seed(c.int(0, 2 ** 31)); P = 0; prev = None; kw.update(subarray_type="AA0.5", uv_map=m, int_time=dt, verbose=False, boxsize=100., obs_time=T)
    if w != "natural": kw["uv_weighting"] = w
    for i in range(M):
        x = (c.call if i < 2 else quiet)(rn.noise_map, n, z, d, **kw)
        if i == 0: c.true(x.shape == (n, n) and np.isrealobj(x) and np.all(np.isfinite(x)), "a real map")
        if i == 1: c.true(np.any(x != prev), "two realisations differ")
        prev = x; P = P + np.abs(np.fft.fft2(x)) ** 2
    E, _ = expected(m, rms(f, z, d, dt), dt, T, w, n); judge(c, P, M, E, "noise map")
    s = c.int(0, 2 ** 31); np.random.seed(s); a = c.call(rn.noise_map, n, z, d, **kw); np.random.seed(s); kw["obs_time"] = T * 4; b = c.call(rn.noise_map, n, z, d, **kw); c.close(b, a / 2, "half the noise in four times the time", rtol=1e-9)


@monitor("noise_cubes", quick=36, thorough=240, min_obs=50)
def noise_cubes(c):
    om, h = cosmo(c); box = c.pick([None, c.logu(50, 300)]); L = box or conv.LB; n = c.pick([8, 12]); z = c.uni(7, 11); D = K.cdist(z, om, h)[0]; k, kw, f = sky(c); T, dt = c.logu(10, 3000), 600.; c.note(om=om, h=h, box=box, n=n, z=z, k=k)
    cov = dict(total_int_time=1., int_time=dt, declination=-30.); kw.update(cov, subarray_type="AA1", obs_time=T, verbose=False); kw.update({} if box is None else dict(boxsize=box)); M = 40; np.random.seed(c.int(0, 2 ** 31)); nu = lambda q: const.nu0 / (1 + q)
    kind = c.pick(["coeval", "coeval", "lightcone", "lightcone", "cube_lightcone"])
    if kind == "coeval":
        depth = c.pick([None, c.logu(.1, 2)]); um = quiet(rn.get_uv_map, n, z, subarray_type="AA1", boxsize=L, verbose=False, **cov)[0]; dd = depth or (nu(K.zof(D - L / 2, om, h)[0]) - nu(K.zof(D + L / 2, om, h)[0])) / n
        if c.coin(): kw["uv_map"] = um
        if depth: kw["depth_mhz"] = depth
        draw = lambda: c.call(t2c.noise_cube_coeval, n, z, **kw); zs = np.full(n, z); dep = np.full(n, dd); ums = [um] * n
        if not depth: s = c.int(0, 2 ** 31); np.random.seed(s); a = draw(); np.random.seed(s); c.close(a, c.call(t2c.noise_cube_coeval, n, z, depth_mhz=dd, **kw), "channel width: an equal share of the band of the box", rtol=3e-3)
    else:
        if kind == "lightcone": zs = np.sort(np.round(c.rng.uniform(6.5, 11, 4), 3))[::c.pick([1, -1])]; arg = list(zs) if c.coin() else zs; draw = lambda: c.call(t2c.noise_lightcone, n, arg, n_jobs=1, **kw)
        else: zs = K.zof(np.linspace(D - L / 2, D + L / 2, n), om, h); draw = lambda: c.call(t2c.noise_cube_lightcone, n, z, n_jobs=1, **kw)
        dep = np.abs(np.diff(nu(zs))); dep = np.append(dep, dep[-1]); ums = [quiet(rn.get_uv_map, n, q, subarray_type="AA1", boxsize=L, verbose=False, **cov)[0] for q in zs]
    if len(set(zs)) < len(zs) and kind == "lightcone": raise Skip
    if not all(m.any() for m in ums): raise Skip
    P = 0
    for i in range(M):
        x = draw()
        if i == 0: c.true(x.shape == (n, n, len(zs)), f"{kind}: one slice per redshift"); c.true(not np.allclose(x[..., 0], x[..., 1]) or not x.any(), "slices are independent")
        P = P + np.abs(np.fft.fft2(x, axes=(0, 1))) ** 2
    tot = []
    for i, q in enumerate(zs):
        th = L / K.cdist(q, om, h)[0]; fac = 2 * KB / 2.99792458e8 ** 2 * 1e26 * (nu(q) * 1e6) ** 2 * 1e3 * (th / n) ** 2; E, _ = expected(ums[i], rms(f, q, dep[i], dt), dt, T, "natural", n); E = E / fac ** 2
        g = E > 1e-12 * E.max(); c.true(np.all(P[..., i][~g] <= 1e-9 * M * E.max() + 1e-300), f"{kind}: noise in unsampled uv cells of slice {i}"); r = P[..., i][g] / M / E[g]; tot.append(r); c.true(abs(r.mean() - 1) < 8 * np.sqrt(4 / M / g.sum()), f"{kind}: variance of slice {i} is {r.mean():.3f} times the expected one")
    tot = np.concatenate(tot); c.true(abs(tot.mean() - 1) < 7 * np.sqrt(4 / M / tot.size), f"{kind}: variance {tot.mean():.4f} times the expected one")


@monitor("windows", quick=150, thorough=1000, min_obs=50)
def window(c):
    n = c.size(3, 40, 400); k = c.pick(["blackmanharris", "blackman-harris", "blackman", "barthann", "bartlett", "gaussian", "hamming", "hann", "kaiser", "HANN"]); p = c.uni(1, 40); kw = dict(extra_param=p) if c.coin() else {}; p = kw.get("extra_param", 30); c.note(n=n, k=k, p=p)
    f = getattr(windows, k.lower().replace("-", "")); w = f(n, p) if k.lower() in ("gaussian", "kaiser") else f(n)
    c.close(c.call(rn.signal_window, n, k, **kw), w, "window", rtol=1e-12); c.close(c.call(rn.signal_window, n, k, ndim=2, **kw), np.outer(w, w), "separable in two dimensions", rtol=1e-12)
    if n < 16: c.close(c.call(rn.signal_window, n, k, ndim=3, **kw), w[:, None, None] * w[:, None] * w, "separable in three dimensions", rtol=1e-12)


@monitor("noise_power", quick=300, thorough=2000, min_obs=300)
def noise_power(c):
    om, h = cosmo(c); n = c.pick([8, 9, 16]); m = c.rng.integers(1, 9, (n, n)).astype(float); k, kw, f = sky(c); z, d, T, dt, L = c.uni(6, 14), c.logu(.1, 5), c.logu(.02, 3000), c.pick([10., 60.]), c.logu(50, 500); w = c.pick(["natural", "uniform"]); e = 2 * np.pi / L * np.array([.5, 1.7, 2.6, 3.7]); c.note(n=n, m=m, k=k, z=z, d=d, T=T, dt=dt, L=L, w=w)
    P = rms(f, z, d, dt) ** 2 / (m if w == "natural" else 1 + 0 * m) * dt / 3600 / T * (L / n) ** 4 / L ** 2; q = np.fft.fftfreq(n, 1 / n) * 2 * np.pi / L; R = np.hypot(q[:, None], q[None])
    r = c.call(rn.noise_coeval_power_spectrum_1d, n, z, d, obs_time=T, int_time=dt, subarray_type="AA0.5", kbins=e, boxsize=L, uv_map=m, uv_weighting=w, verbose=False, return_n_modes=True, **kw)
    idx = [(R >= a) & (R < b) for a, b in zip(e[:-1], e[1:])]; c.close(r[0], np.array([P[i].mean() for i in idx]), "mean noise power of the modes in each bin", rtol=1e-9); c.close(r[2], np.array([i.sum() for i in idx]), "modes per bin")
    # analytic error on the power spectrum
    nu, kk, t = c.uni(100, 200), c.rng.uniform(.05, 2, 4), c.logu(10, 3000); o = {}
    if c.coin(): o["Rmax"] = c.uni(500, 3000)
    if c.coin(): o["Aeff"] = c.uni(200, 800)
    if c.coin(): o["Nstat"] = c.int(20, 500)
    if c.coin(): o["B"] = c.uni(1, 15)
    if c.coin(): o["Tsys"] = c.uni(1e5, 1e6)
    if c.coin(): o["epsilon"] = c.uni(.1, 2)
    if c.coin(): o["multipole"] = c.pick([0, 2, 4])
    A = o.get("Aeff", 526 * (nu / 150) ** -2.); B = o.get("B", 10.); ts = o.get("Tsys", (140 + 60 * (nu / 300) ** -2.55) * 1e3); D = lambda v: K.cdist(const.nu0 / v - 1, om, h)[0]; lam = 300. / nu
    want = 2 / np.pi * kk ** 1.5 * np.sqrt(D(nu) ** 2 * abs(D(nu) - D(nu + B)) * lam ** 2 / A) * ts ** 2 / (B * 1e6 * t * 3600) * np.pi * o.get("Rmax", 1500.) ** 2 * A / (o.get("Nstat", 48) * A) ** 2 / np.sqrt(o.get("epsilon", 1)) * np.sqrt(2 * o.get("multipole", 0) + 1)
    c.close(c.call(t2c.noise_error_ps, nu, c.pick([np.array, list, tuple])(kk), t, **o), want, "noise error on the power spectrum (Mellema et al. 2013)", rtol=1e-5)
    c.close(c.call(t2c.noise_error_ps, nu, kk, 2 * t, **o), want / 2, "inversely with time", rtol=1e-5)
