"""C17: baselines, Earth rotation and uv gridding against sample-by-sample references."""
import os
import numpy as np
import astropy.units as u
from vh import monitor, Skip, quiet
import tools21cm as t2c
from tools21cm import const, conv, radio_telescope_layout as rl, radio_telescope_noise as rn, radio_telescope_calibration as rc
import cosmoref as K

DATA = os.path.join(os.path.dirname(rl.__file__), "input_data")


def lam(z): return 2.99792458e8 / (t2c.z_to_nu(float(z)) * 1e6)


def array(c, n=None, theta=.02, ncells=16, z=8., kind=None):
    """Random positions whose baselines populate and overfill the grid."""
    n = n or c.size(2, 12, 60); s = ncells / 2 / theta * lam(z) * c.logu(.15, 1.5); x = c.rng.normal(size=(n, 3)) * s
    if kind == "flat": x[:, 2] = 0
    return x


def rotated(B, n, dt, T, dec):
    H = np.deg2rad(15 * (n * dt - T * 1800) / 3600); d = np.deg2rad(dec)
    R = np.array([[np.sin(H), np.cos(H), 0], [-np.sin(d) * np.cos(H), np.sin(d) * np.sin(H), np.cos(d)], [np.cos(d) * np.cos(H), -np.cos(d) * np.sin(H), np.sin(d)]])
    return B @ R.T


def gridded(B, theta, n):
    """Cell (in FFT order) of every sample inside [-n/2, n/2)^2, and the number of samples on a rounding edge."""
    f = B[:, :2] * theta; r = np.rint(f); tie = np.abs(np.abs(f - np.floor(f)) - .5) < 1e-6 * np.maximum(1, np.abs(f)); ok = np.all((r >= -n / 2) & (r < n / 2), 1)
    return r.astype(int) % n, ok, bool(tie.any())


def counts(B, theta, n, mirror):
    if mirror: B = np.vstack([B, -B])
    q, ok, tie = gridded(B, theta, n); m = np.zeros((n, n))
    for a, b in q[ok]: m[a, b] += 1
    return m / 2 if mirror else m, tie, int(ok.sum())


def setup(c):
    om, h = K.random_cosmology(c, t2c, .6); z = c.pick([c.uni(5, 25), c.uni(5, 25), c.int(6, 12)]); n = c.pick([4, 8, 16, 32, 5, 9, 21, 64, 64, 300] if c.coin(.5) else [4, 8, 16, 32, 5, 9, 21, 64]); box = c.pick([None, 0, c.logu(30, 1000)])
    if c.coin(.3): t2c.set_sim_constants(c.pick([64, 114, 244, 425]))
    c.om, c.h = om, h; L = box or conv.LB; theta = L / K.cdist(z, om, h)[0]; dec = c.pick([-30., c.uni(-90, 90), 0, 90]); c.note(om=om, h=h, z=z, n=n, box=box, dec=dec)
    return z, n, box, theta, dec


@monitor("baselines", quick=200, thorough=2000, min_obs=250)
def baselines(c):
    K.random_cosmology(c, t2c); n = c.size(2, 12, 150); x = c.rng.normal(size=(n, 3)) * c.logu(10, 1e5); z = c.pick([c.uni(5, 25), c.int(6, 20), float(c.int(6, 20))]); form = c.pick(["m", "km", "plain"]); nu = c.pick([None, None, c.uni(50, 350)])
    if c.coin(.2): x[c.int(0, n - 1), 0] = x[0, 0]
    c.note(n=n, x=x, z=z, form=form, nu=nu); a = {"m": x * u.m, "km": (x / 1e3) * u.km, "plain": x}[form]; l = 2.99792458e8 / ((nu or t2c.z_to_nu(float(z))) * 1e6)
    kw = {} if nu is None else dict(nu=nu); B, N = c.call(rl.from_antenna_config, a, z, **kw); ref = np.array([(x[i] - x[j]) / l for i in range(n) for j in range(i + 1, n)])
    c.true(N == n, "number of antennas"); S = np.abs(x).max() / l; c.close(B, ref, "pairwise separations in wavelengths", rtol=0, atol=1e-9 * S)
    c.close(c.call(rl.from_antenna_config, (a + (c.rng.normal(size=3) * 1e3 * (u.m if form != "plain" else 1)) if form != "km" else a), z, **kw)[0], ref, "unchanged when the array moves as a whole", rtol=0, atol=1e-7 * (S + 1e3 / l))
    P = c.call(rl.antenna_positions_to_baselines, a); Q = np.asarray(P.to(u.m).value if hasattr(P, "unit") else P); c.close(Q, np.array([x[i] - x[j] for i in range(n) for j in range(n) if i != j]), "all ordered pairs", rtol=0, atol=1e-9 * np.abs(x).max()); c.true(hasattr(P, "unit") == (form != "plain"), "unit kept")
    B, N = c.call(rc.from_antenna_config_with_antenna_stamp, x * u.m, z, **kw); c.close(B[:, :3], ref, "separations with antenna stamps", rtol=0, atol=1e-9 * S); c.equal(B[:, 3:].astype(int), np.array([(i + 1, j + 1) for i in range(n) for j in range(i + 1, n)]), "each baseline stamped with its antennas")
    g = c.rng.normal(size=(n, 2)); B, N = c.call(rc.from_antenna_config_with_gains, x * u.m, z, gain_model=g, **kw); c.close(B[:, :3], ref, "separations with gains", rtol=0, atol=1e-9 * S)
    c.close(B[:, 3:], np.array([(g[i, 0] * g[j, 0], g[i, 1] * g[j, 1], g[i, 0] * g[j, 1], g[i, 1] * g[j, 0]) for i in range(n) for j in range(i + 1, n)]), "gain products of each pair", rtol=1e-12)


@monitor("rotation", quick=300, thorough=3000, min_obs=450)
def rotation(c):
    n = c.size(1, 20, 2000); B = c.rng.normal(size=(n, 3)) * c.logu(1, 1e5); dec = c.pick([-30., c.uni(-90, 90), 0, 90, -90]); dt = c.pick([10., 60, c.uni(1, 600)]); T = c.pick([4., 6, c.uni(.1, 24)]); S = np.abs(B).max()
    k = c.pick(["one", "np", "list1", "many", "list"]); i = c.rng.integers(0, int(T * 3600 / dt) + 2, c.int(2, 6)); t = {"one": int(i[0]), "np": i[0], "list1": [int(i[0])], "many": i, "list": list(i)}[k]; c.note(n=n, B=B, dec=dec, dt=dt, T=T, k=k, i=i)
    kw = {} if dec == -30. and c.coin() else dict(declination=dec); r = c.call(rl.earth_rotation_effect, B, t, dt, T, **kw)
    if k in ("many", "list"): c.close(r, np.array([rotated(B, q, dt, T, dec) for q in i]), "rotated baselines at each step", rtol=0, atol=1e-10 * S)
    else: c.close(r, rotated(B, i[0], dt, T, dec), "rotated baselines", rtol=0, atol=1e-10 * S)
    R = np.asarray(r).reshape(-1, n, 3); c.close(np.linalg.norm(R, axis=-1), np.broadcast_to(np.linalg.norm(B, axis=-1), R.shape[:2]), "lengths preserved", rtol=1e-11); c.close(R @ R[0].T.copy() if len(R) == 1 else R[0] @ R[0].T, B @ B.T if len(R) > 1 else (B @ B.T)[None], "angles between baselines preserved", rtol=1e-10)
    h = c.call(rl.earth_rotation_effect, B, T * 1800 / dt, dt, T, declination=dec) if c.coin(.3) else None
    if h is not None: c.close(h, rotated(B, T * 1800 / dt, dt, T, dec), "transit in the middle of the observation", rtol=0, atol=1e-10 * S)


@monitor("gridding", quick=600, thorough=8000, min_obs=600)
def gridding(c):
    z, n, box, theta, dec = setup(c); k = c.pick(["random", "random", "integer", "edges", "repeat"]); m = c.size(1, 60, 5000); B = c.rng.normal(size=(m, 3)) * n / theta * c.logu(.05, 1); mirror = c.coin()
    if k in ("integer", "edges", "repeat"): B[:, :2] = (c.rng.integers(-n, n + 1, (m, 2)) if k != "edges" else c.pick([-1, 1]) * (n // 2) + c.rng.integers(-2, 3, (m, 2))) / theta * (1 + 1e-9) + c.rng.uniform(-.4, .4, (m, 2)) / theta
    if k == "repeat": B[:] = B[0]
    if c.coin(.2): B[c.rng.random(m) < .3, :2] = 0       # two antennas at one place
    ref, tie, inside = counts(B, theta, n, mirror); c.note(m=m, B=B, mirror=mirror)
    if tie: raise Skip
    kw = {} if box is None else dict(boxsize=box)
    if mirror or c.coin(): kw["include_mirror_baselines"] = mirror
    g = c.call(rl.grid_uv_tracks, B, z, n, **kw); c.equal(np.asarray(g, float), ref, "samples per uv cell"); c.true(np.isclose(g.sum(), inside / (2 if mirror else 1)), f"every sample inside the grid counted once: {g.sum()}")
    if mirror:
        s = np.asarray(g, float); p = np.roll(np.flip(s), 1, (0, 1)); e = np.ones((n, n), bool)
        if n % 2 == 0: e[n // 2] = e[:, n // 2] = False
        c.equal(s[e], p[e], "mirrored coverage is point-symmetric")
    p = c.rng.permutation(m); j = c.int(0, m); c.equal(np.asarray(c.call(rl.grid_uv_tracks, B[p], z, n, **kw), float), ref, "order of the samples is immaterial")
    if 0 < j < m: c.close(quiet(rl.grid_uv_tracks, B[:j], z, n, **kw) + quiet(rl.grid_uv_tracks, B[j:], z, n, **kw), ref, "coverage adds up", rtol=1e-12)


@monitor("observation", quick=150, thorough=1500, min_obs=250)
def observation(c):
    z, n, box, theta, dec = setup(c); box = box or None; x = array(c, None, theta, n, z); dt = c.pick([600., 1200, c.uni(100, 900)]); T = c.pick([1., 2, c.uni(.3, 5)]); N = int(T * 3600 / dt); mirror = c.coin(); l = lam(z)
    if N < 1 or abs(T * 3600 / dt - N - 1) < 1e-9: raise Skip
    B = np.array([(x[i] - x[j]) / l for i in range(len(x)) for j in range(i + 1, len(x))]); r = [counts(rotated(B, i, dt, T, dec), theta, n, mirror) for i in range(1, N + 1)]; c.note(x=x, dt=dt, T=T, mirror=mirror)
    if any(q[1] for q in r): raise Skip
    ref = sum(q[0] for q in r) / N; kw = dict(total_int_time=T, int_time=dt, declination=dec, verbose=False)
    if box is not None: kw["boxsize"] = box
    m, na = c.call(rl.get_uv_daily_observation, n, z, x * u.m, include_mirror_baselines=mirror, **kw); c.true(na == len(x), "number of antennas"); c.close(m, ref, "coverage averaged over the time steps", rtol=1e-5)
    if mirror: m, na = c.call(rn.get_uv_map, n, z, subarray_type=x * u.m, **kw)
    else: m, na = c.call(rn.get_uv_map, n, z, subarray_type=x * u.m, include_mirror_baselines=False, **kw)
    c.true(na == len(x), "number of antennas"); c.close(m, ref, "uv map of the observation", rtol=1e-5)
    m2 = counts(B, theta, n, mirror); full = c.call(rn.get_uv_map, n, z, subarray_type=(x + c.rng.normal(size=3) * 100) * u.m, include_mirror_baselines=mirror, **kw)[0]; c.close(full, ref, "unchanged when the array moves as a whole", rtol=1e-5) if not any(q[1] for q in r) else None
    # cut at a maximum baseline: untouched well inside, empty well outside
    b = c.uni(.1, 1.2) * n / 2 / theta * l; mb = c.pick([b / 1e3, b * u.m, (b / 1e3) * u.km]); cut = c.call(rn.get_uv_map, n, z, subarray_type=x * u.m, include_mirror_baselines=mirror, max_baseline=mb, **kw)[0]
    f = np.fft.fftfreq(n, 1 / n); rad = np.hypot(f[:, None], f[None]); kc = b * theta / (1 + z); inn, out = rad < kc / .2112 * (1 - 1e-6), rad > kc / .21 * (1 + 1e-6)
    c.close(cut[inn], ref[inn], "tracks within the maximum baseline kept", rtol=1e-5, atol=1e-6); c.true(not cut[out].any(), "tracks beyond the maximum baseline removed")
    kq = c.call(rn.max_baseline_to_max_k, z, c.pick([b / 1e3, b * u.m])); q = np.pi * b / (1 + z) / K.cdist(z, c.om, c.h)[0]; c.true(q / .2112 <= float(kq) * (1 + 1e-6) and float(kq) <= q / .21 * (1 + 1e-6), f"wavenumber of the longest baseline: {float(kq)}")
    if c.coin(.3):
        zs = np.array([z, z + c.uni(.1, 2)]); lc, na = c.call(rn.make_uv_map_lightcone, n, zs, subarray_type=x * u.m, **kw); ok = [quiet(rn.get_uv_map, n, q, subarray_type=x * u.m, **kw)[0] for q in zs]
        c.close(lc, np.stack(ok, -1), "one map per redshift", rtol=1e-6)


@monitor("stamps", quick=60, thorough=600, min_obs=100)
def stamps(c):
    """Maps that carry gains or antenna pairs hold the same samples, each with its own antennas."""
    z, n, box, theta, dec = setup(c); n = min(n, 16); x = array(c, c.int(2, 6), theta, n, z); dt = c.pick([600., 1800, 400]); T = c.pick([1., 2, .5]); N = int(3600 * T / dt); l = lam(z); mirror = c.coin(); jobs = c.pick([1, 1, 1, 2, 3] if c.i % 6 == 0 else [1]); box = box or None
    pairs = [(i, j) for i in range(len(x)) for j in range(i + 1, len(x))]; B = np.array([(x[i] - x[j]) / l for i, j in pairs]); c.note(x=x, dt=dt, T=T, jobs=jobs, mirror=mirror); kw = dict(total_int_time=T, int_time=dt, declination=dec, boxsize=box, verbose=False)
    if N < 1: raise Skip
    steps = [gridded(rotated(B, t, dt, T, dec), theta, n) for t in range(N)]
    if any(s[2] for s in steps): raise Skip
    m, na = c.call(rc.get_full_uv_map_with_antenna_stamp, n, z, subarray_type=x * u.m, n_jobs=jobs, **kw); c.true(na == len(x) and m.shape == (N, n, n), "one map per time step"); ref = np.zeros((n, n), int)
    for t, (q, ok, _) in enumerate(steps):
        want = {}
        for b in np.flatnonzero(ok): want.setdefault(tuple(q[b]), []).append([pairs[b][0] + 1, pairs[b][1] + 1]); ref[tuple(q[b])] += 1
        got = {ij: sorted(list(map(int, p)) for p in m[(t,) + ij]) for ij in np.ndindex(n, n) if m[(t,) + ij]}
        c.true(got == {k: sorted(v) for k, v in want.items()}, f"antenna pairs in each cell at step {t}")
    c.equal(c.call(rc.full_uv_map_with_antenna_stamp_to_uv_map, m, verbose=False), ref, "samples per cell from the stamps")
    tr, pr = c.call(rc.get_full_uv_lagrangian_with_antenna_stamp, n, z, subarray_type=x * u.m, n_jobs=jobs, **kw); c.equal(np.asarray(pr).astype(int), np.array(pairs) + 1, "antenna pair of each track")
    want = np.full((N, len(pairs), 2), np.nan)
    for t, (q, ok, _) in enumerate(steps): want[t, ok] = np.where(q[ok] >= (n + 1) // 2, q[ok] - n, q[ok])
    c.close(tr, want, "cell of each baseline at each step, NaN outside the grid", rtol=0, atol=0)
    g = c.rng.normal(1, .3, (len(x), 2)); G, na = c.call(rc.get_uv_map_with_gains, n, z, gain_model=g, subarray_type=x * u.m, include_mirror_baselines=mirror, **kw); W = np.zeros((n, n, 5))
    for q, ok, _ in steps:
        for b in np.flatnonzero(ok):
            i, j = pairs[b]; v = [1, g[i, 0] * g[j, 0], g[i, 1] * g[j, 1], g[i, 0] * g[j, 1], g[i, 1] * g[j, 0]]; W[tuple(q[b])] += v
            if mirror: W[tuple((-q[b]) % n)] += v
    c.close(G, W, "hits and summed gain products of each cell", rtol=1e-9, atol=1e-9); c.equal(c.call(rc.gain_uv_map_to_uv_map, G), W[..., 0].astype(int), "hit counts")
    # gains drawn anew whenever one of the timescales has passed, by every kind of model
    kind = c.pick(["real", "phase", "random_gaussian", "random_uniform"]); log = []; dt2 = float(c.pick([600, 900])); tt = c.pick([[1800, 2700], [600], [1200], [3600, 2400], (1800,)])
    def draw(N): log.append(np.random.normal(1, .3, N)); return log[-1]
    gm = {"real": dict(real=draw, imag=draw), "phase": dict(amplitude=draw, phase=draw), "random_gaussian": dict(name="random_gaussian", mu=1., std=.3), "random_uniform": dict(name=c.pick(["random_uniform", "Random_Uniform"]), min=.5, max=2.)}[kind]; sd = c.int(0, 2 ** 31); np.random.seed(sd)
    kw2 = dict(kw, total_int_time=2., int_time=dt2); N2 = int(7200 / dt2); S2 = [gridded(rotated(B, t, dt2, 2., dec), theta, n) for t in range(N2)]
    if not any(s[2] for s in S2):
        G2, _ = c.call(rc.get_uv_map_with_gains, n, z, gain_model=gm, gain_timescale=tt, subarray_type=x * u.m, include_mirror_baselines=mirror, **kw2); new = [any(t * dt2 % q == 0 for q in tt) for t in range(N2)]
        if kind.startswith("random"): np.random.seed(sd); log = [np.random.normal(1., .3, len(x)) if kind == "random_gaussian" else np.random.uniform(.5, 2., len(x)) for _ in range(2 * sum(new))]
        else: c.true(len(log) == 2 * sum(new), f"gains drawn {len(log) // 2} times, {sum(new)} timescales passed")
        W2 = np.zeros((n, n, 5)); k2 = -1
        for (q, ok, _), nw in zip(S2, new):
            k2 += nw
            for b in np.flatnonzero(ok):
                i, j = pairs[b]; a_, b_ = log[2 * k2], log[2 * k2 + 1]; v = [1, a_[i] * a_[j], b_[i] * b_[j], a_[i] * b_[j], b_[i] * a_[j]]; W2[tuple(q[b])] += v
                if mirror: W2[tuple((-q[b]) % n)] += v
        c.close(G2, W2, "gains of the latest draw at every step", rtol=1e-9, atol=1e-9)
    img = c.rng.normal(size=(n, n))
    with np.errstate(all="ignore"): r = np.fft.ifft2(np.fft.fft2(img) * np.sqrt(np.nan_to_num((W[..., 1] + 1j * W[..., 2]) / W[..., 0]))).real
    c.close(c.call(rc.apply_uv_with_gains_response_on_image, img, G), r, "image through the gains", rtol=1e-8)
    one = np.zeros((n, n, 5)); one[..., :2] = W[..., :1]; keep = np.fft.ifft2(np.fft.fft2(img) * (W[..., 0] > 0)).real; c.close(c.call(rc.apply_uv_with_gains_response_on_image, img, one), keep, "unit gains: the sampled modes", rtol=1e-8)


LAYOUTS = {"AA0.5": "skalow_AA0.5_layout.txt", "AA1": "skalow_AA1_layout.txt", "AA2": "skalow_AA2_layout.txt", "AA*": "skalow_AAstar_layout.txt", "AAstar": "skalow_AAstar_layout.txt", "AASTAR": "skalow_AAstar_layout.txt", "AA4": "skalow_AA4_layout.txt", "aa4": "skalow_AA4_layout.txt", "SKA1": "skalow1_layout.txt"}


@monitor("layouts", quick=60, thorough=300, min_obs=250)
def layouts(c):
    """Bundled layouts: the stations of the file, in every frame, with the same baselines."""
    name = sorted(LAYOUTS)[c.i % len(LAYOUTS)]; c.note(name=name, i=c.i); enu = np.loadtxt(os.path.join(DATA, LAYOUTS[name])); lon, lat, h = np.loadtxt(os.path.join(DATA, "central_geographic_position.txt"))
    g = {un: c.call(rl.get_SKA_Low_layout, subarray_type=name, unit=un, verbose=c.coin(.3)) for un in ("enu", "ecef", "xyz")}
    for un, a in g.items(): c.true(a.unit == u.m and a.shape == enu.shape, f"{un}: every station, in metres")
    c.equal(g["enu"].value, enu, "ENU positions of the file"); la, lo = np.deg2rad([lat, lon]); a, e2 = 6378137., 6.69437999014e-3; nn = a / np.sqrt(1 - e2 * np.sin(la) ** 2)
    o = np.array([(nn + h) * np.cos(la) * np.cos(lo), (nn + h) * np.cos(la) * np.sin(lo), (nn * (1 - e2) + h) * np.sin(la)])
    east = np.array([-np.sin(lo), np.cos(lo), 0]); up = np.array([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)]); north = np.cross(up, east); ec = o + enu[:, :1] * east + enu[:, 1:2] * north + enu[:, 2:] * up
    c.close(g["ecef"].value, ec, "Earth-centred positions", rtol=0, atol=1e-3); d = ec - o; X = np.stack([d @ [np.cos(lo), np.sin(lo), 0], d @ east, d[:, 2]], -1)
    c.close(g["xyz"].value - g["xyz"].value[0], X - X[0], "equatorial frame: meridian, east, pole", rtol=0, atol=1e-3)
    q = c.rng.permutation(len(enu))[:40]; D = lambda p: np.linalg.norm(p[q][:, None] - p[q][None], axis=-1)
    for un in ("ecef", "xyz"): c.close(D(g[un].value), D(enu), f"baseline lengths in {un}", rtol=0, atol=1e-3)
    la2, lo2, h2 = c.call(rl.get_SKA_Low_layout, subarray_type=name, unit=c.pick(["latlon", "geodetic"]), verbose=False)
    la2, lo2 = np.deg2rad(la2), np.deg2rad(lo2); nn = a / np.sqrt(1 - e2 * np.sin(la2) ** 2); c.close(np.stack([(nn + h2) * np.cos(la2) * np.cos(lo2), (nn + h2) * np.cos(la2) * np.sin(lo2), (nn * (1 - e2) + h2) * np.sin(la2)], -1), ec, "geodetic positions", rtol=0, atol=1e-2)
    c.raises(rl.get_SKA_Low_layout, subarray_type=name, unit="furlong", what="layout in an unknown frame")
    a, n = c.call(rl.subarray_type_to_antxyz, name, verbose=False); c.true(n == len(enu), "number of stations"); c.equal(a.value, g["xyz"].value, "stations by name"); b, n = c.call(rl.subarray_type_to_antxyz, a[:3]); c.true(n == 3, "stations given as an array"); c.equal(b.value, a[:3].value, "used as given")
    if c.i == 0:
        ll = np.asarray(rl.SKA1_LowConfig_Sept2016(), float); c.true(len(ll) == 512 and np.all(np.abs(ll - [116.764, -26.825]) < .4), "512 stations, all within 0.4 degrees of the array's centre in Western Australia"); ll = np.deg2rad(ll); P = 6371e3 * np.stack([np.cos(ll[:, 1]) * np.cos(ll[:, 0]), np.cos(ll[:, 1]) * np.sin(ll[:, 0]), np.sin(ll[:, 1])], -1)
        a, n = c.call(rl.subarray_type_to_antxyz, None, verbose=False); c.true(n == len(P) and a.unit == u.m, "default array: every station, in metres"); c.close(a.value, P, "default array", rtol=0, atol=1e-3)
        B, n = c.call(rl.from_antenna_config, None, 8.); i, j = np.triu_indices(len(P), 1); c.true(n == len(P), "default array: number of stations"); c.close(B, (P[i] - P[j]) / (2.99792458e8 / (const.nu0 / 9. * 1e6)), "default array: baselines in wavelengths", rtol=1e-4, atol=1e-3)


@monitor("frames", quick=200, thorough=2000, min_obs=250)
def frames(c):
    n = c.size(1, 20, 800); lat, lon = c.uni(-89, 89), c.uni(-180, 180); x = c.rng.normal(size=(n, 3)) * c.logu(1, 1e5); o = c.rng.normal(size=3) * 6e6; c.note(n=n, lat=lat, lon=lon, x=x, o=o); la, lo = np.deg2rad([lat, lon]); S = np.abs(x).max()
    e = c.call(rl.enu_to_ecef, x, lat, lon, o); up = np.array([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)]); ea = np.array([-np.sin(lo), np.cos(lo), 0])
    c.close(e - o, x[:, :1] * ea + x[:, 1:2] * np.cross(up, ea) + x[:, 2:] * up, "east, north, up", rtol=0, atol=1e-7 * S + 1e-7)
    y = c.call(rl.ecef_to_xyz, e, lon, o) - o; c.close(y[:, 2], (e - o)[:, 2], "polar component kept", rtol=0, atol=1e-7 * S + 1e-7); c.close(y[:, 1], x[:, 0], "east component", rtol=0, atol=1e-7 * S + 1e-7); c.close(np.linalg.norm(y, axis=1), np.linalg.norm(x, axis=1), "lengths", rtol=0, atol=1e-7 * S + 1e-7)
    ll = np.stack([c.rng.uniform(-179, 179, n), c.rng.uniform(-89, 89, n)], -1); form = c.pick(["plain", "deg", "rad"]); arg = {"plain": ll.copy(), "deg": ll * u.deg, "rad": np.deg2rad(ll) * u.rad}[form]; p = c.call(rl.geographic_to_cartesian_coordinate_system, arg)
    r = np.deg2rad(ll); c.close(p, 6371e3 * np.stack([np.cos(r[:, 1]) * np.cos(r[:, 0]), np.cos(r[:, 1]) * np.sin(r[:, 0]), np.sin(r[:, 1])], -1), "positions on the sphere", rtol=1e-10)
    hh = c.rng.uniform(-100, 5000, n); s = p * (1 + hh / 6371e3)[:, None]; f = c.pick(["plain", "m", "km"]); b = c.call(rl.cartesian_to_geographic_coordinate_system, {"plain": s, "m": s * u.m, "km": s / 1e3 * u.km}[f])
    c.close(b[:, :2], ll, "longitude and latitude back", rtol=0, atol=1e-8); c.close(b[:, 2], hh, "height back", rtol=0, atol=1e-3)
