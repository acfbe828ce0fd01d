"""C05: light-cone slices vs an explicit bracketing/interpolation model."""
import os, sys
import numpy as np
from vh import monitor, Skip, quiet
import tools21cm as t2c
from tools21cm import const, conv
import cosmoref as K

LC = sys.modules["tools21cm.lightcone"]
import time as _time, types as _types
LC.time = _types.SimpleNamespace(**{**{k: v for k, v in vars(_time).items() if not k.startswith("__")}, "sleep": lambda s: None})   # the module sleeps 1 s per light-cone


def snaps(c, n, vector=False, k=None):
    k = k or c.int(2, 7)
    lo = c.uni(5.5, 12)
    dz = c.rng.uniform(.02, 1.2 if c.coin() else .15, k - 1)
    if c.coin(.25): dz[c.rng.random(k - 1) < .4] = c.uni(.002, .01)   # snapshots that nearly coincide
    z = lo + np.cumsum(np.r_[0, dz])
    z = np.unique(np.round(z, 3))
    if len(z) < 2: raise Skip()
    sh = (3, n, n, n) if vector else (n, n, n)
    dt = c.pick(["f8", "f8", "f4"])
    return z, [c.rng.normal(size=sh).astype(dt) * 10 for _ in z]


def bracket(zs, z):
    hi = np.searchsorted(zs, z, "right")
    hi = min(hi, len(zs) - 1)
    return hi - 1, hi


def take(a, i, los):
    return np.take(a, i, axis=los + (a.ndim == 4))


def ref_slice(zs, data, z, i, los, kind):
    a, b = bracket(zs, z); n = data[0].shape[-1]
    lo, hi = (take(data[q], i % n, los).astype(float) for q in (a, b))
    f = (z - zs[a]) / (zs[b] - zs[a])
    if kind == "step": return hi if f >= .5 else lo
    if kind == "sigmoid": f = 1 / (1 + np.exp(-2 * (-10 + 20 * f)))
    return lo * (1 - f) + hi * f


def check_z(c, out, zl, zh, dx, zs):
    """Equal comoving spacing of one cell from zl (inclusive) up to zh (exclusive), cut to the snapshots."""
    om, h = const.Omega0, const.h
    full = np.asarray(out, float)
    c.true(np.all(np.diff(full) > 0), "output redshifts increase")
    d = K.cdist(full, om, h); eps = 100 * h * K.E(full, om) * dx / K.C / (1 + full)
    if len(full) > 1:
        r = np.diff(d) / dx - 1
        c.true(np.all(np.abs(r) <= 1.2 * eps[:-1] + 1e-5), f"spacing of the output redshifts is one cell (worst relative deviation {np.abs(r).max():.3g}, allowed {1.2*eps.max():.3g})")
    step = dx * (1 + 1.3 * eps.max() + 1e-5)
    if zl >= zs[0]: c.true(abs(full[0] - zl) < 1e-9, f"light-cone starts at z_low: {full[0]} vs {zl}")
    else: c.true(full[0] >= zs[0] and d[0] - K.cdist(zs[0], om, h)[0] <= step, "light-cone starts within a cell of the lowest snapshot")
    top = min(zh, zs[-1])
    c.true(full[-1] <= top and K.cdist(top, om, h)[0] - d[-1] <= step, f"light-cone reaches z_high: {full[-1]} vs {top}")


def present(c, z, data, n):
    """Give the snapshots in one of the documented ways -> (args, kwargs, redshift order used)."""
    how = c.pick(["dict", "dict", "list+fn", "npy+fn", "dict+fn", "cbin", "cbin_txt", "xfrac", "xfrac_dir", "cbin_zfile"])
    p = c.rng.permutation(len(z)); zz = z[p]; dd = [data[i] for i in p]
    d = c.tmp(); kw = {}
    if how == "dict": return how, {float(a): b for a, b in zip(zz, dd)}, kw
    if how == "list+fn": return how, dd, dict(reading_function=lambda x: x, file_redshifts=c.pick([zz, [float(x) for x in zz]]))
    if how in ("npy+fn", "dict+fn"):
        fs = []
        for a, b in zip(zz, dd): fs.append(f"{d}/s{a:.3f}.npy"); np.save(fs[-1], b)
        if how == "dict+fn": return how, dict(zip([float(x) for x in zz], fs)), dict(reading_function=np.load)
        return how, c.pick([fs, np.array(fs)]), dict(reading_function=np.load, file_redshifts=zz)
    if how.startswith("cbin"):
        order, bits = c.pick("cf"), c.pick([32, 64]); fs = []
        for a, b in zip(zz, dd):
            fs.append(f"{d}/q_{a:07.3f}.cbin")
            with open(fs[-1], "wb") as f: f.write(np.array(b.shape, "i4").tobytes() + b.astype("f4" if bits == 32 else "f8").tobytes(order.upper()))
        kw = dict(cbin_bits=bits, cbin_order=order)
        if how == "cbin_txt":
            if c.coin():   # names that say nothing
                for j, a in enumerate(fs): fs[j] = f"{d}/{c.int(0, 10 ** 9)}_{j}.cbin"; os.rename(a, fs[j])
                kw["file_redshifts"] = [float(x) for x in zz]
            with open(f"{d}/list.txt", "w") as f: f.write("\n".join(fs) + "\n")
            return how, f"{d}/list.txt", kw
        if how == "cbin_zfile":
            np.savetxt(f"{d}/z.txt", zz); kw["file_redshifts"] = f"{d}/z.txt"
        elif c.coin(.3): kw["file_redshifts"] = [float(x) for x in zz]
        return how, fs, kw
    dx = d + "/x"; os.makedirs(dx, exist_ok=True); fs = []
    for a, b in zip(zz, dd):
        fs.append(f"{dx}/xfrac3d_{a:07.3f}.bin")
        with open(fs[-1], "wb") as f: f.write(np.array([12, n, n, n, 12, 0], "i4").tobytes() + b.astype("f8").tobytes("F"))
    return how, (dx if how == "xfrac_dir" else fs), kw


@monitor("scalar", quick=1500, thorough=6000, min_obs=750)
def scalar(c):
    om, h = K.random_cosmology(c, t2c)
    n = c.size(3, 9, 36, 60); z, data = snaps(c, n)
    kind = c.pick(["linear", "linear", "step", "sigmoid", None])
    how, src, kw = present(c, z, data, n)
    los = c.int(0, 2)
    if los or c.coin(): kw["los_axis"] = los
    if kind: kw["interpolation"] = kind
    else: kind = "linear"
    if c.coin(.8):
        box = c.uni(8, 60) * n; kw["box_length_mpc"] = box
    else:
        quiet(t2c.set_sim_constants, c.pick([37, 64, 244, 500])); box = conv.LB
    zl, zh = z[0], z[-1]
    if c.coin(.5): zl = kw["z_low"] = c.uni(z[0] - .3, z[0] + .6 * (z[-1] - z[0]))
    if c.coin(.5): zh = kw["z_high"] = c.uni(max(zl, z[0]) + .3 * (z[-1] - max(zl, z[0])), z[-1] + .3)
    mhz = c.coin(.25)
    if zl < z[0] and K.cdist(z[-1], om, h)[0] - K.cdist(z[0], om, h)[0] < 3 * box / n: zl = kw["z_low"] = z[0]
    span = 1420 / (1 + max(zl, z[0])) - 1420 / (1 + min(zh, z[-1]))  # a channel always falls between the snapshots
    if mhz: dnu = kw["depth_mhz"] = span / c.uni(2, 20)
    elif K.cdist(zh, om, h)[0] - K.cdist(zl, om, h)[0] > 120 * box / n: box = kw["box_length_mpc"] = (K.cdist(zh, om, h)[0] - K.cdist(zl, om, h)[0]) * n / c.uni(20, 100)
    c.note(om=om, h=h, n=n, z=z, how=how, kind=kind, los=los, box=box, zl=zl, zh=zh, mhz=mhz)
    lc, zo = c.call(t2c.make_lightcone, src, **kw)
    c.equal(np.shape(lc), np.array((n, n, len(zo))), "light-cone shape")
    if mhz:
        nu = 1420 / (1 + zo)
        if len(zo) > 1: c.close(-np.diff(nu), np.full(len(zo) - 1, dnu), "frequency spacing", rtol=2e-5)
        top = min(zh, z[-1]); bot = max(zl, z[0])
        c.true(zo[-1] <= top + 1e-9 and zo[0] >= bot - 1e-9, "frequency light-cone inside the range")
        c.true(1420 / (1 + zo[-1]) - 1420 / (1 + top) <= dnu * (1 + 1e-6) and 1420 / (1 + bot) - 1420 / (1 + zo[0]) <= dnu * (1 + 1e-6), "frequency light-cone spans the range")
    else: check_z(c, zo, zl, zh, box / n, z)
    want = np.stack([ref_slice(z, data, zz, i, los, kind) for i, zz in enumerate(zo)], -1)
    ok = np.ones(len(zo), bool)
    if kind == "step":
        for i, zz in enumerate(zo):
            a, b = bracket(z, zz)
            ok[i] = abs((zz - z[a]) / (z[b] - z[a]) - .5) > 1e-9
    c.close(lc[..., ok], want[..., ok], f"slices ({kind}, los {los}, {how})", rtol=3e-5 if kind == "sigmoid" else 5e-6)
    K.reset()


@monitor("step_cell", quick=360, thorough=1200, min_obs=100)
def step_cell(c):
    K.reset()
    n = c.int(6, 14); z, data = snaps(c, n, k=c.int(2, 4))
    binary = c.coin(.4)
    if not binary: data = [c.rng.random(d.shape) for d in data]
    else:
        data = [(d > 5 * (j - 1)).astype(float) for j, d in enumerate(data)]
        if c.coin(.4): data = [np.zeros_like(d) for d in data]; data[0][c.int(0, n - 1), :, :] = 1
    los = c.int(0, 2); box = (K.cdist(z[-1], .27, .7)[0] - K.cdist(z[0], .27, .7)[0]) * n / c.uni(5, 25)
    c.note(n=n, z=z, binary=binary, los=los, box=box)
    lc, zo = c.call(t2c.make_lightcone, {float(a): b for a, b in zip(z, data)}, interpolation="step_cell", los_axis=los, box_length_mpc=box)
    for i, zz in enumerate(zo):
        a, b = bracket(z, zz); lo, hi = (take(data[q], i % n, los).astype(float) for q in (a, b))
        g = lc[..., i]
        isl, ish = np.isclose(g, lo, rtol=1e-6, atol=1e-5), np.isclose(g, hi, rtol=1e-6, atol=1e-5)
        c.true(np.all(isl | ish), f"slice {i}: every cell is the low or the high snapshot's value")
        if binary: continue
        # the rank of a changed cell in the smoothed high snapshot sets the redshift at which it switches
        sm = t2c.smooth_gauss(hi, sigma=4.); v = np.sort(sm[np.abs(hi - lo) > 1e-3])
        t = np.interp(sm, v + 1e-10, np.linspace(v[0], v[-1], len(v)), left=0, right=0)
        t[sm == v[-1]] = v[-1]
        t = (t - t.min()) / t.max(); f = (zz - z[a]) / (z[b] - z[a])
        sure = (np.abs(t - f) > 1e-4) & (np.abs(hi - lo) > 1e-2) & (np.abs(sm - v[0]) > 1e-7) & (np.abs(sm - v[-1]) > 1e-7)
        c.equal(ish[sure], (t <= f)[sure], f"slice {i}: switching order of cells")
    K.reset()


@monitor("velocity", quick=450, thorough=1000, min_obs=100)
def velocity(c):
    om, h = K.random_cosmology(c, t2c)
    n = c.int(3, 6); z, data = snaps(c, n, vector=True)
    quiet(t2c.set_sim_constants, c.pick([200, 244, 425, 500])); los = c.int(0, 2)
    files = c.coin(.5); d = c.tmp()
    p = c.rng.permutation(len(z))
    dens = [c.rng.uniform(.5, 20, (n, n, n)).astype("f4") for _ in z]
    kw = dict(los_axis=los)
    if c.coin(.5): kw["z_low"] = c.uni(z[0], z[0] + .5 * (z[-1] - z[0]))
    if files:
        fv, fd = [], []
        data = [x.astype("f4") for x in data]
        for i in p:
            fv.append(f"{d}/{z[i]:07.3f}v_all.dat"); fd.append(f"{d}/{z[i]:07.3f}n_all.dat")
            for f, x in ((fv[-1], data[i]), (fd[-1], dens[i])):
                with open(f, "wb") as fh: fh.write(np.array([n] * 3, "i4").tobytes() + x.tobytes("F"))
        src = (fv, fd)
        ref = [x.astype(float) * conv.velconvert(zi) / (y.astype(float) / 8) for x, y, zi in zip(data, dens, z)]
    else:
        src = ({float(z[i]): data[i] for i in p}, {float(z[i]): dens[i] for i in p}); ref = data
    c.note(n=n, z=z, los=los, files=files, kw=kw)
    lc, zo = c.call(t2c.make_velocity_lightcone, *src, **kw)
    check_z(c, zo, kw.get("z_low", z[0]), z[-1], conv.LB / n, z)
    want = np.stack([ref_slice(z, ref, zz, i, los, "linear") for i, zz in enumerate(zo)], -1)
    c.close(lc, want, "velocity slices", rtol=1e-5)
    K.reset()


@monitor("subvolume", quick=750, thorough=1500, min_obs=150)
def subvolume(c):
    om, h = K.random_cosmology(c, t2c)
    n = c.int(2, 5); zl = c.uni(6, 12); dx = c.uni(1, 12)
    zs = [zl]
    for _ in range(c.int(40, 160)): zs.append(zs[-1] + const.Hz(zs[-1]) * dx / const.c)
    zs = np.array(zs); lc = c.rng.normal(size=(n, n, len(zs))) + 3
    j = c.int(15, len(zs) - 15); zc = zs[j] + c.uni(0, 1) * (zs[j + 1] - zs[j])
    room = min(j, len(zs) - 1 - j) * dx * 1.9
    depth = c.uni(2 * dx, room); kw = {}
    dc = K.cdist(zc, om, h)[0]
    if c.coin():
        kw["depth_mpc"] = depth; lo, hi = K.zof([dc - depth / 2, dc + depth / 2], om, h)
    else:
        nu = 1420 / (1 + zc); w = kw["depth_mhz"] = 1420 / (1 + K.zof(dc - depth / 2, om, h)[0]) - 1420 / (1 + K.zof(dc + depth / 2, om, h)[0])
        lo, hi = 1420 / (nu + w / 2) - 1, 1420 / (nu - w / 2) - 1
    bad = lo < zs[0] or hi > zs[-1]
    if abs(lo - zs[0]) < 1e-4 or abs(hi - zs[-1]) < 1e-4: raise Skip()
    odd = kw["odd_num_cells"] = c.coin(); sm = kw["subtract_mean"] = c.coin()
    fov = kw["fov_Mpc"] = c.uni(50, 300); kw["verbose"] = c.coin()
    c.note(om=om, h=h, zs=zs, zc=zc, kw=kw)
    if bad:
        c.raises(t2c.get_lightcone_subvolume, lc, zs, zc, **kw, what="subvolume outside the light-cone"); K.reset(); return
    sub, dims, zz = c.call(t2c.get_lightcone_subvolume, lc, zs, zc, **kw)
    d = np.abs(zs - lo), np.abs(zs - hi)
    if min(np.sort(x)[1] - np.sort(x)[0] for x in d) < 1e-5: K.reset(); raise Skip()
    a, b = np.argmin(d[0]), np.argmin(d[1])
    if odd and (b - a) % 2 == 0: b += 1
    c.equal(zz, zs[a:b], "redshifts of the subvolume")
    want = lc[..., a:b] - (lc[..., a:b].mean((0, 1)) if sm else 0)
    c.close(sub, want, "slices of the subvolume", rtol=1e-9)
    c.close(np.array(dims), np.array([fov, fov, K.cdist(hi, om, h)[0] - K.cdist(lo, om, h)[0]]), "dimensions of the subvolume", rtol=1e-5)
    K.reset()


@monitor("freq_box", quick=40, thorough=200, min_obs=100)
def freq_box(c):
    """the older one-call route from C2-Ray files to light-cones"""
    from tools21cm import deprecated
    n = c.int(3, 6); k = c.int(2, 5); zs = np.unique(np.round(c.uni(6, 10) + np.cumsum(np.r_[0, c.rng.uniform(.03, .2, k - 1)]), 3)); d = c.tmp(); cube = {}
    if len(zs) < 2: raise Skip
    quiet(t2c.set_sim_constants, c.pick([37, 64, 114, 244])); om, h = const.Omega0, const.h
    L = conv.LB * n / (K.cdist(zs[-1], om, h)[0] - K.cdist(zs[0], om, h)[0])
    if conv.LB / n * 2 > K.cdist(zs[-1], om, h)[0] - K.cdist(zs[0], om, h)[0]: raise Skip
    os.makedirs(d + "/x"); os.makedirs(d + "/d")
    for z in c.rng.permutation(zs):
        x, r = c.rng.random((n,) * 3), (c.rng.random((n,) * 3) * 1e3 + 100).astype("f4"); open(f"{d}/x/xfrac3d_{z:.3f}.bin", "wb").write(np.array([12, n, n, n, 12, 0], "i4").tobytes() + x.tobytes("F")); open(f"{d}/d/{z:.3f}n_all.dat", "wb").write(np.array([n] * 3, "i4").tobytes() + r.tobytes("F"))
        xf, df = t2c.XfracFile(f"{d}/x/xfrac3d_{z:.3f}.bin"), t2c.DensityFile(f"{d}/d/{z:.3f}n_all.dat"); cube[z] = (xf.xi, df.cgs_density, t2c.calc_dt(xf.xi, df.cgs_density, float(z))); c.equal(xf.xi, x, "the file holds the ionised fraction")
    zl, zh = zs[0] - c.uni(0, .05), zs[-1] + c.uni(-.02, .1); c.note(n=n, zs=zs, zl=zl, zh=zh)
    X, R, T, z = c.call(deprecated.freq_box, d + "/x", d + "/d", zl, zh); c.true(len(z) > 0 and z[0] > zs[0] and z[-1] < zs[-1], "redshifts inside the snapshots"); dc = K.cdist(z, om, h); c.close(np.diff(dc), np.full(len(z) - 1, conv.LB / n), "one cell apart", rtol=.02)
    c.true(K.cdist(min(zh, zs[-1]), om, h)[0] - dc[-1] <= 1.02 * conv.LB / n and dc[0] - K.cdist(zs[0], om, h)[0] <= 1.02 * conv.LB / n, "the whole range is covered")
    for q, g in enumerate((X, R, T)): c.close(g, np.stack([ref_slice(zs, [cube[a][q] for a in zs], zz, i, 2, "linear") for i, zz in enumerate(z)], -1), ("ionised fraction", "density", "brightness temperature")[q] + " of every slice", rtol=5e-6)
    quiet(t2c.set_sim_constants, 244)
