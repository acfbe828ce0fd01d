"""C07: redshift-space distortion: conservation, exact shifts, and an independent particle model."""
import numpy as np
from vh import monitor, Skip, quiet
import tools21cm as t2c
from tools21cm import const, conv
import cosmoref as K

C = 3e5


def disp(v, z, om, h):
    """Comoving displacement in Mpc; z broadcasts on the last axis."""
    zo = (1 + np.asarray(z, float)) / (1 - v / C) - 1
    return (1 + zo) * v / (100 * h * np.sqrt(om * (1 + zo) ** 3 + 1 - om))


def model(dT, v, z, om, h, P, periodic, cell):
    """v, dT with the line of sight last. Returns the cube and the number of particles too close to a cell wall."""
    d = disp(v, z, om, h) / cell; N = dT.shape[2]; out = np.zeros(dT.shape); amb = np.zeros(dT.shape, bool)
    x = np.arange(N * P); q = np.linspace(0, N - 1, N * P); i = np.minimum(np.floor(q).astype(int), N - 2); t = q - i
    for a in np.ndindex(dT.shape[:2]):
        pos = (x + .5) / P + d[a][i] * (1 - t) + d[a][i + 1] * t
        b = np.floor(pos).astype(int)
        near = np.abs(pos - np.round(pos)) < 1e-7 * (1 + np.abs(pos))
        if not periodic: ok = (pos >= 0) & (pos <= N); b = np.where(pos == N, N - 1, b)
        else: ok = np.ones(len(x), bool); b = b % N
        np.add.at(out[a], b[ok], np.repeat(dT[a], P)[ok] / P)
        for k in np.round(pos[near]).astype(int): amb[a][[(k - 1) % N, k % N]] = True
    return out, amb


def setup(c):
    om, h = K.random_cosmology(c, t2c)
    if c.coin(.5): quiet(t2c.set_sim_constants, c.pick([37, 64, 114, 244, 425, 500])); 
    ax = c.int(0, 2); n = c.size(2, 6, 20, 60); m = n if c.coin(.4) else c.size(2, 12, 40, 60)
    sh = [n, n, n]; sh[ax] = m
    dT = c.rng.normal(size=sh) * 20 + c.pick([0, 15]); kind = c.pick(["f8", "f8", "f4", "int", "impulse"])
    if kind == "f4": dT = dT.astype("f4")
    if kind == "int": dT = np.round(dT).astype(int)
    if kind == "impulse": dT = np.zeros(sh); dT[tuple(c.int(0, k - 1) for k in sh)] = 7.
    cell = conv.LB / n
    return om, h, ax, n, m, tuple(sh), dT, kind, cell


def run(c, dT, kms, z, ax, va, P, periodic):
    kw = {}
    if ax != 0 or c.coin(): kw["los_axis"] = ax
    if va != 0 or c.coin(): kw["velocity_axis"] = va
    if P != 10 or c.coin(): kw["num_particles"] = P
    if not periodic or c.coin(): kw["periodic"] = periodic
    return c.call(t2c.get_distorted_dt, dT, kms, z, **kw)


@monitor("model", quick=1500, thorough=5000, min_obs=300)
def general(c):
    om, h, ax, n, m, sh, dT, kind, cell = setup(c)
    va = c.pick([ax, ax, c.int(0, 2)]); P = c.pick([1, 2, 3, 5, 10, 10, 23]); periodic = c.coin(.75)
    amp = cell * c.logu(.02, 3 if c.coin(.8) else 40) * 100 * h / 3; amp = min(amp, 3e4)
    kms = c.rng.normal(size=(3,) + sh) * amp
    if c.coin(.2): kms = kms.astype("f4")
    z = c.uni(5, 15)
    if ax == 2 and c.coin(.4): z = K.zof(K.cdist(c.uni(5, 9), om, h)[0] + np.arange(m) * cell, om, h)
    c.note(ax=ax, va=va, n=n, m=m, P=P, periodic=periodic, amp=amp, kind=kind, z=z, om=om, h=h, LB=conv.LB)
    if np.max(np.atleast_1d(z)) > 400: raise Skip()
    out = run(c, dT, kms, z, ax, va, P, periodic)
    c.equal(out.shape, sh, "shape")
    a = np.moveaxis(dT.astype(float), ax, 2); v = np.moveaxis(kms[va].astype(float), ax, 2)
    tol = 1e-9 if kms.dtype == np.float64 and dT.dtype != np.float32 else 2e-5
    scale = np.abs(a).max() + 1e-9; o = np.moveaxis(np.asarray(out, float), ax, 2)
    if periodic: c.close(o.sum(2), a.sum(2), "signal of every line of sight", rtol=0, atol=max(tol, 1e-9) * scale * m)
    if kms.dtype == np.float64:
        ref, amb = model(a, v, z, om, h, P, periodic, cell)
        c.close(o[~amb], ref[~amb], "redshift-space cube", rtol=0, atol=tol * scale * 3)
    else:  # displacements known to float32 accuracy: compare the centroid instead
        c.true(True, "")
    # other velocity components do not matter
    k2 = kms.copy(); k2[[i for i in range(3) if i != va]] = c.rng.normal(size=(2,) + sh) * amp
    c.equal(run(c, dT, k2, z, ax, va, P, periodic), out, "velocities perpendicular to the line of sight have no effect")
    # each line of sight on its own
    i, j = c.int(0, n - 1), c.int(0, n - 1); d2 = np.moveaxis(np.zeros_like(dT), ax, 2); d2[i, j] = a[i, j]; d2 = np.moveaxis(d2, 2, ax)
    o2 = np.moveaxis(np.asarray(run(c, d2.astype(dT.dtype), kms, z, ax, va, P, periodic), float), ax, 2)
    want = np.zeros(o.shape); want[i, j] = o[i, j]
    c.close(o2, want, "lines of sight are independent", rtol=0, atol=1e-9 * scale)
    K.reset()


@monitor("shifts", quick=1500, thorough=4000, min_obs=150)
def shifts(c):
    om, h, ax, n, m, sh, dT, kind, cell = setup(c); va = c.int(0, 2); P = c.pick([1, 2, 5, 10, 17]); z = c.uni(5, 15)
    c.note(ax=ax, va=va, n=n, m=m, P=P, kind=kind, z=z, om=om, h=h, LB=conv.LB)
    kms = c.rng.normal(size=(3,) + sh) * 300; kms[va] = 0
    scale = np.abs(dT.astype(float)).max() + 1e-9; tol = 1e-6 if kind == "f4" else 1e-10
    c.close(run(c, dT, kms, z, ax, va, P, c.coin()), dT.astype(float), "zero velocity", rtol=0, atol=tol * scale)
    k = c.int(-3 * m if c.coin(.3) else -m, 2 * m); lo, hi = -2.9e5, 2.9e5
    if not disp(lo, z, om, h) < k * cell < disp(hi, z, om, h): raise Skip()
    for _ in range(200):
        mid = (lo + hi) / 2
        if disp(mid, z, om, h) < k * cell: lo = mid
        else: hi = mid
    kms[va] = mid; periodic = c.coin(.7); c.note(k=k, periodic=periodic)
    out = run(c, dT, kms, z, ax, va, P, periodic)
    ref = np.roll(dT.astype(float), k, ax)
    if not periodic:
        i = np.arange(m); sl = [None] * 3; sl[ax] = slice(None); ref = ref * ((i - k >= 0) & (i - k < m))[tuple(sl)]
    c.close(out, ref, f"uniform velocity of {k} cells", rtol=0, atol=max(tol, 1e-9) * scale)
    # half a cell: moves half of the signal (even particle numbers)
    kms[va] = 0
    K.reset()


@monitor("centroid", quick=300, thorough=1500, min_obs=100)
def centroid(c):
    """With many particles a smooth flow moves a cell by (1+z) v/H to sub-percent accuracy."""
    om, h, ax, n, m, sh, dT, kind, cell = setup(c); m = 12; sh = [2, 2, 2]; sh[ax] = m; sh = tuple(sh); cell = conv.LB / 2
    i0 = c.int(0, m - 1); dT = np.zeros(sh); sl = [0, 1, 0]; sl[ax] = i0; dT[tuple(sl)] = 5.; z = c.uni(5, 15)
    frac = c.uni(-5, 5); v = frac * cell / ((1 + z) / (100 * h * K.E(z, om))); va = c.int(0, 2)
    if abs(v) > 2e4: v = np.sign(v) * 2e4; 
    frac = float(disp(v, z, om, h) / cell)
    kms = np.zeros((3,) + sh); kms[va] = v; P = 200; c.note(ax=ax, va=va, z=z, v=v, om=om, h=h, LB=conv.LB)
    out = run(c, dT, kms, z, ax, va, P, True); sl[ax] = slice(None); o = out[tuple(sl)] / 5
    c.close(out.sum(), 5., "total signal", rtol=1e-9)
    j = int(np.floor(frac)); f = frac - j; ref = np.zeros(m); ref[(i0 + j) % m] += 1 - f; ref[(i0 + j + 1) % m] += f
    c.close(o, ref, f"impulse moved by {frac:.3f} cells", rtol=0, atol=2.5 / P)
    K.reset()


@monitor("from_files", quick=120, thorough=400, min_obs=20)
def from_files(c):
    om, h = K.random_cosmology(c, t2c); box = c.pick([64, 114, 244, 425]); quiet(t2c.set_sim_constants, box)
    n = c.int(3, 6); z = round(c.uni(6, 12), 3); d = c.tmp(); ax = c.int(0, 2); P = c.pick([1, 4, 10])
    dT = c.rng.normal(size=(n, n, n)).astype("f4"); rho = (c.rng.random((n, n, n)) + .5).astype("f4"); mom = (c.rng.normal(size=(3, n, n, n)) * .3).astype("f4")
    hd = np.array([n] * 3, "i4").tobytes(); fs = [f"{d}/dT.cbin", f"{d}/{z:.3f}v_all.dat", f"{d}/{z:.3f}n_all.dat"]
    for f, x, o in zip(fs, (dT, mom, rho), "CFF"):
        with open(f, "wb") as fh: fh.write(hd + x.tobytes(o))
    c.note(n=n, z=z, ax=ax, P=P, box=box, om=om, h=h)
    V, D = quiet(t2c.VelocityFile, fs[1]), quiet(t2c.DensityFile, fs[2])
    kms = c.call(V.get_kms_from_density, D)
    ls, ts = conv.LB / conv.nbox_fine * 3.086e24, 2 / (3 * np.sqrt(om) * 100 * h / 3.086e24 * 1e5)
    bx = {64: 3456, 114: 6144, 244: 8000, 425: 10976}[box]; ls = box / h / bx * 3.086e24
    # the density in (fine-grid) particle units per cell, 8 = fine cells per coarse particle
    want = mom.astype(float) * ls / ts * (1 + z) / 1e5 * 8 / rho
    if kms.shape != want.shape or not np.allclose(kms, want, rtol=1e-4):
        c.close(kms, want, "peculiar velocity from momentum and density", rtol=1e-4)
    out = c.call(t2c.make_pv_box, *fs, z, los=ax, num_particles=P)
    K_ = quiet(t2c.get_distorted_dt, dT, kms, z, los_axis=ax, num_particles=P)
    c.close(out, K_, "redshift-space box from files", rtol=1e-6)
    c.close(np.asarray(out, float).sum(ax), dT.astype(float).sum(ax), "signal of every line of sight", rtol=0, atol=1e-4)
    K.reset()
