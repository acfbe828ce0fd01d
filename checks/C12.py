"""C12: Euler characteristic and Betti numbers on every backend against counts made with shifted arrays and flood fill."""
import os, sys
import numpy as np
from vh import monitor, Skip, quiet
import cyext
cyext_so = cyext.build(os.path.join(os.environ["VH_SCRATCH"], "ext"))
sys.modules["tools21cm.ViteBetti_cython"] = cyext.load(cyext_so)
import tools21cm as t2c
from tools21cm import ViteBetti as VB
from gens import binary, with_threshold, flood
assert VB.cython_available and VB.CubeMap_cython is sys.modules["tools21cm.ViteBetti_cython"].CubeMap
BACKENDS = ["cython", "numba", "numpy"]


def chi(m):
    """V - E + F - C of the periodic complex spanned by the selected cells."""
    m = m.astype(bool); r = lambda a, *ax: a if not ax else r(a & np.roll(a, -1, ax[0]), *ax[1:])
    return int(m.sum()) - sum(int(r(m, a).sum()) for a in range(3)) + sum(int(r(m, *p).sum()) for p in ((0, 1), (0, 2), (1, 2))) - int(r(m, 0, 1, 2).sum())


def dress(c, f):
    k = c.pick(["C", "F", "neg", "strided"])
    if k == "F": return np.asfortranarray(f)
    if k == "neg": return f[::-1, :, ::-1][::-1, :, ::-1]
    if k == "strided":
        g = np.zeros(tuple(2 * s for s in f.shape), f.dtype); g[::2, ::2, ::2] = f; return g[::2, ::2, ::2]
    return f


def field(c, mx=7):
    sh = tuple(c.int(1, mx) for _ in range(3)) if c.coin(.7) else (c.int(2, mx),) * 3
    k, m = binary(c, sh); f, xth, fk = with_threshold(c, m)
    f = np.where(m, f + 0 * f, f)
    if np.any(f[m] <= xth): f = np.where(m & (f <= xth), xth + 1, f)     # the topology threshold is strict
    if k == "full" and fk == "tie": pass
    if c.coin(.2): f, xth = m.astype(c.pick([int, float, "i1", "f4", bool])), .5
    return sh, k, m, dress(c, f), xth


def kwargs(c, xth, nb):
    kw = {}
    if xth != .5 or c.coin(.3): kw["thres"] = xth
    if nb != 6 or c.coin(.3): kw["neighbors"] = nb
    return kw


@monitor("euler", quick=500, thorough=6000, min_obs=750)
def euler(c):
    sh, k, m, f, xth = field(c); nb = c.pick([6, 6, 4, 26, 18, 8]); c.note(sh=sh, k=k, xth=xth, nb=nb, dt=f.dtype.str, m=m)
    want = chi(m if nb in (4, 6) else ~m); kw = kwargs(c, xth, nb)
    c.true(c.call(t2c.EulerCharacteristic, f, **kw) == want, "default backend: V-E+F-C")
    for b in BACKENDS + [c.pick(["Cython", "NUMBA", "python", "torch", "nosuch"])]:
        r = c.call(t2c.EulerCharacteristic, f, speed_up=b, verbose=c.coin(), **kw)
        c.true(r == want, f"{b}: {r}, V-E+F-C = {want}")
    g = f
    for _ in range(3):
        t = c.pick(["roll", "perm", "flip"])
        if t == "roll": g = np.roll(g, tuple(c.int(-5, 5) for _ in range(3)), (0, 1, 2))
        if t == "perm": g = g.transpose(c.rng.permutation(3))
        if t == "flip": g = np.flip(g, c.int(0, 2))
    b = c.pick(BACKENDS); c.true(c.call(t2c.EulerCharacteristic, g, speed_up=b, verbose=False, **kw) == want, f"{b}: invariant under shifts, permutations and reflections")
    if min(sh) > 1 and c.coin(.2):       # a tiled periodic pattern has twice the characteristic
        g = np.concatenate([f, f], c.int(0, 2)); c.true(c.call(t2c.EulerCharacteristic, g, verbose=False, **kw) == 2 * want, "additive over periods")


@monitor("euler_large", quick=40, thorough=400, min_obs=35)
def euler_large(c):
    sh = tuple(c.int(10, 40) for _ in range(3)); k, m = binary(c, sh); nb = c.pick([6, 26]); want = chi(m if nb == 6 else ~m); c.note(sh=sh, k=k, nb=nb)
    for b in ("cython", "numba"): c.true(c.call(t2c.EulerCharacteristic, m * 1., neighbors=nb, speed_up=b, verbose=False) == want, f"{b}: V-E+F-C")


@monitor("maps", quick=200, thorough=2000, min_obs=900)
def maps(c):
    """the cell complex itself, from every backend: a cell of dimension p is present when its 2^p corners are selected"""
    sh = tuple(c.size(1, 6, 20) for _ in range(3)); k, m = binary(c, sh); a = m.astype(c.pick(["i4", "i8", "?", "u1", "f4"])); mm = c.coin(.7); c.note(sh=sh, k=k, dt=a.dtype.str, mm=mm, m=m); want = np.zeros([2 * n for n in sh], int)
    for o in np.ndindex(2, 2, 2):
        x = m
        for ax in range(3):
            if o[ax]: x = x & np.roll(x, -1, ax)
        want[o[0]::2, o[1]::2, o[2]::2] = x * (1 + sum(o) if mm else 1)
    i4 = a.astype("i4"); args = () if mm and c.coin() else (mm,)
    for n, r in (("python", c.call(VB.CubeMap, a, *args)), ("numba", c.call(VB.CubeMap_numba, i4, mm)), ("cython", c.call(VB.CubeMap_cython, i4, *args))) + ((("joblib", c.call(VB.CubeMap_joblib, i4, *args, n_jobs=2)),) if c.i % 50 == 3 else ()): c.equal(np.asarray(r), want, f"{n}: cells of the complex")
    c.equal(a.astype(bool), m, "the field is left alone"); c.equal(i4.astype(bool), m, "the field is left alone")


@monitor("parallel", quick=24, thorough=400, min_obs=15)
def parallel(c):
    sh = tuple(c.int(1, 6) for _ in range(3)); k, m = binary(c, sh); nb = c.pick([6, 26]); want = chi(m if nb == 6 else ~m); nj = c.pick([2, 3, 4, -1, 7] if c.thorough else [2, 3, 3]); c.note(sh=sh, k=k, nb=nb, nj=nj)
    r = c.call(t2c.EulerCharacteristic, m * 1, neighbors=nb, speed_up="numpy", n_jobs=nj, verbose=c.coin())
    c.true(r == want, f"{nj} jobs: {r}, V-E+F-C = {want}")
    b1 = c.call(t2c.betti1, m * 1, neighbors=nb, speed_up="numpy", n_jobs=nj, verbose=False); con = 1 if nb == 6 else 2
    c.true(b1 == len(flood(m, con)[1]) + len(flood(~m, con)[1]) - want, "betti1 in parallel")


@monitor("betti", quick=400, thorough=4000, min_obs=750)
def betti(c):
    sh, k, m, f, xth = field(c); nb = c.pick([6, 6, 4, 18, 26]); con = 1 if nb in (4, 6) else 2; c.note(sh=sh, k=k, xth=xth, nb=nb, m=m); kw = kwargs(c, xth, nb)
    b0, b2 = len(flood(m, con)[1]), len(flood(~m, con)[1]); x = chi(m if con == 1 else ~m)
    r = c.call(t2c.betti0, f, **kw); c.true(r == b0, f"betti0 {r}, {b0} connected components")
    r = c.call(t2c.betti2, f, **kw); c.true(r == b2, f"betti2 {r}, {b2} unselected components")
    b = c.pick(BACKENDS); r = c.call(t2c.betti1, f, speed_up=b, verbose=False, **kw); c.true(b0 - r + b2 == x, f"b0-b1+b2 = {b0-r+b2}, Euler characteristic {x}")
    g = {n: v for n, v in dict(b0=b0, b2=b2, chi=x).items() if c.coin()}; c.true(c.call(t2c.betti1, f, verbose=False, **g, **kw) == r, "betti1 from given values")
    g = {n: c.int(-2, 2) for n in ("b0", "b2", "chi")}; r = c.call(t2c.betti1, f, verbose=False, **g, **kw); c.true(r == g["b0"] + g["b2"] - g["chi"], f"betti1 {r} of the given {g}")
    g = np.flip(f.transpose(c.rng.permutation(3)), c.int(0, 2)); c.true(c.call(t2c.betti0, g, **kw) == b0 and c.call(t2c.betti2, g, **kw) == b2, "invariant under permutations and reflections")


@monitor("known_shapes", quick=60, thorough=600, min_obs=50)
def known(c):
    """Solid ball chi=1; n balls n; shell 2; ring 0; column through the box 0."""
    n = c.int(14, 22); ix = np.indices((n,) * 3) - n // 2; r2 = (ix ** 2).sum(0); R = c.int(3, 5); k = c.pick(["ball", "shell", "ring", "column", "slab", "two"]); ax = c.int(0, 2)
    rho = np.sqrt(r2 - ix[ax] ** 2)
    m, want = {"ball": (r2 <= R * R, 1), "shell": ((r2 <= R * R) & (r2 > 2), 2), "ring": (((rho - 4.5) ** 2 + ix[ax] ** 2) <= 1.6 ** 2, 0),
               "column": (rho <= R, 0), "slab": (np.abs(ix[ax]) <= 2, 0), "two": ((r2 <= 4) | (((np.indices((n,) * 3) - 1) ** 2).sum(0) <= 1), 2)}[k]
    sh = tuple(c.int(0, n) for _ in range(3)); g = np.roll(m, sh, (0, 1, 2)).astype(float); c.note(n=n, k=k, R=R, ax=ax, sh=sh)
    for b in ("cython", "numba"): c.true(c.call(t2c.EulerCharacteristic, g, speed_up=b, verbose=False) == want, f"{k}: characteristic {want}")
