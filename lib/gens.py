"""Shared input generators."""
import numpy as np
from collections import deque
from itertools import product

DT = [np.float64, np.float64, np.float32, np.int64, np.int32, bool]


def field(c, shape):
    kind = c.pick(["gauss", "gauss", "binary", "wave", "offset", "sparse", "huge"])
    r = c.rng
    if kind == "gauss": a = r.normal(size=shape)
    elif kind == "binary": a = (r.random(shape) < c.uni(.1, .9)).astype(float)
    elif kind == "offset": a = 5 + r.normal(size=shape)
    elif kind == "sparse": a = np.zeros(shape); a.flat[r.integers(a.size, size=3)] = r.normal(size=3)
    elif kind == "huge": a = 1e6 * r.normal(size=shape)
    else:
        idx = np.indices(shape)
        m = [c.int(0, max(1, n // 2)) for n in shape]
        a = np.cos(sum(2 * np.pi * mm * ii / n for mm, ii, n in zip(m, idx, shape)) + c.uni(0, 6))
    dt = c.pick(DT)
    if dt is bool: a = a > 0
    elif np.issubdtype(dt, np.integer): a = np.round(a * 3).astype(dt)
    else: a = a.astype(dt)
    return a, kind


def flood(mask, conn):
    """Connected components by flood fill; faces/edges/corners by `conn`."""
    nd = mask.ndim
    offs = [o for o in product((-1, 0, 1), repeat=nd) if 0 < sum(map(abs, o)) <= conn]
    lab = np.zeros(mask.shape, int); n = 0; sizes = []
    for p in zip(*np.nonzero(mask)):
        if lab[p]: continue
        n += 1; lab[p] = n; q = deque([p]); s = 0
        while q:
            a = q.popleft(); s += 1
            for o in offs:
                b = tuple(x + y for x, y in zip(a, o))
                if all(0 <= x < m for x, m in zip(b, mask.shape)) and mask[b] and not lab[b]: lab[b] = n; q.append(b)
        sizes.append(s)
    return lab, sizes


def binary(c, sh):
    """Selected-cell masks from empty to full, in several textures."""
    k = c.pick(["rand", "rand", "smooth", "empty", "full", "one", "allbut", "slab", "balls", "few"]); p = c.pick([.05, .2, .3, .5, .8, .95])
    if k == "empty": m = np.zeros(sh, bool)
    elif k == "full": m = np.ones(sh, bool)
    elif k in ("one", "allbut"):
        m = np.zeros(sh, bool); m[tuple(c.int(0, s - 1) for s in sh)] = True
        if k == "allbut": m = ~m
    elif k == "slab":
        m = np.zeros(sh, bool); ax = c.int(0, len(sh) - 1); a = c.int(0, sh[ax] - 1); b = c.int(a + 1, sh[ax])
        m[(slice(None),) * ax + (slice(a, b),)] = True
    elif k == "balls":
        m = np.zeros(sh, bool); ix = np.indices(sh)
        for _ in range(c.int(1, 3)):
            ce = [c.uni(0, s) for s in sh]; m |= sum((ix[d] - ce[d]) ** 2 for d in range(len(sh))) <= c.uni(.8, max(1., max(sh) / 2.5)) ** 2
    elif k == "few":                    # a rod and single cells, the last cell of the box among them
        m = np.zeros(sh, bool); ax = int(np.argmax(sh)); a = [c.int(0, s - 1) for s in sh]; a[ax] = slice(0, max(1, c.int(sh[ax] // 2, sh[ax] - 1))); m[tuple(a)] = c.coin(.8)
        m[(-1,) * len(sh)] = True
        if c.coin(.3): m[(0,) * len(sh)] = True
    else:
        x = c.rng.normal(size=sh)
        if k == "smooth":
            for d in range(len(sh)): x = x + np.roll(x, 1, d) + np.roll(x, -1, d)
        m = x > np.quantile(x, 1 - p)
    return k, m


def with_threshold(c, m):
    """A field whose cells >= xth are exactly m."""
    xth = c.pick([.5, .5, .3, .9, 0., -2.5, 1.])
    k = c.pick(["cont", "two", "int", "tie", "split", "near", "f4"])
    if k == "two" and 0 < xth <= 1: f = m.astype(float)
    elif k == "int" and 0 < xth <= 1: f = m.astype(int)
    else:
        d = c.rng.uniform(1e-3, 1, m.shape); f = np.where(m, xth + d, xth - d)
        if k == "tie": f = np.where(m & (c.rng.random(m.shape) < .5), xth, f)
        if k == "split":                # one side of the selected region sits exactly on the threshold
            ax = c.int(0, m.ndim - 1); f = np.where(m & (np.indices(m.shape)[ax] < c.uni(.2, .8) * m.shape[ax]), xth, f)
        if k == "near": f = np.where(m, xth + d * 1e-9, xth - d * 1e-9)
        if k == "f4": f = f.astype("f4")
    return f, xth, k
