"""C02: (k,mu), (kpar,kperp) and multipole spectra vs explicit mode membership."""
import numpy as np
from vh import monitor, Skip
import psref as R
import tools21cm as t2c
from gens import field


def setup(c, aniso=.7):
    mode = c.pick(["even", "odd", "mixed", "mixed"])
    if mode == "even": shape = (2 * c.int(2, 6),) * 3
    elif mode == "odd": shape = (2 * c.int(2, 5) + 1,) * 3
    else:
        shape = tuple(c.int(4, 12) for _ in range(3))
        if c.coin(.2): q = c.int(0, 2); shape = tuple(c.int(2, 3) if i == q else n for i, n in enumerate(shape))
    b = c.logu(5, 800) if c.coin(.85) else c.logu(800, 1e6)
    box = [b * c.uni(.5, 2) for _ in range(3)] if c.coin(aniso) else [b] * 3
    arg = c.pick([list(box), np.array(box), tuple(box)])
    if len(set(box)) == 1 and c.coin(): arg = b
    return shape, box, arg


def mu_ref(shape, box, los, absolute):
    kc = R.kcomp(shape, box); k = R.kmag(shape, box)
    with np.errstate(all="ignore"):
        mu = kc[los] / k
    return kc, k, (np.abs(mu) if absolute else mu)


def two_d(x, y, val, ex, ey, keep):
    i = np.searchsorted(ex, x.ravel(), "right") - 1
    j = np.searchsorted(ey, y.ravel(), "right") - 1
    ok = (i >= 0) & (i < len(ex) - 1) & (j >= 0) & (j < len(ey) - 1) & keep.ravel() & ~np.isnan(x.ravel()) & ~np.isnan(y.ravel())
    nb = (len(ex) - 1, len(ey) - 1)
    f = np.ravel_multi_index((i[ok], j[ok]), nb)
    n = np.bincount(f, minlength=nb[0] * nb[1]).reshape(nb).astype(float)
    s = np.bincount(f, weights=val.ravel()[ok], minlength=nb[0] * nb[1]).reshape(nb)
    with np.errstate(all="ignore"):
        return s / n, n


@monitor("mu", quick=480, thorough=4000, min_obs=150)
def mu(c):
    shape, box, arg = setup(c)
    a, kind = field(c, shape)
    cross = c.coin(.35); b = field(c, shape)[0] if cross else a
    los = c.int(0, 2); absolute = c.coin(.7); exz = c.coin(.6)
    kc, k, m = mu_ref(shape, box, los, absolute)
    how = c.pick(["int", "edges", "edges"])
    if how == "int": kb = c.int(1, 7); ke = R.edges(kb, shape, box, "log")
    else:
        ke = kb = R.safe_edges(c.rng, k, c.int(1, 6), log=c.coin())
        if kb is None: raise Skip()
    if c.coin(.4): mb = c.int(1, 9); me = np.linspace(0. if absolute else -1., 1., mb + 1)
    else:
        lo = -.01 if absolute else -1.01
        me = mb = R.safe_edges(c.rng, m[np.isfinite(m)] - lo + .5, c.int(1, 6), lo=.5, hi=.5 + 1.01 - lo)
        if mb is None: raise Skip()
        me = mb = mb - .5 + lo
    if los == 0 and c.coin(): lk = {}
    else: lk = dict(los_axis=los)
    if not (exz and c.coin()): lk["exclude_zero_modes"] = exz
    if not (absolute and c.coin()): lk["absolute_mus"] = absolute
    lk["box_dims" if c.coin(.7) else "boxsize"] = arg
    c.note(shape=shape, box=arg, kind=kind, a=a, cross=cross, los=los, absolute=absolute, exz=exz, kb=kb, mb=mb)
    kw = dict(mubins=mb, kbins=kb, return_n_modes=True, **lk)
    out = c.call(t2c.cross_power_spectrum_mu, a, b, **kw) if cross else c.call(t2c.power_spectrum_mu, a, **kw)
    P = R.power(a, b, box)
    kp = np.sqrt(sum(kc[q] ** 2 for q in range(3) if q != los))
    keep = k > 0
    if exz: keep &= kp > 0
    want, n = two_d(m, k, P, me, ke, keep)
    sc = np.abs(R.power(a, a, box)).max() if not cross else np.sqrt(R.power(a, a, box).max() * R.power(b, b, box).max())
    amb = R.near_edge(np.where(keep & np.isfinite(m), m, 99.)[keep], me)[:, None] | R.near_edge(k[keep], ke)[None, :]
    c.close(out[1], .5 * (me[1:] + me[:-1]), "mu bin centres", atol=1e-10)
    c.close(out[2], .5 * (ke[1:] + ke[:-1]), "k bin centres", rtol=1e-9)
    got, gn = np.array(out[0], float), np.array(out[3], float)
    c.true(got.shape == want.shape and gn.shape == want.shape, f"shape {got.shape} for {want.shape} bins")
    # bins away from any ambiguity: exact
    g, w = got.copy(), want.copy()
    g[amb] = w[amb] = 0
    c.equal(np.where(amb, 0, gn), np.where(amb, 0, n), "mode counts")
    c.close(g, w, "P(k,mu)", atol=1e-8 * sc, rtol=1e-8)
    # ambiguous bins: a mode on an edge may be in either neighbour (or be dropped at the outermost edge)
    tolm = 1e-9; tolk = 1e-9 * ke[-1]
    mm, kk = m[keep], k[keep]
    for i, j in np.argwhere(amb):
        top = mm <= me[-1] + tolm if i == len(me) - 2 and abs(me[-1] - 1) < tolm else mm < me[i + 1] - tolm   # nothing lies beyond mu=1: the line-of-sight modes belong to the last bin
        core = (mm > me[i] + tolm) & top & (kk > ke[j] + tolk) & (kk < ke[j + 1] - tolk)
        full = (mm >= me[i] - tolm) & (mm <= me[i + 1] + tolm) & (kk >= ke[j] - tolk) & (kk <= ke[j + 1] + tolk)
        c.true(core.sum() <= gn[i, j] <= full.sum(), f"bin {i},{j} holds {gn[i,j]} modes, must hold {core.sum()}..{full.sum()}")
        if gn[i, j] == core.sum() and core.any():
            c.close(got[i, j], P[keep][core].mean(), f"P(k,mu) in bin {i},{j}", atol=1e-8 * sc, rtol=1e-8)


@monitor("twod", quick=420, thorough=4000, min_obs=150)
def twod(c):
    shape, box, arg = setup(c)
    a, kind = field(c, shape)
    nu = c.int(0, 2)
    kc = R.kcomp(shape, box)
    kz = np.abs(kc[nu]); kp = np.sqrt(sum(kc[q] ** 2 for q in range(3) if q != nu))
    how = c.pick(["int", "pair", "edges", "edges"]); binning = c.pick(["log", "linear"])
    win = c.pick([None, None, "tukey", "blackmanharris", "array"]); ta = a
    if win == "array": win = c.rng.random(shape); ta = a * win
    elif win:  # the named tapers act along the frequency axis, whichever it is
        from scipy.signal import windows
        ta = a * getattr(windows, win)(shape[nu]).reshape([-1 if q == nu else 1 for q in range(3)])
    P = R.power(ta, ta, box)
    if how == "edges":
        # lower edges above zero, or below it so that zero modes belong to the first bin
        ep = R.safe_edges(c.rng, kp, c.int(1, 5)); ez = R.safe_edges(c.rng, kz, c.int(1, 5))
        if ep is None or ez is None: raise Skip()
        if c.coin(.3): ez = np.concatenate([[-.5 * kz[kz > 0].min()], ez])
        kb = c.pick([[ep, ez], (ep, ez)]); mid = lambda e: .5 * (e[1:] + e[:-1])
    else:
        if shape[nu] < 4: raise Skip()   # a single line-of-sight frequency gives no bins
        n1 = c.int(1, 6); n2 = n1 if how == "int" else c.int(1, 6)
        kb = n1 if how == "int" else [n1, n2]
        f = (lambda x: np.log10(x)) if binning == "log" else (lambda x: x)
        ep = np.linspace(f(kp[kp > 0].min()), f(kp.max()), n1 + 1); ez = np.linspace(f(kz[kz > 0].min()), f(kz.max()), n2 + 1)
        if binning == "log":
            mid = lambda e: 10 ** (.5 * (e[1:] + e[:-1]))
        else: mid = lambda e: .5 * (e[1:] + e[:-1])
    c.note(shape=shape, box=arg, kind=kind, a=a, nu=nu, kb=kb, binning=binning, window=win)
    kw = dict(kbins=kb, binning=binning, return_modes=True)
    if win is not None: kw["window"] = win.copy() if isinstance(win, np.ndarray) else c.pick([win, win.upper()])
    if nu != 2 or c.coin(): kw["nu_axis"] = nu
    kw["box_dims" if c.coin(.7) else "boxsize"] = arg
    out = c.call(t2c.power_spectrum_2d, a, **kw)
    c.close(out[1], mid(ep), "k_perp centres", rtol=1e-9); c.close(out[2], mid(ez), "k_par centres", rtol=1e-9)
    if how != "edges" and binning == "log":
        with np.errstate(all="ignore"):
            xp, xz = np.log10(kp), np.log10(kz)
    else: xp, xz = kp, kz
    fin = np.isfinite(xp) & np.isfinite(xz)
    want, n = two_d(xp, xz, P, ep, ez, fin)
    ambp, ambz = R.near_edge(xp[fin], ep), R.near_edge(xz[fin], ez)
    amb = ambp[:, None] | ambz[None, :]
    got, gn = np.array(out[0], float), np.array(out[3], float)
    c.true(got.shape == want.shape, f"shape {got.shape} for {want.shape} bins (k_perp, k_par)")
    g, w = got.copy(), want.copy(); g[amb] = w[amb] = 0
    c.equal(np.where(amb, 0, gn), np.where(amb, 0, n), "mode counts")
    c.close(g, w, "P(kperp,kpar)", atol=1e-8 * P.max(), rtol=1e-8)
    tp = 1e-9 * max(abs(ep[0]), abs(ep[-1])); tz = 1e-9 * max(abs(ez[0]), abs(ez[-1]))
    X, Z, V = xp[fin], xz[fin], P[fin]
    for i, j in np.argwhere(amb):
        core = (X > ep[i] + tp) & (X < ep[i + 1] - tp) & (Z > ez[j] + tz) & (Z < ez[j + 1] - tz)
        full = (X >= ep[i] - tp) & (X <= ep[i + 1] + tp) & (Z >= ez[j] - tz) & (Z <= ez[j + 1] + tz)
        c.true(core.sum() <= gn[i, j] <= full.sum(), f"bin {i},{j} holds {gn[i,j]} modes, must hold {core.sum()}..{full.sum()}")
        if gn[i, j] == full.sum() and full.any():
            c.close(got[i, j], V[full].mean(), f"P(kperp,kpar) in bin {i},{j}", atol=1e-8 * P.max(), rtol=1e-8)
        elif gn[i, j] == core.sum() and core.any():
            c.close(got[i, j], V[core].mean(), f"P(kperp,kpar) in bin {i},{j}", atol=1e-8 * P.max(), rtol=1e-8)
    short = c.call(t2c.power_spectrum_2d, a, **{**kw, "return_modes": False})
    c.true(len(short) == 3, "three outputs without modes"); c.close(short[0], got, "same power without modes", rtol=1e-12)


@monitor("axis_swap", quick=120, thorough=600, min_obs=40)
def axis_swap(c):
    """Moving the line of sight together with the data changes nothing."""
    shape, box, _ = setup(c, 1.)
    a = c.rng.normal(size=shape); b2 = c.rng.normal(size=shape)
    los = c.int(0, 2); perm = tuple(int(x) for x in c.rng.permutation(3)); new = perm.index(los)
    kc, k, m = mu_ref(shape, box, los, True)
    ke = R.safe_edges(c.rng, k, 3); me = R.safe_edges(c.rng, m[np.isfinite(m)] + .5, 3, lo=.49, hi=1.51)
    kp = np.sqrt(sum(kc[q] ** 2 for q in range(3) if q != los))
    ep = R.safe_edges(c.rng, kp, 3); ez = R.safe_edges(c.rng, np.abs(kc[los]), 3)
    if any(x is None for x in (ke, me, ep, ez)): raise Skip()
    me = me - .5
    c.note(shape=shape, box=box, a=a, los=los, perm=perm)
    at, bt = np.ascontiguousarray(a.transpose(perm)), np.ascontiguousarray(b2.transpose(perm)); bx = [box[q] for q in perm]
    exz = c.coin()
    kw = dict(mubins=me, kbins=ke, exclude_zero_modes=exz)
    c.close(c.call(t2c.power_spectrum_mu, at, los_axis=new, box_dims=bx, **kw)[0], c.call(t2c.power_spectrum_mu, a, los_axis=los, box_dims=box, **kw)[0], "P(k,mu) under axis permutation", rtol=1e-8)
    c.close(c.call(t2c.cross_power_spectrum_mu, at, bt, los_axis=new, box_dims=bx, **kw)[0], c.call(t2c.cross_power_spectrum_mu, a, b2, los_axis=los, box_dims=box, **kw)[0], "cross P(k,mu) under axis permutation", rtol=1e-8)
    c.close(c.call(t2c.power_spectrum_2d, at, kbins=[ep, ez], nu_axis=new, box_dims=bx)[0], c.call(t2c.power_spectrum_2d, a, kbins=[ep, ez], nu_axis=los, box_dims=box)[0], "P(kperp,kpar) under axis permutation", rtol=1e-8)
    sh = tuple(c.int(0, n) for n in shape)
    c.close(c.call(t2c.power_spectrum_mu, np.roll(a, sh, (0, 1, 2)), los_axis=los, box_dims=box, **kw)[0], c.call(t2c.power_spectrum_mu, a, los_axis=los, box_dims=box, **kw)[0], "P(k,mu) under shifts", rtol=1e-8)


@monitor("multipoles", quick=150, thorough=800, min_obs=50)
def multipoles(c):
    shape, box, arg = setup(c)
    a, _ = field(c, shape); los = c.int(0, 2); exz = c.coin()
    kc, k, m = mu_ref(shape, box, los, True)
    e = R.safe_edges(c.rng, k, c.int(1, 5))
    if e is None: raise Skip()
    c.note(shape=shape, box=arg, a=a, los=los, exz=exz, e=e)
    out, kb = c.call(t2c.power_spectrum_multipoles, a, kbins=e, box_dims=arg, los_axis=los, exclude_zero_modes=exz)
    P = R.power(a, a, box)
    kp = np.sqrt(sum(kc[q] ** 2 for q in range(3) if q != los))
    keep = (k > 0) & ((kp > 0) | (not exz))
    c.close(kb, .5 * (e[1:] + e[:-1]), "k centres", rtol=1e-10)
    L = {"P0": lambda x: np.ones_like(x), "P2": lambda x: .5 * (3 * x ** 2 - 1), "P4": lambda x: (35 * x ** 4 - 30 * x ** 2 + 3) / 8}
    for j in range(len(e) - 1):
        s = keep & (k >= e[j]) & (k < e[j + 1])
        c.true(out["nmodes"][j] == s.sum(), f"nmodes[{j}] = {out['nmodes'][j]}, bin holds {s.sum()}")
        if not s.any(): continue
        for key, f in L.items():
            q = f(m[s]); want = (P[s] * q).sum() / (q * q).sum() if (q * q).sum() > 1e-12 else None
            if want is None: continue
            c.close(out[key][j], want, f"{key}[{j}]", rtol=1e-4 + 4e-5 * np.abs(q).sum() / (q * q).sum(), atol=1e-4 * P[s].max() + 1e-10 * P.max() + 2e-5 * P[s].sum() / (q * q).sum())   # P4 comes with six-digit coefficients


@monitor("weights", quick=60, thorough=200, min_obs=10)
def weights(c):
    shape, box, arg = setup(c)
    a = c.rng.normal(size=shape); los = c.int(0, 2); w = .1 + c.rng.random(shape)
    kc, k, m = mu_ref(shape, box, los, True)
    ke = R.safe_edges(c.rng, k, 3); me = R.safe_edges(c.rng, m[np.isfinite(m)] + .5, 2, lo=.49, hi=1.51)
    if ke is None or me is None: raise Skip()
    me = me - .5
    c.note(shape=shape, box=arg, a=a, los=los)
    got = c.call(t2c.power_spectrum_mu, a, los_axis=los, mubins=me, kbins=ke, box_dims=arg, weights=w)[0]
    kp = np.sqrt(sum(kc[q] ** 2 for q in range(3) if q != los))
    keep = (k > 0) & (kp > 0)
    P = R.power(a, a, box)
    s, _ = two_d(m, k, P * w, me, ke, keep); sw, _ = two_d(m, k, w, me, ke, keep)
    c.close(got, s / sw, "weighted P(k,mu)", rtol=1e-8, atol=1e-9 * P.max())


@monitor("anisotropy", quick=360, thorough=1500, min_obs=120)
def anisotropy(c):
    """r_mu(k): mean over the mu bins at or above the cut over the mean over those below it, minus one."""
    shape, box, arg = setup(c); a, _ = field(c, shape); los = c.int(0, 2); kc, k, m = mu_ref(shape, box, los, True)
    ke = R.safe_edges(c.rng, k, c.int(1, 4)); nb = c.int(2, 6); cut = c.pick([.5, c.uni(.2, .8)])
    if ke is None: raise Skip
    me = R.safe_edges(c.rng, m[np.isfinite(m)] + .49, nb, lo=.48, hi=1.5)
    if me is None: raise Skip
    me = me - .49; mid = .5 * (me[1:] + me[:-1])
    if np.abs(mid - cut).min() < 1e-6 or not (mid.min() < cut < mid.max()): raise Skip
    exz = c.coin(.7); c.note(shape=shape, box=arg, a=a, los=los, ke=ke, me=me, cut=cut, exz=exz)
    kw = dict(los_axis=los, mubins=me, kbins=ke, box_dims=arg, exclude_zero_modes=exz); kw.update({} if cut == .5 and c.coin() else dict(mu_cut=cut))
    r, kb = c.call(t2c.anisotropy_ratio_r_mu, a, **kw)[:2]; kp = np.sqrt(sum(kc[q] ** 2 for q in range(3) if q != los)); keep = (k > 0) & ((kp > 0) | (not exz))
    full = R.power(a, a, box); P, n = two_d(m, k, full, me, ke, keep); c.close(kb, .5 * (ke[1:] + ke[:-1]), "k centres", rtol=1e-9)
    with np.errstate(all="ignore"):
        av = lambda x: np.array([np.mean(y[np.isfinite(y)]) if np.isfinite(y).any() else np.nan for y in x.T]); up, dn = av(P[mid >= cut]), av(P[mid < cut]); ref = up / dn - 1
    ok = np.isfinite(ref) & (dn > 1e-9 * full.max()); c.close(np.asarray(r)[ok], ref[ok], "anisotropy ratio", rtol=1e-7, atol=1e-7)
    if c.coin(.3): q = c.call(t2c.anisotropy_ratio_r_mu, a, return_n_modes=True, **kw); c.close(q[0], r, "same ratio with mode counts", rtol=1e-12); c.equal(np.asarray(q[2], float), n, "mode counts")


@monitor("large", quick=8, thorough=60, min_obs=3)
def large(c):
    """Many modes per bin and long axes."""
    shape = c.pick([(64, 64, 64), tuple(c.int(40, 72) for _ in range(3)), tuple(c.rng.permutation([3, 5, c.int(130, 500)])), tuple(c.rng.permutation([2, c.int(100, 200), c.int(130, 200)]))])
    shape = tuple(int(x) for x in shape); box = [c.logu(20, 500) for _ in shape]; los = c.int(0, 2)
    a = c.rng.normal(size=shape); P = R.power(a, a, box)
    kc, k, m = mu_ref(shape, box, los, True)
    ke = R.safe_edges(c.rng, k, 3); me = R.safe_edges(c.rng, m[np.isfinite(m)] + .5, 2, lo=.49, hi=1.51)
    kp = np.sqrt(sum(kc[q] ** 2 for q in range(3) if q != los)); kz = np.abs(kc[los])
    ep = R.safe_edges(c.rng, kp, 3); ez = R.safe_edges(c.rng, kz, 3)
    if any(x is None for x in (ke, me, ep, ez)): raise Skip()
    me = me - .5
    c.note(shape=shape, box=box, los=los, a=a)
    ok = np.isfinite(m) & (kp > 0)
    want, n = two_d(m, k, P, me, ke, ok)
    ps, _, _, nm = c.call(t2c.power_spectrum_mu, a, los_axis=los, mubins=me, kbins=ke, box_dims=box, return_n_modes=True)
    c.equal(np.asarray(nm, float), n, "mode counts (mu,k) of a large field"); c.close(ps, want, "P(k,mu) of a large field", rtol=1e-9)
    want, n = two_d(kp, kz, P, ep, ez, np.ones(shape, bool))
    ps, _, _, nm = c.call(t2c.power_spectrum_2d, a, kbins=[ep, ez], box_dims=box, nu_axis=los, return_modes=True)
    c.equal(np.asarray(nm, float), n, "mode counts (kperp,kpar) of a large field"); c.close(ps, want, "P(kperp,kpar) of a large field", rtol=1e-9)
