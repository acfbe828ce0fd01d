"""C23: halo and particle catalogues written byte by byte (or line by line), read back through the package, and gridded."""
import os
import numpy as np
from astropy import units as U
from vh import monitor, Skip, quiet
import tools21cm as t2c
from tools21cm import const, conv
import cosmoref as K

BOX = [37, 64, 114, 244, 425, 500, 47, 200]


def state(c):
    om, h = K.random_cosmology(c, t2c); b = c.pick(BOX); quiet(t2c.set_sim_constants, b); return b


def records(c, n):
    r = c.rng; d = dict(pos=r.uniform(0, 300, (n, 3)), cm=r.uniform(0, 300, (n, 3)), vel=r.normal(size=(n, 3)) * 3, l=r.normal(size=(n, 3)), vd=r.random((n, 3)), r=r.random(n), m=10 ** r.uniform(0, 4, n), mp=r.integers(20, 9999, n).astype(float), m1=r.random(n))
    return d


def text(d, i, extra=0):
    v = [*d["pos"][i], *d["cm"][i], *d["vel"][i], *d["l"][i], *d["vd"][i], d["r"][i], d["m"][i], d["mp"][i], d["m1"][i]]; return "  ".join(repr(float(x)) for x in v)


def cuts(c, d, unit):
    """minimum and maximum mass in solar masses, away from every halo"""
    m = np.sort(d["m"]) * unit; q = np.concatenate([[m[0] / 2], (m[1:] + m[:-1]) / 2, [m[-1] * 2]]); a, b = sorted([c.int(0, len(q) - 1), c.int(0, len(q) - 1)])
    return c.pick([0., 0., q[a]]), c.pick([None, None, q[b], q[b], 0 if c.coin(.1) else q[b]])


@monitor("halo_list", quick=900, thorough=3000, min_obs=1000)
def halo_list(c):
    b = state(c); full = c.coin(.4); n = c.size(1, 25, 600); d = records(c, n); unit = conv.M_grid * const.solar_masses_per_gram; lo, hi = cuts(c, d, unit); mx = c.pick([-1, -1, 0, c.int(1, n + 2)]); st = c.pick([0, 0, 1, c.int(1, n + 2)]); z = round(c.uni(5, 30), 3); c.note(d=d, lo=lo, hi=hi, mx=mx, st=st, z=z, b=b, full=full)
    p = os.path.join(c.tmp(), f"{z:.3f}halos.dat"); lines = [text(d, i) for i in range(n)]; head = full and c.coin()
    src = list(range(n))
    if head: lines = [f"{n}"] + lines; src = [None] + src
    open(p, "w").write("\n".join(lines) + "\n")
    kw = dict(min_select_mass=lo, max_select_mass=hi, max_select_number=mx, startline=st)
    out = c.pick([None, c.uni(10, 500)]) if full else None
    # the mass used for the cut is the third from last column
    if full:
        h = c.call(t2c.HaloCubeP3MFull, box_len=b, output_len=out); r = c.call(h.read_from_file, p, lo, hi, mx, st); L = float(out or b)
        if c.coin(.3): h = c.call(t2c.HaloCubeP3MFull, p, box_len=b, output_len=out, **kw)
    else:
        h = t2c.HaloList(); r = c.call(h.read_from_file, p, **kw)
        if c.coin(.3): r = c.call(h.read_from_file, p, **kw)
        if c.coin(.3): h = c.call(t2c.HaloList, p, **kw)
    c.close(h.z, z, "redshift from the file name", rtol=1e-12)
    first = max(st - 1, 0); gm = d["m"] * unit
    sel = [i for i in src[first:] if i is not None and d["m"][i] * unit > lo and (hi is None or d["m"][i] * unit < hi)]; ref = sel if mx < 0 else sel[:mx]
    c.true(len(h.halos) == len(ref), f"{len(h.halos)} haloes read, {len(ref)} pass the cuts"); vs = K.np.array([1.]) * 0 + conv.velconvert(z)
    wrap = lambda x: np.where(x < 0, L + x, np.where(x > L, x - L, x))
    for o, i in zip(h.halos, ref):
        c.close(o.solar_masses, gm[i], "solar mass", rtol=1e-12); c.close(o.mp, d["mp"][i], "particle number")
        if full:
            s = L / conv.nbox_fine; c.close(o.pos, wrap(d["pos"][i] * s), "position", rtol=1e-12); c.close(o.pos_cm, wrap(d["cm"][i] * s), "centre of mass", rtol=1e-12); c.close(o.vel, d["vel"][i] * vs, "velocity", rtol=1e-10); c.close(o.vel_disp, d["vd"][i] * vs, "dispersion", rtol=1e-10); c.close(o.m, gm[i] * const.h, "mass in Msun/h", rtol=1e-9)
            c.close(o.l, d["l"][i] * vs * conv.lscale / const.Mpc * unit * const.h ** 2, "angular momentum", rtol=1e-9)
        else:
            for a, k in ((o.pos, "pos"), (o.pos_cm, "cm"), (o.vel, "vel"), (o.l, "l"), (o.vel_disp, "vd")): c.close(a, d[k][i], k, rtol=1e-12)
            c.close(o.m, d["m"][i], "grid mass", rtol=1e-12)
    c.true(bool(r) == (mx < 0 or len(src[first:]) == 0 or not _stopped(src[first:], sel, mx)), f"returned {r} when everything was{' not' if not r else ''} read")
    if full and len(ref):
        for k, v in (("m", [o.m for o in h.halos]), ("pos", [o.pos for o in h.halos]), ("vel", [o.vel for o in h.halos]), ("pos_cm", [o.pos_cm for o in h.halos]), ("l", [o.l for o in h.halos])): c.equal(c.call(h.get, k), np.array(v), f"get {k}")


def _stopped(src, sel, mx):
    """reading stops when the limit is reached and another line follows"""
    k = 0
    for i in src:
        if k >= mx: return True
        if i is not None and i in sel: k += 1
    return False


@monitor("rockstar", quick=600, thorough=2000, min_obs=600)
def rockstar(c):
    n = c.size(0, 20, 500); ext = c.pick(["list", "ascii"]); md = c.pick(["vir", "200b", "500c"]); pm = c.logu(1e5, 1e10); a = c.uni(.05, 1); om, h = round(c.uni(.2, .4), 4), round(c.uni(.6, .8), 4); mx = c.pick([-1, -1, 0, c.int(1, n + 2)]); r = c.rng
    if ext == "list": cols = ["#ID", "DescID", "M" + md, "Vmax", "Vrms", "R" + md, "Rs", "Np", "X", "Y", "Z", "VX", "VY", "VZ", "JX", "JY", "JZ", "Spin"]; other = "Mfof"; vals = 15
    else: cols = ["#id", "num_p", "m" + md, "mbound", "r" + md, "vmax", "rvmax", "vrms", "x", "y", "z", "vx", "vy", "vz", "Jx", "Jy", "Jz", "E"]; other = "mfof"; vals = 19
    cols.insert(c.int(3, 4), other); data = r.uniform(-100, 100, (n, len(cols))); data[:, 2] = 10 ** r.uniform(8, 13, n); c.note(n=n, ext=ext, md=md, pm=pm, a=a, mx=mx, data=data)
    hd = [" ".join(cols), f"#a = {a!r}"] + ["#"] * (vals - 1); lc, lp = (2, 5) if ext == "list" else (3, 6); hd[lc] = f"#Om = {om}; Ol = {round(1 - om, 4)}; h = {h}"; hd[lp] = f"#Particle mass: {pm!r} Msun/h"
    p = os.path.join(c.tmp(), f"halos_0.{ext}"); open(p, "w").write("\n".join(hd + [" ".join(repr(float(x)) for x in q) for q in data]) + "\n")
    mxk = {} if mx == -1 and c.coin() else dict(max_select_number=mx); hr = c.call(t2c.HaloRockstar, p, mass_def=md, **mxk)
    if c.coin(.3): ret = c.call(hr.read_from_file, p, **mxk); c.true(bool(ret) == (mx < 0 or n <= mx), f"returned {ret} with {n} haloes and a limit of {mx}")
    m = n if mx < 0 else min(n, mx); c.true(len(hr.halos) == m, f"{len(hr.halos)} of {n} haloes with a limit of {mx}"); c.close(hr.z, 1 / a - 1, "redshift", rtol=1e-12, atol=1e-12); c.close([hr.Om, hr.Ol, hr.h], [om, round(1 - om, 4), h], "cosmology"); c.close(hr.part_mass, pm, "particle mass")
    ix = {k: i for i, k in enumerate(cols)}; g = lambda *k: data[:m, [ix[q] if q in ix else ix[q.lower()] if q.lower() in ix else ix[q[0] + q[1:].lower()] for q in k]]
    if m == 0: return
    U_ = (lambda s: s) if ext == "list" else (lambda s: s.lower())
    c.close(c.call(hr.get, "pos"), g(*[U_(x) for x in ("X", "Y", "Z")]), "positions", rtol=1e-12); c.close(c.call(hr.get, "vel"), g(*[U_(x) for x in ("VX", "VY", "VZ")]), "velocities", rtol=1e-12)
    j = ("JX", "JY", "JZ") if ext == "list" else ("Jx", "Jy", "Jz"); c.close(c.call(hr.get, "l"), g(*j), "angular momenta", rtol=1e-12); c.close(c.call(hr.get, "m"), g(("M" if ext == "list" else "m") + md)[:, 0], "masses", rtol=1e-12); c.close(c.call(hr.get, "r"), g(("R" if ext == "list" else "r") + md)[:, 0], "radii", rtol=1e-12); c.close(c.call(hr.get, "vel_disp"), g("Vrms" if ext == "list" else "vrms")[:, 0], "dispersions", rtol=1e-12)
    c.equal([o.mp for o in hr.halos], np.round(data[:m, 2] / pm).astype(int), "particle numbers")


@monitor("rockstar_errors", quick=15, thorough=20, min_obs=2)
def rockerr(c):
    p = os.path.join(c.tmp(), "halos.txt"); open(p, "w").write("#ID X\n#a = 1\n" * 30); c.raises(t2c.HaloRockstar, p, what="unknown catalogue format")


@monitor("cubep3m_halos", quick=300, thorough=1000, min_obs=500)
def cubep3m(c):
    b = state(c); h0 = const.h; nodes = c.int(1, 4); z = c.pick([0, 0., round(c.uni(0, 5), 3)]) if c.coin(.2) else round(c.uni(5, 25), 3); pid = c.coin(); md = c.pick(["vir", "odc"]); cosm = c.coin(.7); one = c.pick([None, None, c.int(0, nodes - 1)]); root = c.tmp(); rec = []; c.note(b=b, nodes=nodes, z=z, pid=pid, md=md, cosm=cosm, one=one, seed=c.int(0, 10 ** 9))
    for i in range(nodes):
        os.makedirs(f"{root}/node{i}"); n = c.size(0, 5, 200, 20); f = open(f"{root}/node{i}/{z:.3f}halo{i}.dat", "wb"); np.array([n], "i4").tofile(f); np.array([200, 178], "f4").tofile(f)
        for _ in range(n):
            v = c.rng.normal(size=22).astype("f4") * 100; v[:3] = c.rng.uniform(-.1, 1.1, 3) * conv.nbox_fine; v[7:10] = c.rng.uniform(-.1, 1.1, 3) * conv.nbox_fine; v[3:5] = 10 ** c.rng.uniform(1, 4, 2); v.tofile(f)
            if pid: c.rng.integers(0, 2 ** 40, 50).tofile(f); c.rng.normal(size=300).astype("f4").tofile(f)
            else: np.zeros(6, "f4").tofile(f)
            if one in (None, i): rec.append(v)
        f.close()
    hc = c.call(t2c.HaloCubeP3M, root + ("/" if c.coin() else ""), z=z, node=one, mass_def=md, pid_flag=pid, cosm_unit=cosm); c.true(hc.nhalo == len(rec) == len(hc.halos), f"{len(hc.halos)} haloes of {len(rec)}")
    L = float(conv.boxsize); s = conv.lscale / const.Mpc * h0; vc = float(conv.velconvert(z)); un = conv.M_grid * const.solar_masses_per_gram; wrap = lambda x: np.where(x < 0, L + x, np.where(x > L, x - L, x))
    for o, v in zip(hc.halos, rec):
        v = v.astype(float); m, r = (v[3], v[5]) if md == "vir" else (v[4], v[6]); vd = np.sqrt((v[16:19] ** 2).sum())
        ref = dict(pos=v[:3], pos_cm=v[7:10], vel=v[10:13], l=v[13:16], m=m, r=r, vel_disp=vd) if not cosm else dict(pos=wrap(v[:3] * s), pos_cm=wrap(v[7:10] * s), vel=v[10:13] * vc, l=v[13:16] * vc * conv.lscale / const.Mpc * un * h0 ** 2, m=m * un * h0, r=r * s, vel_disp=vd * vc)
        for k in ref: c.close(np.asarray(getattr(o, k), float), ref[k], f"{k} of a halo", rtol=1e-5)
    if rec:
        for k in ("m", "pos", "vel", "r", "l", "pos_cm", "vel_disp"): c.equal(c.call(hc.get, k), np.array([getattr(o, k) for o in hc.halos]), f"get {k}")


@monitor("particles", quick=300, thorough=1000, min_obs=300)
def particles(c):
    nodes = c.int(1, 4); z = round(c.uni(5, 25), 3); pid = c.coin(.7); one = c.pick([None, None, c.int(0, nodes - 1)]); root = c.tmp(); X, I, N = [], [], 0; c.note(nodes=nodes, z=z, pid=pid, one=one, s=c.int(0, 10 ** 9))
    def head(f, n): np.array([n], "i4").tofile(f); np.array([1 / (1 + z), 1, 2], "f4").tofile(f); np.array([7], "i4").tofile(f); np.array([.1, .2, .3], "f4").tofile(f); np.array([1, 2, 3], "i4").tofile(f); np.array([8.], "f4").tofile(f)
    for i in range(nodes):
        os.makedirs(f"{root}/node{i}"); n = c.size(0, 30, 2000, 20); x = c.rng.normal(size=(n, 6)).astype("f4"); q = c.rng.integers(0, 2 ** 40, n); N += n
        with open(f"{root}/node{i}/{z:.3f}xv{i}.dat", "wb") as f: head(f, n); x.tofile(f)
        with open(f"{root}/node{i}/{z:.3f}PID{i}.dat", "wb") as f: head(f, n); q.tofile(f)
        if one in (None, i): X.append(x); I.append(q)
    X, I = np.concatenate(X), np.concatenate(I); nb = c.call(t2c.NbodyFile, root, z=z, node=one, pid_file=pid)
    if one is None: c.true(nb.npart == N, f"{nb.npart} particles announced, {N} in the files"); c.call(nb.read_from_file)
    if c.coin(.4): c.call(nb.read_from_file, node=one)
    c.true(len(nb.nbody) == len(X) == nb.npart, f"{len(nb.nbody)} particles read, {nb.npart} counted, {len(X)} in the files")
    if len(X): c.equal(np.array([p.pos for p in nb.nbody]), X[:, :3], "positions"); c.equal(np.array([p.vel for p in nb.nbody]), X[:, 3:], "velocities")
    if pid: c.equal(np.array([p.pid for p in nb.nbody], "i8"), I, "particle ids")
    c.raises(t2c.NbodyFile, root, z=round(z + 1, 3), what="a redshift that has no files") if c.coin(.2) else None
    if pid and len(X) and c.coin(.2):      # files that disagree are rejected
        j = one or 0
        with open(f"{root}/node{j}/{z:.3f}PID{j}.dat", "wb") as f: head(f, 99); np.arange(99).tofile(f)
        c.raises(nb.read_from_file, node=j, what="ids for another number of particles")


@monitor("pkdgrav", quick=300, thorough=1000, min_obs=300)
def pkdgrav(c):
    L = c.logu(10, 1000); rc = c.pick([2.77536627e11, c.logu(1e10, 1e12)]); rd = quiet(t2c.Pkdgrav3data, L, None, .31, rc, verbose=False); dt = np.dtype([("rPot", "<f4", 3), ("minPot", "<f4"), ("rcen", "<f4", 3), ("rcom", "<f4", 3), ("vcom", "<f4", 3), ("ang", "<f4", 3), ("in", "<f4", 6), ("sig", "<f4"), ("rMax", "<f4"), ("fMass", "<f4"), ("e0", "<f4"), ("e1", "<f4"), ("rHalf", "<f4")])
    fs, D = [], []; c.note(L=L, rc=rc, s=c.int(0, 10 ** 9))
    for i in range(c.int(1, 3)):
        n = c.size(1, 12, 900, 20); d = c.rng.normal(size=(n, dt.itemsize // 4)).astype("f4").view(dt).reshape(n); p = f"{c.tmp()}/fof{i}"; d.tofile(p); fs.append(p); D.append(d)
    D = np.concatenate(D); z = c.pick([None, c.uni(0, 20), "7.5"]); r = c.call(rd.read_fof_data, fs if len(fs) > 1 or c.coin() else fs[0], z=z); c.equal(r["fMass"], D["fMass"], "all records of all files"); a = c.call(rd.array_fof_data)
    ref = np.column_stack([D["fMass"].astype(float) * rc * L ** 3, (D["rPot"].astype(float) + D["rcom"].astype(float)) * L]); c.close(a[:, 0], ref[:, 0], "masses", rtol=1e-5); c.close(a[:, 1:], ref[:, 1:], "positions", rtol=1e-5)
    b = c.call(t2c.read_pkdgrav_fof_halo_catalogue, fs if len(fs) > 1 else fs[0], L); c.true(b.shape == a.shape, f"{len(b)} of {len(a)} haloes read"); c.close(b[:, 0] * ref[0, 0], ref[:, 0] * b[0, 0], "masses in proportion", rtol=1e-5); c.close(b[:, 1:] / b[0, 1:], a[:, 1:] / a[0, 1:], "positions in proportion", rtol=1e-4)
    for e in ("txt", "npy"):
        p = f"{c.tmp()}/out.{e}"; c.call(rd.save_fof_data, p); c.close(np.loadtxt(p, ndmin=2) if e == "txt" else np.load(p), a, "saved catalogue", rtol=1e-12)
    n = c.int(2, 7); g = c.rng.random((n, n, n)).astype("f4") + .1; p = f"{c.tmp()}/den"; g.tofile(p); gn = c.pick([None, n]); dl = c.call(quiet(t2c.Pkdgrav3data, L, gn, .31, rc, verbose=False).load_density_field, p) if c.coin() else c.call(t2c.read_pkdgrav_density_grid, p, L, gn)
    c.close(dl, g.T / g.astype(float).mean() - 1, "density contrast", rtol=1e-5)
    if gn: g.ravel()[:-1].tofile(p); c.raises(t2c.read_pkdgrav_density_grid, p, L, gn, what="a truncated density grid")
    # tipsy
    H = np.dtype([("t", ">f8"), ("n", ">i4", 6)]); N = [c.int(0, 6) for _ in range(3)]; parts = [c.rng.normal(size=(k, w)).astype(">f4") for k, w in zip(N, (12, 9, 11))]
    with open(p, "wb") as f:
        np.array([(.5, [sum(N), 3, *N, 0])], H).tofile(f); [q.tofile(f) for q in parts]
    o = c.call(rd.read_particles, p)
    for k, q, w in zip(("gas", "dark", "star"), parts, N): c.true(len(o[k]) == w, f"{len(o[k])} {k} particles of {w}"); w and c.equal(np.array(o[k].to_numpy().tolist()), q.astype(float), k)
    k = np.sort(10 ** c.rng.uniform(-2, 1, 8)); P = 10 ** c.rng.uniform(0, 3, 8); np.savetxt(p, np.column_stack([k, P]), header="power z=3.5"); kk, pp = c.call(rd.read_pk_data, p); c.close(kk, k, "k"); c.close(pp, P, "P"); c.true(rd.pk_data["z"] == 3.5, "redshift of the spectrum"); w = c.int(1, 4); kk, pp = c.call(rd.read_pk_data, p, window_size=w); c.close(pp, [10 ** np.log10(P[max(0, j - w + 1):j + 1]).mean() for j in range(8)], "running mean of the spectrum", rtol=1e-9); c.close(kk, k, "k"); c.close(c.call(rd.read_pk_data, p, ks=k)[1], P, "interpolated spectrum passes through the data", rtol=1e-8)
    if z is not None or True:
        zz = c.pick([0, 0., "0", c.uni(0, 20), None]); c.call(rd.read_fof_data, fs, z=zz); c.close(rd.dVelFac, 299792.458 / (8677.2079486362706 / L) * (1 + float(zz or 0)), "velocity unit at the redshift", rtol=1e-9); c.close(rd.dMassFac, rc * L ** 3, "mass unit", rtol=1e-9)
    hm = 10 ** c.rng.uniform(8, 13, 30); mm, dn = c.call(rd.get_hmf_data, hm, bins=c.int(1, 9)); c.close(dn.sum() * L ** 3, 30, "every halo in the mass function", rtol=1e-9); e = np.linspace(np.log(hm.min()), np.log(hm.max()), len(mm) + 1); c.close(np.log(mm), (e[1:] + e[:-1]) / 2, "middle of the mass bins", rtol=1e-9)


def positions(c, n, L):
    x = c.rng.uniform(0, 1, (n, 3)); k = c.pick(["uniform", "clump", "corner", "uniform"])
    if k == "clump": x = .3 + .1 * x
    if k == "corner": x = .9 + .0999 * x
    return x * L


@monitor("grid", quick=1200, thorough=4000, min_obs=800)
def grid(c):
    n, g, L = c.size(1, 40, 800), c.size(1, 12, 40), c.logu(5, 500); x = positions(c, n, L); m = 10 ** c.rng.uniform(8, 13, n); i = x * g / L
    if np.abs(i - np.round(i)).min() < 1e-9: raise Skip
    i = i.astype(int); ref = np.zeros((g,) * 3); np.add.at(ref, tuple(i.T), m); mu, xu, Lu = c.coin(.4), c.coin(.4), c.coin(.2); c.note(x=x, m=m, g=g, L=L, mu=mu, xu=xu, Lu=Lu); mk, xk = c.pick([U.Msun, U.kg]), c.pick([U.Mpc, U.kpc, U.cm])
    b, e, num = c.call(t2c.halo_list_to_grid, (m * U.Msun).to(mk) if mu else m, (x * U.Mpc).to(xk) if xu else x, (L * U.Mpc).to(c.pick([U.Mpc, U.kpc, U.Gpc])) if Lu else L, g); b = np.asarray(b, float)
    c.close(b, ref, "every halo's mass in the cell that contains it", rtol=1e-9); c.close(b.sum(), m.sum(), "total mass", rtol=1e-9)
    # the class interface
    hg = t2c.Halo2Grid(L, g); un = c.pick(["cm", "Mpc"]); c.call(hg.set_halo_pos, x * (3.085677581491367e24 if un == "cm" else 1), unit=un); mn = c.pick(["Msun", "g", "kg"]); c.call(hg.set_halo_mass, m * dict(Msun=1, g=1.988409870698051e33, kg=1.988409870698051e30)[mn], unit=mn)
    pl, ml = c.call(hg.halo_mass_on_grid, **({} if c.coin() else dict(mass=m))); o = np.zeros((g,) * 3); o[tuple(np.asarray(pl).T)] = ml; c.close(o, ref, "list of occupied cells and their mass", rtol=1e-9); c.true(len(pl) == (ref > 0).sum(), "one entry per occupied cell")
    v = c.rng.random(n) + .1; pl, vl = c.call(hg.halo_value_on_grid, v); o = np.zeros((g,) * 3); o[tuple(np.asarray(pl).T)] = vl; r2 = np.zeros((g,) * 3); np.add.at(r2, tuple(i.T), v); c.close(o, r2, "any other value on the grid", rtol=1e-9)
    h2 = t2c.Halo2Grid(L, g); uk = c.pick([{}, dict(unit="grid"), dict(unit=None)]); c.call(h2.set_halo_pos, x * g / L, **uk); c.call(h2.set_halo_mass, m, unit="Msun"); pl, ml = c.call(h2.halo_mass_on_grid); o = np.zeros((g,) * 3); o[tuple(np.asarray(pl).T)] = ml; c.close(o, ref, "positions given in cells", rtol=1e-9)
    st = c.pick(["mean", "max", "count"]); r2 = np.array([getattr(v[j], "size" if st == "count" else st) if st == "count" else getattr(v[j], st)() for j in (np.all(i == i[q], 1) for q in range(n))], float); o = np.asarray(c.call(h2.value_on_grid, x * g / L, v, statistic=st)[0], float); c.close(o[tuple(i.T)], r2, f"{st} of the values in each occupied cell", rtol=1e-9)
    c.call(h2.construct_tree); dd, jj = h2.kdtree.query(x * g / L + 1e-9, k=1); c.close(np.asarray(x * g / L)[jj], x * g / L, "tree of the haloes", rtol=1e-6, atol=1e-6)
    if g > 1 and c.i % 3 == 0:      # a catalogue larger than the box: halos in the box keep their cells
        y = np.concatenate([x, L * (1 + 3 * c.rng.random((c.int(1, 5), 3)))]); c.close(np.asarray(c.call(t2c.halo_list_to_grid, np.concatenate([m, 10 ** c.rng.uniform(8, 13, len(y) - n)]), y, L, g)[0], float)[tuple(i.T)], ref[tuple(i.T)], "halos outside the box leave those inside alone", rtol=1e-9) if not set(map(tuple, np.floor(y[n:] * g / L).astype(int) % g)) & set(map(tuple, i)) else None
    # order of the catalogue
    p = c.rng.permutation(n); c.close(np.asarray(c.call(t2c.halo_list_to_grid, m[p], x[p], L, g)[0], float), ref, "order of the haloes", rtol=1e-9)


@monitor("line_intensity", quick=300, thorough=1000, min_obs=150)
def lim(c):
    f = c.pick([t2c.M_HI_on_grid, t2c.L_CII_on_grid]); kw = {} if f is t2c.M_HI_on_grid else dict(recipe=c.pick(["Silva2015m1", "Silva2015m2", "silva2015m3", "Silva2015m4"])); z = c.uni(4, 12); n, g, L = c.int(1, 10), c.int(1, 8), c.logu(10, 300); x = positions(c, n, L); m = 10 ** c.rng.uniform(9, 13, n); c.note(f=f.__name__, kw=kw, z=z, x=x, m=m, g=g, L=L); i = x * g / L
    if np.abs(i - np.round(i)).min() < 1e-9: raise Skip
    mu, xu = c.coin(.4), c.coin(.4); o = c.call(f, z, m * U.Msun if mu else m, (x * U.Mpc).to(U.kpc) if xu else x, L * U.Mpc if c.coin(.3) else L, g, **kw); a = np.asarray(o.value, float); c.true(o.unit == (U.Msun if f is t2c.M_HI_on_grid else U.Lsun), f"unit {o.unit}")
    one = np.array([float(quiet(f, z, m[j:j + 1], x[j:j + 1], L, 1, **kw).value.sum()) for j in range(n)]); ref = np.zeros((g,) * 3); np.add.at(ref, tuple(i.astype(int).T), one); c.true(np.all(one > 0), "positive signal"); c.close(a, ref, "signals of single haloes add up in their cells", rtol=1e-8)
    # the recipes
    from astropy import cosmology as A
    co = c.pick([None, A.WMAP9, A.FlatLambdaCDM(H0=c.uni(60, 80), Om0=c.uni(.2, .4), Ob0=c.uni(.03, .06))]); cc = co or A.Planck18; ck = {} if co is None else dict(cosmo=co); z = c.pick([z, c.uni(.1, 3)])
    if f is t2c.M_HI_on_grid:
        o = dict(Y_p=.249, alpha=.9, v_c0=10 ** 1.56, beta=-.58); k = {q: c.uni(.5, 1.5) * v for q, v in o.items() if c.coin(.4)}; o.update(k)
        if "v_c0" in k: k["v_c0"] = k["v_c0"] * U.km / U.s if c.coin() else (k["v_c0"] * 1e3) * U.m / U.s
        w = [float(c.call(f, z, m[j:j + 1], x[j:j + 1], L, 1, **ck, **k).value.sum()) for j in range(n)]; vc = 96.6 * (178 * cc.Om0 / 54.4) ** (1 / 6) * np.sqrt((1 + z) / 3.3) * np.cbrt(m / 1e11)
        q = o["alpha"] * (1 - o["Y_p"]) * cc.Ob0 / cc.Om0 * m * (m / 1e11) ** o["beta"] * np.exp(-(o["v_c0"] / vc) ** 3); hb = np.array(w) / q; c.close(hb, np.full(n, hb[0]), "HI mass of a halo: fraction, slope and cut-off in circular velocity", rtol=1e-6); c.true(min(cc.h ** o["beta"], cc.h ** -o["beta"]) * .999 < hb[0] < max(cc.h ** o["beta"], cc.h ** -o["beta"]) * 1.001, f"HI mass is {hb[0]} times the recipe's")
    else:
        ab = dict(silva2015m1=(.8475, 7.2203), silva2015m2=(1., 6.9647), silva2015m3=(.8727, 6.725), silva2015m4=(.9231, 6.5234))[kw["recipe"].lower()]; a_, b_ = (c.uni(.5, 1.5), c.uni(6, 8)) if c.coin(.3) else ab; k = {} if (a_, b_) == ab else dict(a_LCII=a_, b_LCII=b_)
        if c.coin(): p, q = c.uni(.5, 2), c.uni(-2, 2); sf = lambda M, z: 1e-10 * M / U.yr * (M / (1e10 * U.Msun)).to("").value ** p * (1 + z) ** q; k["SFR"] = sf; rate = 1e-10 * m * (m / 1e10) ** p * (1 + z) ** q
        else:
            rate = 2.25e-26 * (1 + (z - 7) * .075) * m ** 2.59 * (1 + m / 8e8) ** -.62 * (1 + m / 7e9) ** .4 * (1 + m / 1e11) ** -2.25
            if c.coin():
                o = dict(SFR0=2.25e-26, a_SFR=2.59, b_SFR=-.62, c1_SFR=8e8, c2_SFR=7e9, c3_SFR=1e11, d_SFR=.4, e_SFR=-2.25); v = {p: c.uni(.6, 1.4) * w for p, w in o.items() if c.coin(.4)}; o.update(v); k["SFR"] = c.pick(["silva2015", "Silva2013"])
                for p, w in v.items(): k[p] = w * U.Msun / U.yr if p == "SFR0" else w * U.Msun if p[0] == "c" else w
                rate = o["SFR0"] * (1 + (z - 7) * .075) * m ** o["a_SFR"] * (1 + m / o["c1_SFR"]) ** o["b_SFR"] * (1 + m / o["c2_SFR"]) ** o["d_SFR"] * (1 + m / o["c3_SFR"]) ** o["e_SFR"]
        c.close([float(c.call(f, z, m[j:j + 1], x[j:j + 1], L, 1, **ck, **kw, **k).value.sum()) for j in range(n)], 10 ** (a_ * np.log10(rate) + b_), "CII luminosity of a halo from its star formation rate", rtol=1e-6)


@monitor("particle_numbers", quick=300, thorough=1000, min_obs=200)
def numbers(c):
    from astropy import cosmology as A
    L = c.logu(1, 1000); N = c.int(8, 4096); nm = c.pick(["Planck18", "WMAP9", "planck15", None]); co = A.FlatLambdaCDM(H0=c.uni(60, 80), Om0=c.uni(.2, .4)) if nm is None else nm; ref = co if nm is None else getattr(A, {"planck15": "Planck15"}.get(nm, nm)); c.note(L=L, N=N, nm=nm)
    m = c.call(t2c.particle_number_to_particle_mass, L if c.coin() else L * U.Mpc, N, cosmo=co); r = (ref.critical_density0 * ref.Om0 * (L * U.Mpc / N) ** 3).to("Msun"); c.close(m.to("Msun").value, r.value, "mean matter density times the volume per particle", rtol=1e-9)
    c.close(c.call(t2c.particle_number_to_particle_mass, L, particle_total=N ** 3, cosmo=co).to("Msun").value, r.value, "total number", rtol=1e-9)
    c.close(c.call(t2c.ParticleMass_to_ParticleNumber, L, m if c.coin() else m.to("Msun").value, cosmo=co), N, "mass to number inverts number to mass", rtol=1e-9)
    q = c.uni(1e3, 1e9); c.close(c.call(t2c.particle_number_to_particle_mass, L, particle_total=q, cosmo=co).to("Msun").value, r.value * N ** 3 / q, "any total number", rtol=1e-9); k = c.int(1, 500); c.close(float(c.call(t2c.halo_mass_to_particle_number, L, k * r.value, k, cosmo=co)), N, "number of particles that puts k of them in a halo", rtol=1e-9)
