"""C10: readers and writers against byte-level reference encoders, round trips and truncation faults."""
import os, struct
import numpy as np
from vh import monitor, Skip, quiet, Violation
import tools21cm as t2c
from tools21cm import const, conv
from tools21cm import helper_functions as H
import cosmoref as K


def i4(*v):
    return struct.pack("<%di" % len(v), *[int(x) for x in v])


def arr(c, sh, dt="f4"):
    a = c.rng.normal(size=sh) * c.logu(1e-3, 1e3)
    if c.coin(.2): a = c.rng.integers(-5, 6, sh).astype(float)
    return a.astype(dt)


def fbytes(a, order):
    """Element by element, so that axis order is decided here and not by numpy's flags."""
    idx = np.indices(a.shape).reshape(a.ndim, -1).T
    if order == "F": idx = idx[np.lexsort(idx.T)]  # last key (last axis) primary -> first axis fastest
    else: idx = idx[np.lexsort(idx.T[::-1])]
    f = "<f" if a.dtype.itemsize == 4 else "<d"
    return b"".join(struct.pack(f, a[tuple(i)]) for i in idx)


def put(path, data):
    with open(path, "wb") as f: f.write(data)


def stale(c, path):
    """Something longer may already be stored under the name: writing replaces it."""
    if c.coin(): put(path, b"\x07" * c.int(1, 9000))


def shape3(c):
    return tuple(c.size(1, 5, 40) for _ in range(3)) if c.coin(.7) else (c.size(2, 4, 40),) * 3


@monitor("cbin", quick=900, thorough=4000, min_obs=250)
def cbin(c):
    d = c.tmp(); sh = shape3(c); bits = c.pick([32, 64]); order = c.pick("CF"); dt = "f4" if bits == 32 else "f8"; a = arr(c, sh, dt)
    src = c.pick([a, a.astype("f8"), np.asfortranarray(a), a[::-1][::-1], np.repeat(a, 2, 0)[::2]]); p = f"{d}/x.cbin"
    kw = {}
    if bits != 32 or c.coin(): kw["bits"] = bits
    if order != "C" or c.coin(): kw["order"] = order
    c.note(sh=sh, bits=bits, order=order)
    stale(c, p); c.call(t2c.save_cbin, p, src, **kw)
    want = i4(*sh) + fbytes(a, order)
    c.true(open(p, "rb").read() == want, f"bytes of the cbin file ({bits} bits, {order})")
    g = c.call(t2c.read_cbin, p, **kw); c.equal(g, a, "cbin round trip"); c.equal(g.dtype, np.dtype(dt), "cbin precision")
    # Fortran records, other numbers of dimensions
    nd = c.int(1, 4); s2 = tuple(c.int(1, 4) for _ in range(nd)); b = arr(c, s2, dt); rec = c.coin()
    raw = (i4(4 * nd, *s2, 4 * nd, b.nbytes) if rec else i4(*s2)) + fbytes(b, order) + (i4(b.nbytes) if rec else b"")
    put(p, raw); k2 = dict(kw)
    if nd != 3 or c.coin(): k2["dimensions"] = nd
    if rec or c.coin(): k2["records"] = rec
    c.note(s2=s2, rec=rec)
    c.equal(c.call(t2c.read_cbin, p, **k2), b, "cbin with records/dimensions")
    cut = c.int(0, len(raw) - 1 - (4 if rec else 0)); put(p, raw[:cut]); c.note(cut=cut)
    bad(c, lambda: t2c.read_cbin(p, **k2), b.size, f"cbin cut after {cut} of {len(raw)} bytes")
    n = c.int(1, 4); q = arr(c, (n, n, n), dt); r = f"{d}/r.dat"; kr = {}
    if bits != 64 or c.coin(): kr["bits"] = bits
    if order != "C" or c.coin(): kr["order"] = order
    stale(c, r); c.call(t2c.save_raw_binary, r, c.pick([q, np.asfortranarray(q)]), **kr)
    c.true(open(r, "rb").read() == fbytes(q, order), "bytes of the raw binary file")
    c.equal(c.call(t2c.read_raw_binary, r, **kr), q, "raw binary round trip")
    if n > 1:
        put(r, fbytes(q, order)[:-(bits // 8)]); bad(c, lambda: t2c.read_raw_binary(r, **kr), n ** 3, "raw binary with one value missing")


def bad(c, f, size, what):
    """A truncated file must raise, or at the very least not come back as the full-size array."""
    c.obs += 1; c.nontrivial += 1
    try: r = quiet(f)
    except Exception: return
    if isinstance(r, np.ndarray) and r.size < size: return
    raise Violation(f"{what}: returned {getattr(r, 'shape', r)} instead of an error")


def zname(c):
    z = f"{c.uni(4, 30):.{c.pick([3, 3, 3, 1, 2, 4, 5, 7])}f}"; return z, float(z)


KINDS = ["density", "clumping", "velocity", "xfrac", "xfrac32", "xfracbin", "xfracneutral", "temper", "temperold", "irate", "irateold", "iratebin"]


def make(c, kind, d):
    """(path, bytes, reader -> object, attribute, expected array, z)"""
    zs, z = zname(c); sh = shape3(c); a = arr(c, sh)
    h6 = i4(12, *sh, 12, 0); rec = i4(a.nbytes) if c.coin() else b""
    if kind == "density": return f"{d}/{zs}n_all.dat", i4(*sh) + fbytes(a, "F"), t2c.DensityFile, "raw_density", a, z
    if kind == "clumping": return f"{d}/{zs}c_all.dat", i4(*sh) + fbytes(a, "F"), t2c.density_file.ClumpingFile, "raw_clumping", a, z
    if kind == "velocity": a = arr(c, (3,) + sh); return f"{d}/{zs}v_all.dat", i4(*sh) + fbytes(a, "F"), t2c.VelocityFile, "raw_velocity", a, z
    if kind.startswith("xfrac"):
        dt = "f4" if kind == "xfrac32" else "f8"; a = c.rng.random(sh).astype(dt); hd = i4(*sh) if kind == "xfracbin" else h6
        kw = {}
        if kind == "xfrac32": kw["old_format"] = True
        if kind == "xfracbin": kw["binary_format"] = True
        if kind == "xfracneutral": kw["neutral"] = True
        return f"{d}/xfrac3d_{zs}.bin", hd + fbytes(a, "F") + rec, lambda p: t2c.XfracFile(p, **kw), "xi", 1 - a if kind == "xfracneutral" else a, z
    kw = dict(old_format=True) if kind.endswith("old") else {}
    if kind == "iratebin": kw["binary_format"] = True
    if kind.startswith("temper"): return f"{d}/Temper3D_{zs}.bin", h6 + fbytes(a, "F") + rec, lambda p: t2c.TemperFile(p, **kw), "temper", a, z
    return f"{d}/IonRates3_{zs}.bin", (i4(*sh) if kind == "iratebin" else h6) + fbytes(a, "F") + rec, lambda p: t2c.IonRateFile(p, **kw), "irate", a, z


@monitor("objects", quick=2100, thorough=8000, min_obs=500)
def objects(c):
    K.reset()
    if c.coin(.3): quiet(t2c.set_sim_constants, c.pick([37, 114, 425])); quiet(t2c.set_hubble_h, .65)
    d = c.tmp(); kind = c.pick(KINDS); p, raw, read, attr, a, z = make(c, kind, d); put(p, raw); c.note(kind=kind, shape=a.shape, z=z)
    o = c.call(read, p); g = getattr(o, attr); sh = a.shape[-3:]
    c.equal(np.asarray(g), a, f"{kind}: values and axis order"); c.close(o.z, z, f"{kind}: redshift from the file name", rtol=1e-12)
    c.equal([o.mesh_x, o.mesh_y, o.mesh_z], sh, f"{kind}: mesh")
    dsg = H.determine_redshift_from_filename; q = f"{d}/unnamed.raw"; put(q, raw); u = c.call(read, q); c.equal(np.asarray(getattr(u, attr)), a, f"{kind}: values of a file without a redshift in its name"); c.equal(u.z, -1, f"{kind}: no redshift in the name")
    if "Temper3D" not in p and "IonRates3" not in p or len(p.split("_")[-1]) > 2: c.close(c.call(dsg, p), z, "redshift found in the name", rtol=1e-12)
    c.close(c.call(dsg, o), z, "redshift of a file object", rtol=1e-12)
    if kind in ("density", "xfrac", "temper"):
        c.equal(c.call(H.get_mesh_size, p), sh, f"{kind}: get_mesh_size")
        x, t = c.call(H.get_data_and_type, p); y, t2 = c.call(H.get_data_and_type, o)
        c.equal(x, y, "file name and file object"); c.equal([t, t2], [dict(density="density", xfrac="xfrac", temper="temper")[kind]] * 2, "data type")
        if kind == "density": c.equal(c.call(H.get_data_and_type, p, raw_density=True)[0], a, "raw density")
        else: c.equal(x, a, "data")
    if kind == "velocity":
        ls, ts = conv.lscale, conv.tscale
        c.close(o.kmsrho8, a.astype(float) * ls / ts * (1 + z) / 1e5, "momentum in km/s", rtol=1e-6)
        rho = ((c.rng.random(sh) + .1) * c.logu(1e-6, 10)).astype("f4"); dp = f"{d}/{z:.3f}n_all.dat"; put(dp, i4(*sh) + fbytes(rho, "F"))
        D = quiet(t2c.DensityFile, dp); dens = c.pick([rho, dp, D])
        c.close(c.call(o.get_kms_from_density, dens), a.astype(float) * ls / ts * (1 + z) / 1e5 * 8 / rho, "velocity in km/s", rtol=1e-5)
    # written back
    if hasattr(o, "write_to_file"):
        q = f"{d}/out_{os.path.basename(p)}" if kind != "velocity" else f"{d}/{z:.7f}v_out.dat"; extra = {}
        if kind == "xfrac32": extra["old_format"] = True
        if kind == "xfracbin": extra["binary_format"] = True
        if kind == "xfracneutral": extra["neutral"] = True
        b = arr(c, a.shape, "f4" if not kind.startswith("xfrac") or kind == "xfrac32" else "f8")
        keep = kind in ("velocity", "clumping") and c.coin(.4); stale(c, q)
        if keep: b = a; c.call(o.write_to_file, q)
        else: c.call(o.write_to_file, q, c.pick([b, np.asfortranarray(b)]), **extra)
        head = i4(0, *sh, 0, 0) if kind in ("xfrac", "xfrac32", "xfracneutral") else i4(*sh)
        f = open(q, "rb").read(); hs = len(head)
        c.true(f[hs:] == fbytes((1 - b) if kind == "xfracneutral" else b, "F"), f"{kind}: bytes written")
        c.true(f[4:16] == i4(*sh) if hs == 24 else f[:12] == i4(*sh), f"{kind}: header written")
        c.close(np.asarray(getattr(quiet(read, q), attr), float), b.astype(float), f"{kind}: write/read round trip", rtol=1e-12)
        R = quiet(read, q); c.equal([o.mesh_x, o.mesh_y, o.mesh_z], sh, f"{kind}: mesh of the object that was written")
        for at in (attr, "cgs_density", "kmsrho8"):
            if hasattr(R, at): c.close(np.asarray(getattr(o, at), float), np.asarray(getattr(R, at), float), f"{kind}: {at} of the object that was written and of the one read back", rtol=1e-6)
    if kind == "density" and c.coin(.5):
        rho = np.abs(arr(c, sh, "f8")) * 1e-3; q = f"{d}/{z:.3f}n_all_cgs.dat"; fac = const.rho_crit_0 * (sh[0] / conv.nbox_fine) ** 3 * const.OmegaB
        c.call(o.write_to_file, q, cgs_density=rho * fac); r = quiet(t2c.DensityFile, q)
        c.close(r.raw_density, rho, "density given in g/cm^3", rtol=1e-6); c.close(o.raw_density, rho, "raw density of the object given g/cm^3", rtol=1e-6); c.close(o.cgs_density, rho * fac, "g/cm^3 of the object given g/cm^3", rtol=1e-6)
    # cut short
    body = len(raw) - (4 if len(raw) % 8 and False else 0); hd = len(raw) - a.nbytes
    data_end = (12 if kind in ("density", "clumping", "velocity", "xfracbin", "iratebin") else 24) + a.nbytes
    for _ in range(3):
        cut = c.pick([c.int(0, data_end - 1), data_end - c.pick([1, 4, min(8, a.nbytes)]), data_end - a.nbytes]); put(p, raw[:cut])
        bad(c, lambda: getattr(read(p), attr), a.size, f"{kind} file cut after {cut} of {data_end} bytes")
    K.reset()


@monitor("sources", quick=450, thorough=2000, min_obs=100)
def sources(c):
    K.reset(); quiet(t2c.set_sim_constants, c.pick([37, 64, 114, 244]))
    d = c.tmp(); n = c.size(1, 8, 400); mesh = c.size(1, 5, 60); pos = c.rng.integers(1, mesh + 1, (n, 3)); m = c.rng.random((n, 2)) * 100
    if c.coin(.3): m[0, 0] = 0; m[-1, 1] = 0
    zs, z = zname(c); p = f"{d}/{zs}-coarsest_wsubgrid_sources.dat"; c.note(n=n, mesh=mesh, z=z)
    put(p, (f"{n} 0.0\n" + "".join(f" {a} {b} {e} {x!r} {y!r}\n 1 2 3\n" for (a, b, e), (x, y) in zip(pos, m.tolist()))).encode())
    mass = c.pick(["hm", "lm"]); kw = {} if mass == "hm" and c.coin() else dict(mass=mass); j = ["hm", "lm"].index(mass)
    S = c.call(t2c.SourceFile, p, **kw)
    ms = m[:, j] * conv.M_grid * const.solar_masses_per_gram
    c.equal(S.sources_list[:, :3], pos - 1, "source positions"); c.close(S.sources_list[:, 3], ms, "source masses in Msun", rtol=1e-9); c.close(S.z, z, "redshift", rtol=1e-12)
    c.call(S.grid_sources, mesh); ref = np.zeros((mesh,) * 3); np.add.at(ref, tuple((pos - 1).T), ms)
    c.close(S.sources_coeval, ref, "gridded sources", rtol=1e-9)
    q = f"{d}/{zs}-coarsest_out.dat"
    stale(c, q); L = S.sources_list.copy(); c.call(S.write_to_file, q, *([] if c.coin() else [L]))
    R = quiet(t2c.SourceFile, q, mass=mass); c.close(R.sources_list, L, "sources round trip", rtol=0, atol=1e-9 * (L.max() + 1e-300)); c.close(R.sources_list[:, 3], L[:, 3], "source masses round trip", rtol=1e-9, atol=1e-200)
    lines = open(p, "rb").read().splitlines(keepends=True)
    if n > 1: put(p, b"".join(lines[:2 * c.int(1, n - 1)])); bad(c, lambda: t2c.SourceFile(p, **kw).sources_list, n * 4, "source list cut short")
    K.reset()


@monitor("save_data", quick=450, thorough=2000, min_obs=100)
def save_data(c):
    d = c.tmp(); sh = shape3(c); a = arr(c, sh, "f8"); ext = c.pick(["npy", "pkl", "cbin", "fits", "bin"]); p = f"{d}/a.{ext}"; c.note(sh=sh, ext=ext)
    if ext == "bin": a = arr(c, (c.int(1, 4),) * 3, "f8")
    stale(c, p); c.true(c.call(t2c.save_data, p, a) is True, "saved")
    if ext == "npy": g = np.load(p)
    elif ext == "pkl":
        import pickle; g = pickle.load(open(p, "rb"))
    elif ext == "cbin": g = t2c.read_cbin(p); a = a.astype("f4")
    elif ext == "bin": g = t2c.read_raw_binary(p)
    else: g = c.call(t2c.read_fits, p, header=False)
    c.equal(np.asarray(g), a, f"save_data as {ext}")
    from astropy.io import fits
    q = f"{d}/b.fits"; hd = fits.Header(); hd["ZRED"] = 7.5
    src, want = a, np.asarray(a, float)
    if c.coin(.3): put(f"{d}/8.000n_all.dat", i4(*a.shape) + fbytes(a.astype("f4"), "F")); src = c.pick([f"{d}/8.000n_all.dat", quiet(t2c.DensityFile, f"{d}/8.000n_all.dat")]); want = t2c.DensityFile(f"{d}/8.000n_all.dat").cgs_density.astype(float)
    elif c.coin(.3): src = a.astype(int); want = src.astype(float)
    for _ in range(c.int(1, 2)): c.call(t2c.save_fits, src, q, **c.pick([dict(header=hd), {}]))
    c.call(t2c.save_fits, src, q, header=hd)
    g, h2 = c.call(t2c.read_fits, q); c.equal(g, want, "fits round trip"); c.close(h2["ZRED"], 7.5, "fits header", rtol=0)


def value(c, depth=0):
    k = c.int(0, 6 if depth < 2 else 4)
    if k == 0: return c.int(-1000, 1000)
    if k == 1: return c.uni(-10, 10)
    if k == 2: return "".join(c.pick(list("abc xyz_é1")) for _ in range(c.int(0, 6)))
    if k == 3: return c.coin()
    if k == 4: return None
    if k == 5: return [value(c, depth + 1) for _ in range(c.int(0, 4))]
    return {f"k{i}": value(c, depth + 1) for i in range(c.int(0, 4))}


@monitor("dictionaries", quick=600, thorough=2500, min_obs=100)
def dictionaries(c):
    d = c.tmp(); fmt = c.pick(["pkl", "pickle", "json", "yaml", "yml", "npz", "csv", "xlsx"] if c.i % 10 else ["xlsx"])
    if fmt == "xlsx" and c.coin(.7): fmt = "json"
    if fmt in ("csv", "xlsx"):
        n = c.size(1, 6, 3000); D = {f"c{i}": c.pick([c.rng.normal(size=n).tolist(), c.rng.integers(-9, 9, n).tolist(), [f"s{c.int(0, 99)}" for _ in range(n)]]) for i in range(c.int(1, 4))}
    elif fmt == "npz": D = {f"k{i}": arr(c, tuple(c.int(0, 4) for _ in range(c.int(0, 3))), c.pick(["f4", "f8", "i4"])) for i in range(c.int(1, 4))}
    else: D = {f"k{i}": value(c) for i in range(c.int(0, 5))}
    if fmt in ("pkl", "pickle") and c.coin(): D["arr"] = arr(c, (2, 3)); D[3] = (1, 2)
    exp = c.coin(); p = f"{d}/x.{fmt if not exp or fmt in ('npz', 'xlsx') else 'dat'}"; kw = dict(format=c.pick([fmt, fmt.upper()]) if False else fmt) if exp else {}
    c.note(fmt=fmt, D=D, exp=exp)
    stale(c, p); c.call(t2c.write_dictionary_data, D, p, **kw); g = c.call(t2c.read_dictionary_data, p, **kw)
    c.equal(sorted(map(str, g)), sorted(map(str, D)), f"{fmt}: keys")
    for k in D:
        if isinstance(D[k], (np.ndarray, np.generic)): c.equal(np.asarray(g[k]), D[k], f"{fmt}: {k}"); c.equal(np.asarray(g[k]).dtype, D[k].dtype, f"{fmt}: dtype")
        elif fmt in ("csv", "xlsx") and isinstance(D[k][0], float): c.close(np.array(g[k]), np.array(D[k]), f"{fmt}: {k}", rtol=1e-14)
        else: c.true(g[k] == D[k] and type(g[k]) is type(D[k]), f"{fmt}: {k}: {g[k]!r} != {D[k]!r}")
    c.raises(t2c.read_dictionary_data, f"{d}/x.foo", what="unknown format"); c.raises(t2c.write_dictionary_data, D, f"{d}/x.foo", what="unknown format")


@monitor("directories", quick=450, thorough=1500, min_obs=150)
def directories(c):
    K.reset(); d = c.tmp(); n = 2; k = c.int(2, 5); zs = sorted({round(c.uni(6, 20), 3) for _ in range(k)}); sh = (210, 2, 2); X, D, V = {}, {}, {}
    if len(zs) < 2: raise Skip()
    for z in [zs[i] for i in c.rng.permutation(len(zs))]:
        X[z], D[z], V[z] = c.rng.random(sh), (c.rng.random(sh) + .1).astype("f4"), c.rng.normal(size=(3,) + sh).astype("f4")
        put(f"{d}/xfrac3d_{z:.3f}.bin", i4(12, *sh, 12, 0) + X[z].tobytes("F")); put(f"{d}/{z:.3f}n_all.dat", i4(*sh) + D[z].tobytes("F"))
        put(f"{d}/{z:.3f}v_all.dat", i4(*sh) + V[z].tobytes("F")); put(f"{d}/{z:.3f}-coarsest_wsubgrid_sources.dat", b"1 0.0\n1 1 1 5.0 2.0\n\n")
    c.note(zs=zs)
    f = conv.lscale / conv.tscale / 1e5; cgs = const.rho_crit_0 * (sh[0] / conv.nbox_fine) ** 3 * const.OmegaB
    for fn in (H.get_xfrac_redshifts, H.get_dens_redshifts, H.get_source_redshifts): c.close(c.call(fn, d), np.array(zs), f"{fn.__name__}", rtol=1e-12)
    lo, hi = sorted([c.uni(zs[0], zs[-1]), c.uni(zs[0], zs[-1])]); fn = c.pick([H.get_xfrac_redshifts, H.get_dens_redshifts, H.get_source_redshifts])
    c.close(c.call(fn, d, lo, hi), np.array([z for z in zs if lo <= z <= hi]), "redshifts in a range", rtol=1e-12)
    c.close(c.call(fn, d, lo, hi, bracket=True), np.array([z for z in zs if max(v for v in zs if v <= lo) <= z <= min(v for v in zs if v >= hi)]), "bracketing redshifts", rtol=1e-12)
    c.close(c.call(t2c.get_zs_list, d), np.array(zs), "get_zs_list", rtol=1e-12); c.close(c.call(t2c.get_zs_list, d, "/*n_all.dat"), np.array(zs), "get_zs_list", rtol=1e-12)
    z = c.pick(zs) if c.coin() else c.uni(zs[0] + 1e-3, zs[-1] - 1e-3)
    l = max(v for v in zs if v <= z); h = min(v for v in zs if v >= z); t = 0 if l == h else (z - l) / (h - l); mix = lambda A: A(l) * (1 - t) + A(h) * t
    c.note(z=z)
    xr = mix(lambda v: X[v])
    for fn in (t2c.coeval_xfrac, t2c.coeval_xfrac_c2ray): c.close(c.call(fn, d, z), xr, f"{fn.__name__}", rtol=1e-9)
    dr = mix(lambda v: D[v].astype(float) * cgs); c.close(c.call(t2c.coeval_dens, d, z), dr, "coeval_dens", rtol=1e-5)
    c.close(c.call(t2c.coeval_overdens, d, z), dr / dr.mean() - 1, "coeval_overdens", rtol=1e-4)
    c.close(c.call(t2c.coeval_vel, d, d, z), mix(lambda v: V[v].astype(float) * f * (1 + v) * 8 / D[v]), "coeval_vel", rtol=1e-5)
    T = (1 - xr) * dr / (const.rho_crit_0 * const.OmegaB) * t2c.mean_dt(z); c.close(c.call(t2c.coeval_21cm, d, d, z), T, "coeval_21cm", rtol=1e-5)
    c.close(c.call(t2c.coeval_21cm, d, d, z, mean_subtract=True), T - T.mean(), "coeval_21cm, mean subtracted", rtol=1e-4)
    w = c.uni(zs[0] + 1e-3, zs[-1] - 1e-3); up = min(v for v in zs if v >= w)
    c.close(c.call(t2c.coeval_dens_c2ray, d, w), D[up].astype(float) * cgs, "coeval_dens_c2ray between snapshots: the comoving density of the snapshot before", rtol=1e-5)
    z = c.pick(zs); c.close(c.call(t2c.coeval_dens_c2ray, d, z), D[z].astype(float) * cgs, "coeval_dens_c2ray", rtol=1e-5)
    T = (1 - X[z]) * D[z].astype(float) * (sh[0] / conv.nbox_fine) ** 3 * t2c.mean_dt(z)
    c.close(c.call(t2c.coeval_21cm_c2ray, d, d, z), T, "coeval_21cm_c2ray", rtol=1e-5); c.close(c.call(t2c.coeval_21cm_c2ray, d, d, z, mean_subtract=True), T - T.mean((0, 1)), "coeval_21cm_c2ray, mean subtracted", rtol=1e-4)
    c.equal(c.call(t2c.read_c2ray_files, f"{d}/xfrac3d_{z:.3f}.bin"), X[z], "read_c2ray_files xfrac"); c.equal(c.call(t2c.read_grizzly_files, f"{d}/xfrac3d_{z:.3f}.bin"), X[z], "read_grizzly_files")
    c.close(c.call(t2c.read_c2ray_files, f"{d}/{z:.3f}n_all.dat", file_type="dens"), D[z].astype(float) * cgs, "read_c2ray_files dens", rtol=1e-5)
    c.close(c.call(t2c.read_c2ray_files, f"{d}/{z:.3f}v_all.dat", file_type="vel", density_file=f"{d}/{z:.3f}n_all.dat"), V[z].astype(float) * f * (1 + z) * 8 / D[z], "read_c2ray_files vel", rtol=1e-5)
    m = c.int(1, 6) if c.coin(.8) else c.int(20, 70); a = c.rng.normal(size=(m,) * 3).astype("f4"); put(f"{d}/delta_T_{m}", a.tobytes("C")); c.equal(c.call(t2c.read_21cmfast_files, f"{d}/delta_T_{m}"), a, "read_21cmfast_files")


@monitor("names", quick=900, thorough=3000, min_obs=150)
def names(c):
    z = c.pick([f"{c.uni(5, 30):.3f}", f"{c.uni(10, 30):.2f}", f"{c.uni(5, 30):.4f}"]); pre = c.pick(["xfrac3d_", "", "Temper3D_", "cube_a2_", "z=", "dT_1_"]); suf = c.pick(["n_all.dat", ".bin", "v_all.dat", ".cbin", "_sim1.dat", ".npy"])
    p = c.pick(["", "/data/sim_123456789/", "rel/25.000/"]) + pre + z + suf; c.note(p=p)
    c.close(c.call(H.determine_redshift_from_filename, p), float(z), f"redshift in {p}", rtol=1e-12)
    c.equal(c.call(H.determine_redshift_from_filename, "nothing.dat"), -1, "no redshift"); c.equal(c.call(H.determine_redshift_from_filename, np.zeros(3)), -1, "arrays have no file name")
    for n, t in (("xfrac3d_7.bin", "xfrac"), ("7.0n_all.dat", "density"), ("Temper3D_7.bin", "temper"), ("7.0v_all.dat", "velocity"), ("x.cbin", "cbin"), ("dbt.npy", "dbt"), ("x.txt", "unknown")):
        c.equal(c.call(H.determine_filetype, "/xfrac3d_/" + n if t != "xfrac" else n), t, f"type of {n}")
    a = c.rng.normal(size=c.int(2, 30)); a = np.unique(a); v = c.rng.uniform(a[0] - .3, a[-1] + .3, c.int(1, 9)); dec = c.coin(); A = a[::-1].copy() if dec else a
    if len(a) > 1:
        c.close(np.atleast_1d(c.call(H.find_idx, A, v)), np.interp(v, a, np.arange(len(a))[::-1] if dec else np.arange(len(a))), "fractional index", rtol=0, atol=1e-8)
        w = c.rng.permutation(len(a))
        if len(a) > 2 and not (np.all(np.diff(a[w]) >= 0) or np.all(np.diff(a[w]) <= 0)): c.raises(H.find_idx, a[w], v, what="unsorted array")


@monitor("redshift_lists", quick=300, thorough=1500, min_obs=600)
def redshift_lists(c):
    """Directory listings: any precision of the number in the name, stray files beside, odd directory names, one-sided ranges."""
    import os
    d = c.tmp() + c.pick(["", "/run_n_512", "/a-b_1.250", "/v1.0 of n_all"]); os.makedirs(d, exist_ok=True)
    names = sorted({c.pick(["{:.3f}", "{:.4f}", "{:.2f}", "{:.1f}", "{:.5f}"]).format(c.uni(*c.pick([(5, 10), (10, 30), (100, 150)]))) for _ in range(c.int(1, 7))}); zs = np.unique([float(n) for n in names])
    if len(zs) != len(names): raise Skip()
    for i in c.rng.permutation(len(names)):
        for pre, suf in (("xfrac3d_", ".bin"), ("", "n_all.dat"), ("", "-coarsest_wsubgrid_sources.dat")): put(f"{d}/{pre}{names[i]}{suf}", b"")
    for stray in ("xfrac3d_mean.bin", "meann_all.dat", "old-coarsest_wsubgrid_sources.dat", "notes_7.0.txt"):
        if c.coin(): put(f"{d}/{stray}", b"")
    c.note(names=names, d=d)
    lo, hi = sorted([c.uni(zs[0] - 1, zs[-1] + 1), c.uni(zs[0] - 1, zs[-1] + 1)]); e = c.pick(list(zs))
    for fn in (H.get_xfrac_redshifts, H.get_dens_redshifts, H.get_source_redshifts):
        q = d + ("/" if c.coin(.3) else "")
        c.close(c.call(fn, q), zs, f"{fn.__name__} lists every snapshot in order", rtol=1e-12)
        c.close(c.call(fn, q, z_low=lo), zs[zs >= lo], f"{fn.__name__} from z_low", rtol=1e-12); c.close(c.call(fn, q, z_high=hi), zs[zs <= hi], f"{fn.__name__} up to z_high", rtol=1e-12)
        c.close(c.call(fn, q, lo, hi), zs[(zs >= lo) & (zs <= hi)], f"{fn.__name__} in a range", rtol=1e-12); c.close(c.call(fn, q, e, e), np.array([e]), f"{fn.__name__} bounds included", rtol=1e-12)
        if lo >= zs[0] and hi <= zs[-1]: c.close(c.call(fn, q, lo, hi, bracket=True), zs[(zs >= zs[zs <= lo][-1]) & (zs <= zs[zs >= hi][0])], f"{fn.__name__} bracket", rtol=1e-12)
        else: c.raises(fn, q, lo, hi, bracket=True, what="a range the snapshots do not bracket")
