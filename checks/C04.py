"""C04: every sequence of setters is compared, after each step, with (a) an independent model of
the derived quantities of the final settings and (b) a freshly loaded copy of the constants module."""
import importlib.util, os, sys, types
import numpy as np
from vh import monitor, Skip, REPO, quiet
import tools21cm as t2c
from tools21cm import const, conv, helper_functions
import cosmoref as K

BOXES = {37.: 2048, 47.: 3456, 64.: 3456, 114.: 6144, 200.: 3456, 244.: 8000, 425.: 10976, 500.: 13824}
MPC, G, MP = 3.086e24, 6.6732e-8, 1.672661e-24
DEF = dict(h=.7, Omega0=.27, OmegaB=.044, lam=.73, n_s=.96, sigma_8=.8, abu_he_mass=.2486)


def fresh():
    """A fresh session's const and conv modules (loaded from the current tree, own namespace)."""
    pk = types.ModuleType("t2c_fresh"); pk.__path__ = []
    sys.modules["t2c_fresh"] = pk
    for n in ("const", "conv"): sys.modules.pop("t2c_fresh." + n, None)
    pk.helper_functions = sys.modules["t2c_fresh.helper_functions"] = helper_functions
    out = []
    for n in ("const", "conv"):
        sp = importlib.util.spec_from_file_location("t2c_fresh." + n, os.path.join(REPO, "src/tools21cm", n + ".py"))
        m = importlib.util.module_from_spec(sp); sys.modules["t2c_fresh." + n] = m; setattr(pk, n, m)
        sp.loader.exec_module(m); out.append(m)
    return out


def derived(s):
    h0 = 100 * s["h"]; hc = h0 * 1e5 / MPC; rc = 3 * hc ** 2 / (8 * np.pi * G)
    nh = (1 - s["abu_he_mass"]) * s["OmegaB"] * rc / MP
    lam0 = 3e10 / 1.42e9
    return dict(H0=h0, H0cgs=hc, rho_crit_0=rc, rho_matter=rc * s["Omega0"], abu_h_mass=1 - s["abu_he_mass"],
                mean_molecular=1 / (1 - s["abu_he_mass"]), q0=.5 * s["Omega0"] - s["lam"], num_h_0=nh,
                meandt=3 * lam0 ** 3 / (32 * np.pi) * 2.85e-15 * .068 * nh / (hc / s["h"]) * 1000)


def box_factors(box, s):
    LB = box / s["h"]; n = BOXES[box]; rho = derived(s)["rho_matter"]
    ls = LB / n * MPC
    return dict(boxsize=box, LB=LB, nbox_fine=n, M_box=rho * (LB * MPC) ** 3, M_grid=rho * (LB * MPC) ** 3 / n ** 3,
                lscale=ls, tscale=2 / (3 * np.sqrt(s["Omega0"]) * 100 * s["h"] / MPC * 1e5))


def same(c, got, want, what, rtol=1e-12):
    c.true(abs(float(got) - float(want)) <= rtol * abs(float(want)), f"{what} = {float(got)!r}, expected {float(want)!r}")


def observe(c, s, bx, trace):
    t = " after " + " ".join(trace)
    for k, v in s.items(): same(c, getattr(const, k), v, f"const.{k}{t}")
    for k, v in derived(s).items(): same(c, getattr(const, k), v, f"const.{k}{t}", 1e-10)
    z = c.uni(0, 30)
    hz = 100 * s["h"] * np.sqrt(s["Omega0"] * (1 + z) ** 3 + s["lam"])
    same(c, const.Hz(z), hz, f"const.Hz({z:.3f}){t}", 1e-10)
    same(c, t2c.hubble_parameter(z), hz, f"hubble_parameter({z:.3f}){t}", 1e-10)
    ez = np.sqrt(s["Omega0"] * (1 + z) ** 3 + s["lam"] + (1 - s["Omega0"] - s["lam"]) * (1 + z) ** 2)
    same(c, t2c.mean_dt(z), derived(s)["meandt"] / s["h"] * (1 + z) ** 2 / ez, f"mean_dt({z:.3f}){t}", 1e-10)
    for k, v in bx.items(): same(c, getattr(conv, k), v, f"conv.{k}{t}", 1e-10)
    x = c.logu(1e-3, 1e4)
    same(c, conv.velconvert(z), bx["lscale"] / bx["tscale"] * (1 + z) / 1e5, "velconvert" + t, 1e-10)
    same(c, t2c.gridpos_to_mpc(x), x * bx["LB"] / bx["nbox_fine"], "gridpos_to_mpc" + t, 1e-10)
    same(c, t2c.gridvel_to_kms(x, z), x * bx["lscale"] / bx["tscale"] * (1 + z) / 1e5, "gridvel_to_kms" + t, 1e-10)
    xa, za = c.rng.uniform(.1, 10, 3), c.rng.uniform(0, 30, 3)   # arrays convert element by element
    c.close(c.call(t2c.gridvel_to_kms, xa, za), xa * bx["lscale"] / bx["tscale"] * (1 + za) / 1e5, "gridvel_to_kms of arrays" + t, rtol=1e-10, atol=0)
    c.close(c.call(t2c.gridpos_to_mpc, xa), xa * bx["LB"] / bx["nbox_fine"], "gridpos_to_mpc of an array" + t, rtol=1e-10, atol=0)
    c.close(10 ** c.call(t2c.gridmass_to_msol, xa), xa * bx["M_grid"] * 5.02785431e-34, "gridmass_to_msol of an array" + t, rtol=1e-9, atol=0)
    same(c, t2c.usefuls.Mgrid_2_Msolar(x), x * bx["M_grid"] * 5.02785431e-34, "Mgrid_2_Msolar" + t, 1e-9); c.close(c.call(t2c.usefuls.Msolar_2_Mgrid, c.call(t2c.usefuls.Mgrid_2_Msolar, xa)), xa, "Msolar_2_Mgrid inverts it" + t, rtol=1e-12, atol=0)
    same(c, 10 ** t2c.gridmass_to_msol(x), x * bx["M_grid"] * 5.02785431e-34, "gridmass_to_msol" + t, 1e-9)


def steps(c, s):
    """One random setter: (label, apply, new settings)."""
    k = c.pick(["h", "Omega0", "OmegaB", "lam", "n_s", "sigma_8", "abu_he_mass", "box", "box", "box", "bad"])
    if k == "h": v = c.pick([1, round(c.uni(.4, 1), 3), round(c.uni(.4, 1), 3), round(c.uni(.4, 1), 3)]); return f"set_hubble_h({v})", lambda m, n: m.set_hubble_h(v), dict(h=v)
    if k == "Omega0": v = round(c.uni(.1, .9), 3); return f"set_omega_matter({v})", lambda m, n: m.set_omega_matter(v), dict(Omega0=v, lam=1 - v)
    if k == "OmegaB": v = round(c.uni(.01, .09), 4); return f"set_omega_baryon({v})", lambda m, n: m.set_omega_baryon(v), dict(OmegaB=v)
    if k == "lam": v = c.pick([0, 1, 0., round(c.uni(0, 1), 3), round(c.uni(0, 1), 3), round(c.uni(0, 1), 3)]); return f"set_omega_lambda({v})", lambda m, n: m.set_omega_lambda(v), dict(lam=v)
    if k == "n_s": v = c.pick([1, round(c.uni(.8, 1.1), 3)]); return f"set_ns({v})", lambda m, n: m.set_ns(v), dict(n_s=v)
    if k == "sigma_8": v = round(c.uni(.6, 1), 3); return f"set_sigma_8({v})", lambda m, n: m.set_sigma_8(v), dict(sigma_8=v)
    if k == "abu_he_mass": v = round(c.uni(0, .4), 3); return f"set_abundance_helium({v})", lambda m, n: m.set_abundance_helium(v), dict(abu_he_mass=v)
    if k == "box":
        b = c.pick(sorted(BOXES)); v = c.pick([b, int(b)])
        return f"set_sim_constants({v})", lambda m, n: n.set_sim_constants(v), b
    v = c.pick([0., 1., 100., 244.5, 38., -37., 1e6, 46.9, 500.01])
    return f"set_sim_constants({v})", lambda m, n: n.set_sim_constants(v), None


class Live:
    """The public entry points, as the user calls them."""
    def __getattr__(self, k): return getattr(t2c, k)


@monitor("history", quick=1500, thorough=8000, min_obs=2500)
def history(c):
    K.reset()
    s = dict(DEF); bx = box_factors(244., s); trace = []
    n = c.int(1, 9); applied = []
    observe(c, s, bx, ["import"])
    for _ in range(n):
        label, ap, new = steps(c, s); trace.append(label)
        if new is None:
            c.raises(ap, Live(), Live(), what=label)
        else:
            quiet(ap, Live(), Live()); applied.append((ap, new))
            if isinstance(new, dict): s.update(new)
            else: bx = box_factors(new, s)
        observe(c, s, bx, trace)
    c.note(trace=" ".join(trace))
    # fresh session with only the final settings: everything numeric in const agrees
    fc, fv = fresh()
    for f, k in ((fc.set_hubble_h, "h"), (fc.set_omega_matter, "Omega0"), (fc.set_omega_baryon, "OmegaB"), (fc.set_omega_lambda, "lam"),
                 (fc.set_ns, "n_s"), (fc.set_sigma_8, "sigma_8"), (fc.set_abundance_helium, "abu_he_mass")):
        f(s[k])
    for k, v in vars(fc).items():
        if isinstance(v, float) and k != "OmegaL": same(c, getattr(const, k), v, f"fresh session: const.{k} after {' '.join(trace)}", 1e-12)
    if "set_sim_constants" in trace[-1] and new is not None:
        quiet(fv.set_sim_constants, new)
        for k, v in vars(fv).items():
            if isinstance(v, (int, float)): same(c, getattr(conv, k), v, f"fresh session: conv.{k} after {' '.join(trace)}", 1e-12)
    K.reset()


@monitor("files", quick=450, thorough=1500, min_obs=100)
def files(c):
    """Files read after a history use the factors in force at that moment."""
    K.reset()
    s = dict(DEF); bx = box_factors(244., s); trace = []
    d = c.tmp(); z = round(c.uni(5, 25), 3); n = c.int(200, 300)
    for _ in range(c.int(1, 5)):
        label, ap, new = steps(c, s)
        if new is None: continue
        quiet(ap, Live(), Live()); trace.append(label)
        if isinstance(new, dict): s.update(new)
        else: bx = box_factors(new, s)
        raw = np.asfortranarray(c.rng.random((n, 2, 2)).astype("f4")); vel = np.asfortranarray(c.rng.normal(size=(3, n, 2, 2)).astype("f4"))
        fd, fv = f"{d}/{z:.3f}n_all.dat", f"{d}/{z:.3f}v_all.dat"
        with open(fd, "wb") as f: f.write(np.array([n, 2, 2], "i4").tobytes() + raw.tobytes("F"))
        with open(fv, "wb") as f: f.write(np.array([n, 2, 2], "i4").tobytes() + vel.tobytes("F"))
        D = c.call(t2c.DensityFile, fd); V = c.call(t2c.VelocityFile, fv)
        c.close(D.cgs_density, raw.astype(float) * derived(s)["rho_crit_0"] * (n / bx["nbox_fine"]) ** 3 * s["OmegaB"], "density after " + " ".join(trace), rtol=1e-5)
        c.close(V.kmsrho8, vel.astype(float) * bx["lscale"] / bx["tscale"] * (1 + z) / 1e5, "momentum after " + " ".join(trace), rtol=1e-5)
    c.note(trace=" ".join(trace), z=z, n=n)
    K.reset()


@monitor("omega_lambda", quick=60, thorough=60, min_obs=2)
def omega_lambda(c):
    """const.OmegaL mirrors const.lam (recorded finding: set_omega_matter leaves it behind)."""
    K.reset(); stale = .73
    v = round(c.uni(0, 1), 3); quiet(t2c.set_omega_lambda, v)
    same(c, const.OmegaL, v, f"const.OmegaL after set_omega_lambda({v})"); stale = v
    if c.coin(.3): K.reset(); stale = .73
    om = round(c.uni(.1, .5), 3); quiet(t2c.set_omega_matter, om); c.note(v=v, om=om)
    got = const.OmegaL; lam = const.lam; K.reset()
    if abs(got - lam) < 1e-12: c.true(True, "")
    elif abs(got - stale) < 1e-12: c.known_finding("omegaL-after-set_omega_matter", f"OmegaL stays {got} after set_omega_matter({om})")
    else: c.true(False, f"const.OmegaL = {got} after set_omega_matter({om}), lam = {lam}")
