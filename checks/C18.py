"""C18: uv light-cones under crash injection, resumption, caching and parallelism, against maps made one by one."""
import os, sys, signal, resource, shutil, subprocess, pickle
import numpy as np
import astropy.units as u
from vh import monitor, Skip, Violation, quiet, REPO
import vh
import tools21cm as t2c
from tools21cm import conv, const, radio_telescope_noise as rn
import cosmoref as K

META = ("ncells", "boxsize", "total_int_time", "int_time", "declination", "subarray_type", "N_ant")


def setup(c):
    K.reset(); s = dict(ncells=c.pick([8, 12, 16]), subarray_type=c.pick(["AA0.5", "AA1", "AA1"]), total_int_time=c.pick([1., 2.]), int_time=c.pick([600., 900.]), boxsize=c.pick([None, 60., 150.]), declination=c.pick([-30., -10.]))
    cos = (.27, .7)
    if c.coin(.4): cos = (round(c.uni(.15, .5), 3), round(c.uni(.5, .9), 3)); t2c.set_hubble_h(cos[1]); t2c.set_omega_matter(cos[0])
    if c.coin(.3): t2c.set_sim_constants(c.pick([37, 64, 114]))
    return s, cos


def redshifts(c, n): return np.round(c.rng.choice(np.arange(6000, 12000), n, replace=False) / 1000., 3)


def key(z): return "{:.3f}".format(z)


_ref = {}


def ref(s, z):
    """The map of one redshift made on its own (get_uv_map itself is decided by C17)."""
    k = (tuple(sorted(s.items(), key=str)), key(z), const.Omega0, const.h, conv.LB)
    if k not in _ref: _ref[k] = quiet(rn.get_uv_map, s["ncells"], z, **{q: v for q, v in s.items() if q != "ncells"}, verbose=False)[0]
    return _ref[k]


def judge(c, uvs, zs, s, what):
    for z in zs:
        c.true(key(z) in uvs, f"{what}: map for z={z}"); c.equal(np.asarray(uvs[key(z)]), ref(s, z), f"{what}: map of z={z} equals a fresh one")


def run(c, zs, s, **kw):
    r = c.call(rn.get_uv_map_lightcone, s["ncells"], zs, **{q: v for q, v in s.items() if q != "ncells"}, verbose=False, **kw)
    return r


def crash(fn, where):
    """Run fn in a forked process killed at an injected point; returns ('done'|'killed', detail)."""
    r, w = os.pipe(); pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r); dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 1); os.dup2(dn, 2); n = [0]
            if where[0] == "compute":
                g = rn.get_uv_map
                def h(*a, **k):
                    n[0] += 1
                    if n[0] == where[1]: os.write(w, b"k"); os._exit(9)
                    return g(*a, **k)
                rn.get_uv_map = h
            elif where[0] == "interrupt":
                g = rn.get_uv_map
                def h(*a, **k):
                    n[0] += 1
                    if n[0] == where[1]: os.write(w, b"k"); raise KeyboardInterrupt
                    return g(*a, **k)
                rn.get_uv_map = h
            elif where[0] == "event":
                d = where[2]
                def hook(ev, args):
                    if ev in ("open", "os.rename", "os.remove", "os.truncate", "os.mkdir") and args and any(isinstance(x, (str, bytes)) and d in os.fsdecode(x) for x in args[:2]):
                        n[0] += 1
                        if n[0] == where[1] and where[3] == 0: os.write(w, b"k"); os._exit(9)
                        if n[0] == where[1]:           # some lines of Python after the file operation
                            m = [0]; M = sys.monitoring
                            def line(*_):
                                m[0] += 1
                                if m[0] == where[3]: os.write(w, b"k"); os._exit(9)
                            M.use_tool_id(3, "crash"); M.register_callback(3, M.events.LINE, line); M.set_events(3, M.events.LINE)
                sys.addaudithook(hook)
            elif where[0] == "bytes":
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL); resource.setrlimit(resource.RLIMIT_FSIZE, (where[1], where[1]))
            elif where[0] == "full":
                resource.setrlimit(resource.RLIMIT_FSIZE, (where[1], where[1]))     # Python ignores SIGXFSZ: the write fails as on a full disc
            signal.alarm(60); fn(); code = 0
        except BaseException: code = 4
        finally: os._exit(code)
    os.close(w); k = os.read(r, 1); os.close(r); _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM: raise Violation("get_uv_map_lightcone did not finish within 60 s")
    return "done" if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0 else "killed", st


def stored(f):
    return {k: v for k, v in quiet(t2c.read_dictionary_data if hasattr(t2c, "read_dictionary_data") else rn.read_dictionary_data, f).items()}


@monitor("crash_resume", quick=500, thorough=8000, min_obs=750)
def crash_resume(c):
    """Kill a light-cone run at a computation, a file operation or a byte of a save; resume; compare with fresh maps."""
    s, cos = setup(c); n = c.int(2, 7); zs = redshifts(c, n); ck = c.pick([1, 2, 3, 16, None, 0]); d = c.tmp(); f = os.path.join(d, "uv" + c.pick([".pkl", ".pickle", ".npz"])); legs = c.int(1, 3); c.note(s=s, cos=cos, zs=zs, ck=ck, legs=legs)
    done = set(); one = len(pickle.dumps(np.zeros((s["ncells"],) * 2, "f4"))); kinds = []
    for leg in range(legs):
        todo = [z for z in zs if key(z) not in done]; q = zs if c.coin(.7) else zs[c.rng.permutation(n)[:c.int(1, n)]]
        w = c.pick(["compute", "compute", "event", "event", "bytes", "bytes", "bytes", "full", "interrupt"])
        where = {"compute": lambda: (w, c.int(1, n + 1)), "interrupt": lambda: (w, c.int(1, n)), "event": lambda: (w, c.int(1, 3 * n + 3), d, c.pick([0, 0, 1, 2, 3, 4, 5, 6, 8, 10, 12, 15, 20, 30, 50]))}.get(w, lambda: (w, c.int(0, int(one * (n + 1.5) + 600))))()
        st, _ = crash(lambda: rn.get_uv_map_lightcone(s["ncells"], q, **{a: v for a, v in s.items() if a != "ncells"}, verbose=False, save_uvmap=f, n_jobs=1, checkpoint=ck), where); kinds.append((w, where[1], st)); c.calls += 1
        if os.path.exists(f):
            try: m = stored(f)
            except Exception as e: raise Violation(f"after being killed at {where[:2]} the saved file cannot be read: {type(e).__name__}: {e}")
            have = {k for k in m if k.replace(".", "").isdigit()}; c.true(done <= have, f"maps saved before the crash are kept: lost {sorted(done - have)}")
            for z in zs:
                if key(z) in have: c.equal(np.asarray(m[key(z)]), ref(s, z), f"saved map of z={z} is complete and right")
            if w in ("compute", "interrupt") and st == "killed" and ck:
                k0 = ((where[1] - 1) // ck) * ck; fresh = [z for z in q if key(z) not in done]
                c.true(len(have - done) >= min(k0, len(fresh)), f"progress up to the last checkpoint is saved: {len(have - done)} of {k0}")
            done = have
        else:
            c.true(not done, "a crash does not remove the saved file")
            if w in ("compute", "interrupt") and st == "killed" and ck: c.true((where[1] - 1) // ck == 0, f"progress up to the last checkpoint is saved: killed at map {where[1]}, checkpoint {ck}, nothing on disc")
    c.note(kinds=kinds)
    uvs = run(c, list(zs) if c.coin(.3) else zs, s, save_uvmap=f, n_jobs=1, checkpoint=ck); judge(c, uvs, zs, s, "resumed"); m = stored(f); judge(c, m, zs, s, "saved after resuming")
    for k, v in s.items():
        if k != "boxsize": c.true(uvs[k] == v, f"setup recorded: {k}")
    c.true(uvs["boxsize"] == (s["boxsize"] or conv.LB), "box size recorded")


@monitor("cache_history", quick=200, thorough=3000, min_obs=750)
def cache_history(c):
    """Random sequences of runs sharing a file: extension, repetition, changed setups."""
    s, cos = setup(c); pool = redshifts(c, 8); d = c.tmp(); f = os.path.join(d, "uv" + c.pick([".pkl", ".npz"])); have = set(); c.note(s=s, cos=cos, pool=pool, f=os.path.basename(f))
    for step in range(c.int(3, 7)):
        zs = pool[c.rng.permutation(8)[:c.int(1, 5)]]
        if c.coin(.2): zs = np.concatenate([zs, zs[:1]])
        op = c.pick(["run", "run", "run", "nofile", "mismatch", "mismatch", "cosmology", "box"]); ck = c.pick([1, 2, 16, None])
        if op in ("run", "nofile"):
            uvs = run(c, zs, s, n_jobs=1, checkpoint=ck, **({} if op == "nofile" else dict(save_uvmap=f))); judge(c, uvs, zs, s, f"step {step}")
            if op == "run": have |= set(map(key, zs)); m = stored(f); c.true(have <= set(m), "everything computed so far is saved"); judge(c, m, [z for z in pool if key(z) in have], s, "saved")
            else: c.true({k for k in uvs if k.replace(".", "").isdigit()} == set(map(key, zs)), "only the requested maps without a file")
        elif have:
            before = open(f, "rb").read(); t = dict(s); saved = dict(vars(const)), dict(vars(conv))
            if op == "mismatch": k = c.pick(["ncells", "subarray_type", "total_int_time", "int_time", "declination", "boxsize"]); t[k] = {"ncells": s["ncells"] + 2, "subarray_type": "AA1" if s["subarray_type"] == "AA0.5" else "AA0.5", "total_int_time": s["total_int_time"] * c.pick([1.5, 1.005, 1 - 1e-6]), "int_time": s["int_time"] * c.pick([.5, 1.005]), "declination": s["declination"] - c.pick([5, .5, .1]), "boxsize": (s["boxsize"] or conv.LB) * c.pick([1.25, 1.004])}[k]
            elif op == "cosmology":
                if c.coin(): t2c.set_omega_matter(const.Omega0 + c.pick([.05, .002]))
                else: t2c.set_hubble_h(const.h - c.pick([.05, .004]))
            else:
                if s["boxsize"]: continue
                t2c.set_sim_constants(114 if abs(conv.LB - 114 / const.h) > 1 else 64)
            try: r = run(c, zs, t, save_uvmap=f, n_jobs=1, checkpoint=ck)
            except Violation as e:
                c.true("raised ValueError" in str(e) or "raised AssertionError" in str(e), f"a saved file of another setup is rejected cleanly: {str(e)[:200]}"); c.true(open(f, "rb").read() == before, "rejecting leaves the file alone")
            else:
                if op == "mismatch" and t["ncells"] == s["ncells"]: judge(c, r, zs, t, f"changed {op}: accepted, so every map must be of the new setup")
                elif op == "mismatch": raise Violation("a file of another grid size was accepted")
                else: judge(c, r, zs, t, f"changed {op}: accepted, so every map must be of the new setup")
                return
            finally:
                for mod, sv in zip((const, conv), saved): vars(mod).update(sv)


CHILD = """
import sys, os, pickle; sys.path.insert(0, os.path.join({repo!r}, 'src'))
import tools21cm as t2c
from tools21cm import radio_telescope_noise as rn, const
if __name__ == '__main__':
    a = pickle.load(open(sys.argv[1], 'rb'))
    if a['cos'] != (.27, .7): t2c.set_hubble_h(a['cos'][1]); t2c.set_omega_matter(a['cos'][0])
    n = [0]
    def hook(ev, args):
        if ev in ('open', 'os.rename') and any(isinstance(x, str) and a['f'] and os.path.dirname(a['f']) in x and 'uv' in os.path.basename(x) for x in args[:2]):
            n[0] += 1
            if n[0] == a['kill']: os.killpg(0, 9)
    if a['kill']: os.setpgid(0, 0); sys.addaudithook(hook)
    r = rn.get_uv_map_lightcone(a['s']['ncells'], a['zs'], **{{k: v for k, v in a['s'].items() if k != 'ncells'}}, verbose=False, save_uvmap=a['f'], n_jobs=a['jobs'], checkpoint=a['ck'])
    pickle.dump(r, open(sys.argv[1] + '.out', 'wb'))
"""


@monitor("parallel", quick=8, thorough=120, min_obs=30)
def parallel(c):
    """Worker processes, chunks and a kill of the whole process group in between."""
    s, cos = setup(c); conv_lb = conv.LB; s["boxsize"] = s["boxsize"] or 100.; n = c.int(3, 8); zs = redshifts(c, n); ck = c.pick([1, 2, 3, None]); jobs = c.pick([2, 3]); d = c.tmp(); f = os.path.join(d, "uv.pkl"); kill = c.pick([0, c.int(1, 8), c.int(2, 6)]); c.note(s=s, cos=cos, zs=zs, ck=ck, jobs=jobs, kill=kill)
    a = os.path.join(d, "args"); p = os.path.join(d, "child.py"); open(p, "w").write(CHILD.format(repo=REPO))
    legs = [(kill, zs)] + ([(0, zs)] if kill else [])
    for kl, q in legs:
        pickle.dump(dict(s=s, zs=q, f=f if kill or c.coin() else None, jobs=jobs, ck=ck, kill=kl, cos=cos), open(a, "wb")); c.calls += 1
        r = subprocess.run([sys.executable, p, a], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=5000)
        if kl and r.returncode == -9: 
            if os.path.exists(f):
                try: m = stored(f)
                except Exception as e: raise Violation(f"after a kill the saved file cannot be read: {type(e).__name__}: {e}")
                judge(c, m, [z for z in zs if key(z) in m], s, "saved before the kill")
            continue
        if r.returncode: raise Violation(f"get_uv_map_lightcone with n_jobs={jobs} failed ({r.returncode}): {r.stdout.decode()[-600:]}")
    judge(c, pickle.load(open(a + ".out", "rb")), zs, s, f"{jobs} workers"); 


@monitor("parallel_inprocess", quick=8, thorough=100, min_obs=15)
def parallel_in(c):
    """Workers reused across changing cosmologies, boxes and job counts give the serial maps."""
    for _ in range(4):
        s, cos = setup(c); ck = c.pick([1, 2, 4, 5, 16, None]); zs = redshifts(c, c.pick([c.int(2, 5), c.int(3, 9), (ck or 3) + 1 if ck != 16 else 6])); jobs = c.pick([2, 2, 4, 1]); c.note(s=s, cos=cos, zs=zs, jobs=jobs, ck=ck)
        kw = {} if jobs == 4 else dict(n_jobs=jobs)
        judge(c, run(c, zs, s, checkpoint=ck, **kw), zs, s, f"{jobs} workers in a cosmology set by the user")


@monitor("noise_from_cache", quick=40, thorough=400, min_obs=20)
def noise_from_cache(c):
    """Noise light-cones are the same with fresh, partial or complete cached coverage."""
    s, cos = setup(c); n = c.int(2, 4); zs = np.sort(redshifts(c, n)); d = c.tmp(); f = os.path.join(d, "uv.pkl"); seed = c.int(0, 10 ** 6); kw = {k: v for k, v in s.items() if k != "ncells"}; c.note(s=s, cos=cos, zs=zs); out = []
    for i, (j, sv) in enumerate([(1, None), (1, f), (1, f)]):
        if i == 1 and c.coin(): run(c, zs[:1], s, save_uvmap=f, n_jobs=1)
        np.random.seed(seed); out.append(c.call(t2c.noise_lightcone, s["ncells"], zs, obs_time=1000, verbose=False, n_jobs=j, save_uvmap=sv, **kw))
    for o in out[1:]: c.equal(o, out[0], "noise light-cone with and without cached coverage")
    c.true(out[0].shape == (s["ncells"],) * 2 + (n,), "one slice per redshift")


@monitor("by_positions", quick=40, thorough=300, min_obs=40)
def by_positions(c):
    """Arrays of antenna positions instead of a named layout; another array is another setup."""
    s, cos = setup(c); x = c.rng.normal(size=(c.int(3, 6), 3)) * 300 * u.m; s["subarray_type"] = x; zs = redshifts(c, 3); d = c.tmp(); f = os.path.join(d, "uv.pkl"); c.note(x=x.value, zs=zs); kw = {k: v for k, v in s.items() if k != "ncells"}
    for q in (zs[:2], zs):
        r = run(c, q, s, save_uvmap=f, n_jobs=1)
        for z in q: c.equal(r[key(z)], quiet(rn.get_uv_map, s["ncells"], z, **kw, verbose=False)[0], "map of the given positions")
    t = dict(s, subarray_type=x * 1.1 if c.coin() else x[:-1])
    try: r = run(c, zs, t, save_uvmap=f, n_jobs=1)
    except Violation as e: c.true("raised ValueError" in str(e), f"another array of antennas is rejected cleanly: {str(e)[:200]}")
    else:
        for z in zs: c.equal(r[key(z)], quiet(rn.get_uv_map, **dict(t, z=z), verbose=False)[0], "accepted, so every map must be of the new array")
