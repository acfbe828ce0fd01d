"""C20: analysis calls leave their arguments and the session alone, and repeat exactly.

Harvest: cases of the other checks are re-run here with a tap on their monitored calls, so that this
monitor sees every analysis function in realistic use without depending on those checks' verdicts.
Each tapped call is then replayed, in shuffled order, between perturbing calls (same function, other
arguments, some of which fail), after its earlier results have been scribbled on.
"""
import copy, ctypes, importlib.util, os, pickle, random, shutil, signal, socket, struct, sys, time, traceback, types
import cloudpickle
import numpy as np
import vh
from vh import monitor, Skip, Violation

HERE = os.path.dirname(os.path.abspath(__file__))
SOURCES = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C19 C21 C22 C23 C24 C25 C26".split()
SCR = os.environ["VH_SCRATCH"]


def source(p):
    n = len(vh.MONITORS); spec = importlib.util.spec_from_file_location("harvest_" + p, os.path.join(HERE, p + ".py")); m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m); r = vh.MONITORS[n:]; del vh.MONITORS[n:]; return r


# C12 goes first: it builds the compiled kernels from the current sources before the package is imported
_s = {p: source(p) for p in ["C12"] + [p for p in SOURCES if p != "C12"]}
POOL = [(p, m) for p in SOURCES for m in _s[p] if m["quick"] > 1 and m["name"] != "grf_power"]
from tools21cm import const, conv
import tools21cm as t2c

PAINTS = ("test_case.spherical_bubble_model",)   # known finding


# ---------------------------------------------------------------- session state
def modules(): return [m for n, m in sorted(sys.modules.items()) if n.split(".")[0] == "tools21cm" and m is not None]


SIMPLE = (int, float, complex, str, bytes, bool, type(None), np.generic, np.ndarray, tuple, list, dict)


def snap():
    return {(m.__name__, k): copy.deepcopy(v) for m in (const, conv) for k, v in vars(m).items() if isinstance(v, SIMPLE) and not k.startswith("__")}


def restore(s):
    for m in (const, conv):
        d = vars(m)
        for k in [k for k, v in d.items() if isinstance(v, SIMPLE) and not k.startswith("__") and (m.__name__, k) not in s]: del d[k]
        for (n, k), v in s.items():
            if n == m.__name__: d[k] = copy.deepcopy(v)


def changed(a, b): return sorted(f"{m}.{k}" for m, k in set(a) | set(b) if vh.digest(a.get((m, k))) != vh.digest(b.get((m, k))))


# ---------------------------------------------------------------- values
def mine(o): return getattr(type(o), "__module__", "").startswith("tools21cm")


def scratchy(o, d=0):
    if isinstance(o, str): return SCR in o
    if isinstance(o, (list, tuple)) and d < 3: return any(scratchy(x, d + 1) for x in list(o)[:50])
    if isinstance(o, dict) and d < 3: return any(scratchy(x, d + 1) for x in o.values())
    return False


TOL = 1e-10


FLOOR = [0.]


def same(a, b, path="result", d=0):
    """None, or where two results differ (rounding of reordered sums allowed)"""
    if d > 8: return None
    if hasattr(a, "unit") and hasattr(a, "value") and hasattr(b, "unit"):
        return f"{path}.unit" if a.unit != b.unit else same(np.asarray(a.value), np.asarray(b.value), path, d)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) or isinstance(a, (np.generic, int, float, complex)):
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape: return f"{path}: shape {x.shape} became {y.shape}"
        if x.dtype.newbyteorder("=") != y.dtype.newbyteorder("="): return f"{path}: type {x.dtype} became {y.dtype}"
        if x.dtype == object:
            for i, (u, v) in enumerate(zip(x.ravel(), y.ravel())):
                r = same(u, v, f"{path}[{i}]", d + 1)
                if r: return r
            return None
        if x.dtype.kind in "fc":
            if np.array_equal(x, y, equal_nan=True): return None
            f = np.isfinite(x)
            if np.array_equal(f, np.isfinite(y)) and np.array_equal(x[~f], y[~f], equal_nan=True):
                s = np.abs(x[f]).max(initial=0)
                if x.dtype.itemsize // (2 if x.dtype.kind == "c" else 1) <= 4: s *= 1e4
                if np.abs(x[f] - y[f]).max(initial=0) <= max(TOL * s, FLOOR[0]): return None
            return f"{path}: {vh.short(x)} became {vh.short(y)}"
        return None if np.array_equal(x, y) else f"{path}: {vh.short(x)} became {vh.short(y)}"
    if type(a) is not type(b): return f"{path}: {type(a).__name__} became {type(b).__name__}"
    if isinstance(a, (list, tuple)):
        if len(a) != len(b): return f"{path}: length {len(a)} became {len(b)}"
        for i, (u, v) in enumerate(zip(a, b)):
            r = same(u, v, f"{path}[{i}]", d + 1)
            if r: return r
        return None
    if isinstance(a, dict):
        if list(a) != list(b): return f"{path}: keys differ"
        for k in a:
            r = same(a[k], b[k], f"{path}[{k!r}]", d + 1)
            if r: return r
        return None
    if isinstance(a, (str, bytes, bool, type(None))): return None if a == b else f"{path}: {a!r} became {b!r}"
    if mine(a) and hasattr(a, "__dict__"): return same(vars(a), vars(b), path + ".", d + 1)
    return None


def scribble(o, d=0):
    """what a caller may do to a result it received"""
    if d > 4: return
    if isinstance(o, np.ndarray):
        if o.dtype == object: return
        try: o[...] = 0 if o.dtype.kind not in "fc" else np.pi
        except (ValueError, TypeError): pass
    elif isinstance(o, list):
        for x in o: scribble(x, d + 1)
        o.clear()
    elif isinstance(o, tuple):
        for x in o: scribble(x, d + 1)
    elif isinstance(o, dict):
        for x in o.values(): scribble(x, d + 1)
        o.clear()


def freeze(o):
    try: return copy.deepcopy(o)
    except Exception: raise Skip


def perturb(c, v):
    """another plausible, or failing, value for one argument"""
    if isinstance(v, np.ndarray) and v.ndim and v.size and v.dtype.kind in "fiub":
        r = c.pick([0, 1, 2, 3, 3, 3, 4, 5, 6, 6, 6])
        if r == 6: return v.astype(c.pick([np.int32, np.int32, np.int64, np.float32, np.float64, ">f8"]))
        if r == 0: return np.roll(v, 1)
        if r == 1: return v[::-1].copy()
        if r == 2: return v * np.asarray(1.5 if v.dtype.kind == "f" else 1, v.dtype) if v.dtype.kind != "b" else ~v
        if r == 3 and v.ndim > 1 and (v.ndim > 2 or v.shape[-1] > 3): return np.ascontiguousarray(np.moveaxis(v, 0, c.int(1, v.ndim - 1)))
        if r == 4 and not (v.ndim == 2 and v.shape[-1] <= 3): return v[..., :max(v.shape[-1] // 2, 1)].copy()
        return np.sort(v.ravel()).reshape(v.shape)
    if isinstance(v, bool): return not v
    if isinstance(v, int): return c.pick([v + 1, max(v - 1, 0), v * 2])
    if isinstance(v, float): return v * c.uni(.5, 2)
    if isinstance(v, str): return c.pick(["no such option", v.upper()])
    if isinstance(v, dict): return {k: v[k] for k in reversed(v)}
    if isinstance(v, (list, tuple)) and len(v): return type(v)(reversed(v)) if not hasattr(v, "_fields") else v
    return c.pick([v, None, v])


def which(c, a, k, names):
    """the argument to change: most often an array"""
    A = [x for x in names if isinstance(a[x] if isinstance(x, int) else k[x], np.ndarray)]
    return c.pick(A if A and c.coin(.5) else names)


def layout(c, v):
    """the same values, stored differently"""
    if not isinstance(v, np.ndarray) or hasattr(v, "unit") or v.ndim == 0 or v.dtype == object: return v
    r = c.int(0, 2)
    if r == 0: return np.asfortranarray(v)
    if r == 1:
        w = np.empty(tuple(2 * n for n in v.shape), v.dtype)[tuple(slice(None, None, 2) for _ in v.shape)]; w[...] = v; return w
    return np.ascontiguousarray(v[..., ::-1])[..., ::-1]


class Call:
    def __init__(self, fn, a, k, state, rs, pr):
        self.fn, self.a, self.k, self.state, self.rs, self.pr = fn, a, k, state, rs, pr
        self.method = False; self.name = f"{fn.__module__.split('.')[-1]}.{getattr(fn, '__name__', fn)}"

    def run(self, c, a=None, k=None, elsewhere=None):
        restore(self.state)
        if elsewhere: go_elsewhere(*elsewhere)
        np.random.set_state(self.rs); random.setstate(self.pr)
        return vh.quiet(self.fn, *(freeze(self.a) if a is None else a), **(freeze(self.k) if k is None else k))


def elsewhere(c):
    """another cosmology and another box, set as a user sets them"""
    n = c.pick([0, 1, 2, 3, 3]); return tuple(x if n in (i, 3) else None for i, x in enumerate((c.uni(.5, .9), c.uni(.2, .4), c.pick([37, 64, 114, 244]))))


def go_elsewhere(h, om, L):
    if h: t2c.set_hubble_h(h)
    if om: t2c.set_omega_matter(om); t2c.set_omega_lambda(1 - om)
    if L: vh.quiet(conv.set_sim_constants, L)


def arrays(o):
    """the arrays a caller handed over, directly or in a container"""
    if isinstance(o, np.ndarray): return [o]
    if isinstance(o, dict): o = list(o.values())
    if isinstance(o, (list, tuple)): return [y for x in o for y in arrays(x)]
    return []


def tappable(fn): return callable(fn) and not isinstance(fn, types.MethodType) and (getattr(fn, "__module__", "") or "").startswith("tools21cm") and not getattr(fn, "__name__", "").startswith("set_") and fn.__module__ != "tools21cm.test_case"   # (bubble_input)


class Tap(vh.Case):
    """a case of another check whose monitored calls are recorded"""
    def __init__(self, owner, *a):
        super().__init__(*a); self.owner, self.log, self.bad, self.given = owner, [], [], []

    def call(self, fn, *a, **k):
        """arrays handed over earlier in the case (to a constructor, say) belong to the caller as much as those of this call"""
        pre = [vh.digest(x) for x in self.given]
        try: return self.tapped(fn, *a, **k)
        finally:
            if any(vh.digest(x) != y for x, y in zip(self.given, pre)): self.bad.append(f"{getattr(fn, '__qualname__', fn)} modified an array given to an earlier call")
            self.given += [x for x in [*a, *k.values()] if isinstance(x, (np.ndarray, dict)) and not any(x is y for y in self.given)]; del self.given[:-12]

    def untaped(self, fn, *a, **k):
        """a call that cannot be repeated later (it names files of the case, say) leaves its arguments and the session alone all the same"""
        if not (getattr(fn, "__module__", "") or "").startswith("tools21cm") or fn.__module__ == "tools21cm.test_case": return super().call(fn, *a, **k)
        f = f"{fn.__module__.split('.')[-1]}.{getattr(fn, '__qualname__', fn)}"; s = snap(); n = len(self.mutations); self.owner.written.append(f); r = super().call(fn, *a, **k)
        for _, arg in self.mutations[n:]: self.bad.append(f"{f} modified its argument {arg}")
        ch = [] if getattr(fn, "__name__", "").startswith("set_") else changed(s, snap())
        if ch: self.bad.append(f"{f} changed the session: {ch[:4]}")
        return r

    def tapped(self, fn, *a, **k):
        if getattr(fn, "__name__", "") == "averaged_mfp" and k.get("n_jobs") != 1: return self.untaped(fn, *a, **k)   # random rays drawn in worker processes
        if isinstance(fn, types.MethodType) and mine(fn.__self__) and not scratchy(vars(fn.__self__)): return self.method(fn, a, k)
        if not tappable(fn) or scratchy(a) or scratchy(k): return self.untaped(fn, *a, **k)
        try: A, K = copy.deepcopy(a), copy.deepcopy(k)
        except Exception: return self.untaped(fn, *a, **k)
        s, rs, pr = snap(), np.random.get_state(), random.getstate(); n = len(self.mutations)
        r = super().call(fn, *a, **k); e = Call(fn, A, K, s, rs, pr); self.owner.calls += 1
        for f, arg in self.mutations[n:]: self.bad.append(f"{e.name} modified its argument {arg}")
        ch = changed(s, snap())
        if ch: self.bad.append(f"{e.name} changed the session: {ch[:4]}")
        e.result = freeze(r); self.log.append(e); return r

    def method(self, fn, a, k):
        """a method is a function of the state of its object too, and may leave something in it"""
        if scratchy(a) or scratchy(k): return self.untaped(fn, *a, **k)
        try: A, K = copy.deepcopy((fn.__self__, *a)), copy.deepcopy(k)
        except Exception: return self.untaped(fn, *a, **k)
        s, rs, pr = snap(), np.random.get_state(), random.getstate(); n = len(self.mutations); r = super().call(fn, *a, **k); self.owner.calls += 1
        def again(o, *a, **k): return getattr(o, fn.__name__)(*a, **k), o
        again.__name__ = fn.__qualname__; again.__module__ = type(fn.__self__).__module__; e = Call(again, A, K, s, rs, pr); e.method = True; e.meth = fn.__name__
        for f, arg in self.mutations[n:]: self.bad.append(f"{e.name} modified its argument {arg}")
        ch = changed(s, snap())
        if ch: self.bad.append(f"{e.name} changed the session: {ch[:4]}")
        e.result = freeze((r, fn.__self__)); self.log.append(e); return r

    def tmp(self):
        d = os.path.join(SCR, f"tap_{os.getpid()}_{self.prop}_{self.mon}_{self.i}"); os.makedirs(d, exist_ok=True); self.owner.dirs.append(d); return d


class Slow(Exception): pass


def harvest(c, prop, mon, i, limit=25):
    t = Tap(c, prop, mon["name"], i, c.seed + 7919, "quick")
    def late(*_): raise Slow
    old = signal.signal(signal.SIGALRM, late); left = signal.alarm(limit)
    try: mon["fn"](t)
    except Exception: pass    # that check's business; what was recorded up to here still counts
    finally: signal.alarm(0); signal.signal(signal.SIGALRM, old); signal.alarm(max(left, 1))
    for b in t.bad: raise Violation(f"{b} (driven as in {prop}/{mon['name']} case {i})")
    return t.log


def gather(c, k):
    c.dirs = []; c.written = []; logs = []; start = snap()
    for j in range(k):
        # every monitor of every source is visited before any is visited twice
        p, m = POOL[(c.i * k + j) % len(POOL)]
        got = harvest(c, p, m, c.int(0, 10 ** 6)); restore(start)
        if len(got) > 8: got = [got[x] for x in sorted(c.rng.permutation(len(got))[:8])]
        for e in got: e.src = f"{p}/{m['name']}"
        logs += got
    c.params["once"] = sorted(set(c.written)); c.params["functions"] = sorted({e.name for e in logs}); c.params["sources"] = sorted({e.src for e in logs}); c.sig.update(repr([(e.name, vh.digest(e.a), vh.digest(e.k)) for e in logs]).encode())
    return logs, start


def clean(c, start):
    restore(start)
    for d in c.dirs: shutil.rmtree(d, ignore_errors=True)


@monitor("replay", quick=160, thorough=1200, min_obs=1500)
def replay(c):
    logs, start = gather(c, 6)
    try:
        if not logs: raise Skip
        order = [int(x) for x in np.concatenate([c.rng.permutation(len(logs)), c.rng.permutation(len(logs))])]
        perturbed = failed = 0
        for pos, j in enumerate(order):
            e = logs[j]
            if c.coin(.6):   # something else happens in the session first: the same function with other arguments
                a, k = list(freeze(e.a)), dict(freeze(e.k)); names = list(range(len(a))) + list(k); there = elsewhere(c) if c.coin(.35) else None
                for x in [which(c, a, k, names)] if names and not there else []:
                    if isinstance(x, int): a[x] = perturb(c, a[x])
                    else: k[x] = perturb(c, k[x])
                if not there and c.coin(.35):   # arrays of another type
                    t = c.pick([np.int32, np.int64, np.float32, np.float64, bool]); a = [v.astype(t) if type(v) is np.ndarray and v.dtype.kind in "fiub" else v for v in a]; k = {x: v.astype(t) if type(v) is np.ndarray and v.dtype.kind in "fiub" else v for x, v in k.items()}
                perturbed += 1; own = 1 if e.method else 0; A = [o for o in [*a[own:], *k.values()]]; pre = [vh.digest(o) for o in A]
                def late(*_): raise Slow
                old = signal.signal(signal.SIGALRM, late); left = signal.alarm(20)
                try: e.run(c, tuple(a), k, there)
                except Exception: failed += 1
                finally: signal.alarm(0); signal.signal(signal.SIGALRM, old); signal.alarm(max(left, 1))
                ch = [] if there else changed(e.state, snap())
                if ch: raise Violation(f"{e.name} changed the session: {ch[:4]} ({e.src})")
                for o, x in zip(A, pre):
                    if vh.digest(o) != x and e.name not in PAINTS: raise Violation(f"{e.name} modified an argument ({e.src}): {vh.short(o)}")
            try: r = e.run(c)
            except Exception as x: raise Violation(f"{e.name} worked, and raised {type(x).__name__}: {x} when called again with the same arguments ({e.src})")
            w = same(e.result, r); c.obs += 1; c.nontrivial += 1
            if w: raise Violation(f"{e.name} called again with the same arguments after other calls: {w} ({e.src})")
            ch = changed(e.state, snap()); c.true(not ch, f"{e.name} changed the session: {ch[:4]} ({e.src})")
            scribble(r)
        c.params["perturbing"] = [perturbed, failed]
    finally: clean(c, start)


# ---------------------------------------------------------------- a session in which nothing has happened yet
def recv(s):
    n = b""
    while len(n) < 8:
        b = s.recv(8 - len(n))
        if not b: raise EOFError
        n += b
    n = struct.unpack("q", n)[0]; b = bytearray()
    while len(b) < n:
        x = s.recv(min(n - len(b), 1 << 20))
        if not x: raise EOFError
        b += x
    return pickle.loads(b)


def send(s, o): b = cloudpickle.dumps(o); s.sendall(struct.pack("q", len(b)) + b)


def serve(sock, main):
    """a process that imported the package and called nothing; every call it is sent runs in a copy of it of its own"""
    signal.signal(signal.SIGCHLD, signal.SIG_IGN); sock.settimeout(1)
    while True:
        try: k, _ = sock.accept()
        except socket.timeout:
            try: os.kill(main, 0)
            except OSError: os._exit(0)
            continue
        if os.fork(): k.close(); continue
        try:
            os.setpgid(0, 0); signal.signal(signal.SIGCHLD, signal.SIG_DFL); signal.signal(signal.SIGALRM, lambda *_: os.killpg(0, signal.SIGKILL)); signal.alarm(90); k.settimeout(100); fn, meth, a, kw, state, rs, pr, there = recv(k)
            restore(state)
            if there: go_elsewhere(*there)
            np.random.set_state(rs); random.setstate(pr)
            try: r = (True, vh.quiet(getattr(a[0], meth), *a[1:], **kw) if meth else vh.quiet(fn, *a, **kw)); r = (True, (r[1], a[0])) if meth else r
            except Exception as x: r = (False, f"{type(x).__name__}: {x}")
            try: send(k, r)
            except Exception: send(k, None)
        except BaseException: pass
        if "joblib.externals.loky" in sys.modules:
            try: sys.modules["joblib.externals.loky"].get_reusable_executor().shutdown(wait=True, kill_workers=True)
            except BaseException: pass
        os.killpg(0, signal.SIGKILL)


def pristine():
    path = os.path.join(SCR, "pristine"); main = os.getpid(); s = socket.socket(socket.AF_UNIX); s.bind(path); s.listen(64); sys.stdout.flush(); sys.stderr.flush(); pid = os.fork()
    if pid == 0:
        try:
            if os.fork() == 0: os.setsid(); os.dup2(os.open(os.devnull, os.O_RDWR), 1); os.dup2(1, 2); serve(s, main)
        finally: os._exit(0)
    os.waitpid(pid, 0); s.close(); return path


PRISTINE = pristine()


def fresh(e, a, k, there):
    """None when the call cannot be sent or answers too late, else (worked, result or error)"""
    s = socket.socket(socket.AF_UNIX); s.settimeout(60)
    try: s.connect(PRISTINE); send(s, (None if e.method else e.fn, e.meth if e.method else None, a, k, e.state, e.rs, e.pr, there)); return recv(s)
    except Slow: raise
    except Exception: return None
    finally: s.close()


@monitor("fresh_session", quick=80, thorough=600, min_obs=500)
def fresh_session(c):
    """a call gives in a session with a history what it gives in one in which nothing was called before"""
    logs, start = gather(c, 6)
    try:
        if not logs: raise Skip
        unsent = failed = 0
        for j in c.rng.permutation(len(logs)):
            e = logs[int(j)]
            for what in c.pick([["there", "arg"], ["same", "there"], ["arg", "arg"], ["there"]]):
                a, k = list(freeze(e.a)), dict(freeze(e.k)); names = list(range(1 if e.method else 0, len(a))) + list(k); there = elsewhere(c) if what == "there" else None
                if what == "arg":
                    if not names: continue
                    x = which(c, a, k, names)
                    if isinstance(x, int): a[x] = perturb(c, a[x])
                    else: k[x] = perturb(c, k[x])
                a2, k2 = freeze(a), freeze(k)
                def late(*_): raise Slow
                old = signal.signal(signal.SIGALRM, late); left = signal.alarm(20)
                try:
                    try: r = (True, e.run(c, tuple(a), k, there))
                    except Slow: continue
                    except MemoryError: continue
                    except Exception as x: r = (False, f"{type(x).__name__}: {x}"); failed += 1
                    signal.alarm(60)
                    f = fresh(e, tuple(a2), k2, there)
                except Slow: continue
                finally: signal.alarm(0); signal.signal(signal.SIGALRM, old); signal.alarm(max(left, 1))
                if f is None: unsent += 1; continue
                c.obs += 1; c.nontrivial += 1; how = {"there": "in another cosmology", "arg": "with other arguments", "same": "as before"}[what]
                if f[0] != r[0]: raise Violation(f"{e.name} called {how} {'works' if r[0] else 'raises ' + str(r[1])[:200]}, but in a fresh session {'works' if f[0] else 'raises ' + str(f[1])[:200]} ({e.src})")
                w = same(r[1], f[1]) if r[0] else None
                if w and what == "arg":   # (arguments that make no sense may leave parts of a result unset)
                    g = [fresh(e, tuple(freeze(a2)), freeze(k2), there) for _ in range(2)]
                    if any(y is None or not y[0] or same(f[1], y[1]) for y in g): continue
                if w: raise Violation(f"{e.name} called {how}, in this session and in a fresh one: {w} ({e.src})")
        c.params["compared"] = [c.obs, failed, unsent]
    finally: clean(c, start)


@monitor("memory_layout", quick=60, thorough=450, min_obs=200)
def memory_layout(c):
    """equal arrays are equal arguments, however they are stored"""
    global TOL
    logs, start = gather(c, 6); TOL = 1e-6   # sums are taken in another order
    try:
        for e in logs:
            a, k = tuple(layout(c, v) for v in freeze(e.a)), {x: layout(c, v) for x, v in freeze(e.k).items()}
            if not any(isinstance(v, np.ndarray) for v in [*a, *k.values()]): continue
            if e.name.endswith("add_distribution"): continue   # (deviations in units of a spread that may be zero)
            try: r = e.run(c, a, k)
            except Exception as x: raise Violation(f"{e.name} raised {type(x).__name__}: {x} for the same arrays stored in another memory order ({e.src})")
            FLOOR[0] = 1e-14 * min(max([np.nanmax(np.abs(np.asarray(v)), initial=0) for v in arrays([a, k]) if v.dtype.kind in "fiu"] + [0]), 1e6)   # (what is left of a difference of equal numbers)
            w = same(e.result, r); FLOOR[0] = 0.; c.obs += 1; c.nontrivial += 1
            if w: raise Violation(f"{e.name} with the same arrays stored in another memory order: {w} ({e.src})")
        if not c.obs: raise Skip
    finally: clean(c, start); TOL = 1e-10


@monitor("bubble_input", quick=6, thorough=40, min_obs=6)
def bubble_input(c):
    """continuing a bubble model from a given cube"""
    import tools21cm.test_case as T
    n, r = c.int(12, 20), c.int(1, 2); o = np.argwhere(T.ball(r)) - r; a = np.zeros((n, n, n)); a[tuple(((o + c.rng.integers(0, n, 3)) % n).T)] = 1; a0 = a.copy(); c.note(n=n, r=r, a=a); np.random.seed(c.int(0, 10 ** 6))
    b = c.call(T.spherical_bubble_model, n, a.mean() + .1, r=r, cube=a)
    d = a - 2 * a0
    if d.sum() == len(o) and set(np.unique(d)) == {0., 1.} and np.all(b[d > 0] == 1): c.known_finding("bubble-model-paints-input", "spherical_bubble_model paints its first bubble on the given cube")
    c.equal(a, a0, "the given cube")


def finish(recs):
    fn, src, per, fl, once = {}, set(), 0, 0, {}
    for r in recs:
        for f in r["params"].get("functions", []): fn[f] = fn.get(f, 0) + 1
        for f in r["params"].get("once", []): once[f] = once.get(f, 0) + 1
        src |= set(r["params"].get("sources", [])); p = r["params"].get("perturbing", [0, 0]); per += p[0]; fl += p[1]
    return dict(functions_observed=fn, observed_without_repeating=once, harvested_monitors=len(src), perturbing_calls=per, perturbing_calls_that_failed=fl)
