"""Monitoring harness: cases, monitored calls, oracles, verdicts.

A check module defines monitors:

    @monitor("name", quick=40, thorough=400, min_obs=10)
    def m(c): ...

`c` is a Case: `c.rng` is the only source of randomness (seeded by VERIF_SEED, property,
monitor and case number), `c.call` runs the code under test as a monitored event (argument
digests before/after, output captured, exceptions turned into violations), and `c.close`,
`c.equal`, `c.true` are the oracle steps.  Every oracle step is counted: a monitor whose
oracle was never reached makes the run inconclusive (exit 2), never "held".
"""
import contextlib, hashlib, io, os, sys, time, traceback, zlib
import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")
MONITORS = []


def monitor(name, quick=20, thorough=200, min_obs=1, once=False):
    def deco(fn):
        MONITORS.append(dict(name=name, fn=fn, quick=1 if once else quick,
                             thorough=1 if once else thorough, min_obs=min_obs))
        return fn
    return deco


class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Skip(Exception):
    """The generated case does not apply (counted, never a verdict)."""


def digest(x):
    h = hashlib.blake2b(digest_size=12)
    _dig(x, h, 0)
    return h.hexdigest()


def _dig(x, h, depth):
    if depth > 6:
        h.update(b"deep"); return
    if isinstance(x, np.ndarray):
        h.update(str((x.shape, str(x.dtype))).encode())
        if x.dtype == object:
            for y in x.ravel():
                _dig(y, h, depth + 1)
        else:
            h.update(np.ascontiguousarray(x).tobytes())
    elif isinstance(x, dict):
        for k in x:
            h.update(repr(k).encode()); _dig(x[k], h, depth + 1)
    elif isinstance(x, (list, tuple)):
        h.update(b"[%d" % len(x))
        for y in x:
            _dig(y, h, depth + 1)
    elif isinstance(x, (int, float, complex, str, bytes, bool, type(None), np.generic)):
        h.update(repr(x).encode())
    elif hasattr(x, "value") and hasattr(x, "unit"):
        _dig(np.asarray(x.value), h, depth + 1); h.update(str(x.unit).encode())
    else:
        h.update(type(x).__name__.encode())


def short(x, n=160):
    if isinstance(x, np.ndarray):
        s = np.array2string(np.asarray(x).ravel()[:6], precision=6, separator=",")
        return f"array{x.shape}:{x.dtype}:{s}"
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def in_repo(tb):
    """True when the innermost relevant frames of a traceback lie in the code under test."""
    root = os.path.join(REPO, "src")
    for fr in traceback.extract_tb(tb):
        if fr.filename.startswith(root):
            return True
    return False


class Case:
    # hook for C20: set to a list to log every monitored call
    call_log = None

    def __init__(self, prop, mon, i, seed, tier):
        self.prop, self.mon, self.i, self.seed, self.tier = prop, mon, i, seed, tier
        self.rng = np.random.default_rng([seed, zlib.crc32(prop.encode()), zlib.crc32(mon.encode()), i])
        self.params = {}
        self.obs = 0            # oracle comparisons made
        self.nontrivial = 0     # ... whose expected value was not identically zero/empty
        self.calls = 0
        self.known = []         # (key, text) known findings seen
        self.sig = hashlib.blake2b(digest_size=8)
        self.thorough = tier == "thorough"
        self.mutations = []

    # ---- generation helpers
    def note(self, **kw):
        for k, v in kw.items():
            self.params[k] = short(v)
            self.sig.update(k.encode()); self.sig.update(digest(v).encode())
        if len(kw) == 1:
            return next(iter(kw.values()))

    def pick(self, seq):
        return seq[int(self.rng.integers(len(seq)))]

    def coin(self, p=0.5):
        return bool(self.rng.random() < p)

    def uni(self, a, b):
        return float(self.rng.uniform(a, b))

    def logu(self, a, b):
        return float(np.exp(self.rng.uniform(np.log(a), np.log(b))))

    def size(self, lo, hi, big, every=40):
        """a length: mostly small, in every so many-th case large"""
        return self.int(hi, big) if self.i % every == every // 2 else self.int(lo, hi)

    def int(self, a, b):
        """inclusive"""
        return int(self.rng.integers(a, b + 1))

    def tmp(self):
        d = os.path.join(os.environ["VH_SCRATCH"], f"case_{os.getpid()}_{self.mon}_{self.i}")
        os.makedirs(d, exist_ok=True)
        return d

    # ---- monitored call
    def call(self, fn, *a, **k):
        self.calls += 1
        pre = [digest(x) for x in a] + [digest(k[x]) for x in sorted(k)]
        out = io.StringIO()
        name = getattr(fn, "__name__", str(fn))
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
                r = fn(*a, **k)
        except (Violation, Skip):
            raise
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, MemoryError)):
                raise
            if isinstance(e, TimeoutError):
                raise
            tb = traceback.format_exc(limit=-4)
            raise Violation(f"{name} raised {type(e).__name__}: {e} on valid input\n{tb}")
        post = [digest(x) for x in a] + [digest(k[x]) for x in sorted(k)]
        names = [f"arg{j}" for j in range(len(a))] + sorted(k)
        for n, x, y in zip(names, pre, post):
            if x != y:
                self.mutations.append((name, n))
        if Case.call_log is not None:
            Case.call_log.append((fn, a, k, r))
        self.stdout = out.getvalue()
        return r

    def raises(self, fn, *a, what="", **k):
        """The call must be rejected with an exception (any)."""
        self.calls += 1
        self.obs += 1; self.nontrivial += 1
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
                r = fn(*a, **k)
        except Exception as e:
            return e
        raise Violation(f"{what or getattr(fn,'__name__',fn)}: accepted, returned {short(r)}; an error was required")

    # ---- oracle steps
    def true(self, cond, what, key=None):
        self.obs += 1; self.nontrivial += 1
        if not bool(cond):
            raise Violation(what, key)

    def equal(self, got, want, what, key=None):
        self.obs += 1
        g, w = np.asarray(got), np.asarray(want)
        if w.size and np.any(w != 0) if w.dtype.kind in "biufc" else w.size:
            self.nontrivial += 1
        if g.shape != w.shape:
            raise Violation(f"{what}: shape {g.shape}, expected {w.shape}", key)
        if g.dtype.kind in "fc" and w.dtype.kind in "biufc":
            ok = np.array_equal(g, w, equal_nan=True)
        else:
            ok = np.array_equal(g, w)
        if not ok:
            raise Violation(f"{what}: got {short(g)}, expected {short(w)}{self._where(g, w)}", key)

    def close(self, got, want, what, rtol=1e-7, atol=None, key=None, mask=None):
        """|got-want| <= rtol*scale elementwise, scale = max|want| unless atol given:
        then |got-want| <= atol + rtol*|want|.  NaN patterns must agree."""
        self.obs += 1
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape:
            raise Violation(f"{what}: shape {g.shape}, expected {w.shape}", key)
        if w.dtype.kind not in "biufc" or g.dtype.kind not in "biufc":
            raise Violation(f"{what}: not numeric: {short(g)}", key)
        g = g.astype(complex if (g.dtype.kind == "c" or w.dtype.kind == "c") else float)
        w = w.astype(g.dtype)
        if mask is not None:
            m = np.broadcast_to(mask, w.shape)
            g, w = g[m], w[m]
        gn, wn = np.isnan(g), np.isnan(w)
        if not np.array_equal(gn, wn):
            raise Violation(f"{what}: NaN pattern differs: got {short(g)}, expected {short(w)} ({int(gn.sum())} vs {int(wn.sum())} NaN)", key)
        g, w = g[~wn], w[~wn]
        if w.size == 0:
            return
        if np.any(w != 0):
            self.nontrivial += 1
        gi, wi = np.isinf(g), np.isinf(w)
        if not (np.array_equal(gi, wi) and np.array_equal(g[gi], w[wi])):
            raise Violation(f"{what}: infinities differ: got {short(g)}, expected {short(w)}", key)
        g, w = g[~wi], w[~wi]
        if w.size == 0:
            return
        tol = (atol + rtol * np.abs(w)) if atol is not None else rtol * max(np.max(np.abs(w)), 1e-300)
        d = np.abs(g - w)
        if np.any(d > tol):
            j = int(np.argmax(d / np.maximum(tol, 1e-300)))
            raise Violation(f"{what}: got {g.flat[j]!r}, expected {w.flat[j]!r} (worst of {w.size}, {int((d>tol).sum())} off)", key)

    def known_finding(self, key, text):
        """The observed misbehaviour is exactly the recorded one."""
        self.obs += 1; self.nontrivial += 1
        raise Violation(text, key)

    @staticmethod
    def _where(g, w):
        try:
            bad = np.argwhere(~(g == w))
            return f" ({len(bad)} differ, first at {tuple(bad[0])}: {g[tuple(bad[0])]!r} != {w[tuple(bad[0])]!r})"
        except Exception:
            return ""


def quiet(fn, *a, **k):
    """Call without monitoring (set-up of a case)."""
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        return fn(*a, **k)
