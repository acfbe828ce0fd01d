"""C13: the compiled topology extension under AddressSanitizer and UBSan, on exact-size buffers and poisoned
allocations, with its output compared cell by cell to an independent construction of the cubical complex."""
import glob, json, os, subprocess, sys
import numpy as np
from vh import monitor, Skip, Violation
import cyext
from itertools import product

SCR = os.environ["VH_SCRATCH"]
LIB = lambda n: subprocess.check_output(["gcc", "-print-file-name=" + n]).decode().strip()
SAN = cyext.build(os.path.join(SCR, "san"), ("-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"))
SAN2 = cyext.build(os.path.join(SCR, "san2"), ("-O2", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"), ("-X", "boundscheck=False"))
PLAIN = cyext.build(os.path.join(SCR, "plain"), ("-O2", "-D_GLIBCXX_ASSERTIONS"))
ENV = dict(LD_PRELOAD=LIB("libasan.so") + " " + LIB("libubsan.so"), PYTHONMALLOC="malloc",
           ASAN_OPTIONS="detect_leaks=0:max_malloc_fill_size=1000000:malloc_fill_byte=190:abort_on_error=0:redzone=256:exitcode=77", UBSAN_OPTIONS="print_stacktrace=0:exitcode=77")

DRIVER = r'''
import sys, json, numpy as np
sys.path.insert(0, sys.argv[1]); import cyext
m = cyext.load(sys.argv[2]); d = np.load(sys.argv[3], allow_pickle=True); out = {}
def view(a, k):
    if k == "F": return np.asfortranarray(a)
    if k == "neg": return np.ascontiguousarray(a[::-1, ::-1, ::-1])[::-1, ::-1, ::-1]
    if k == "strided":
        g = np.full(tuple(2*s+1 for s in a.shape), 7, a.dtype); v = g[1::2, 1::2, 1::2][:a.shape[0], :a.shape[1], :a.shape[2]]; v[...] = a; return v
    if k == "T": return np.ascontiguousarray(a.transpose(2, 0, 1)).transpose(1, 2, 0)
    if k == "bcast": return np.broadcast_to(a[:1], a.shape)
    return a
for n in sorted(x for x in d.files if x[0] == "a"):
    a = view(d[n], str(d["k" + n[1:]])); b = a.copy(); mm = bool(d["m" + n[1:]])
    print("RUN", n, a.shape, flush=True)
    r = m.CubeMap(a, mm) if mm is False or int(n[1:]) % 2 else m.CubeMap(a)
    assert np.array_equal(a, b), "input modified"
    out[n] = np.array(r)
for bad in d["bad"]:
    x = {"2d": np.zeros((3, 3), np.int32), "i8": np.zeros((3, 3, 3), np.int64), "f8": np.zeros((2, 2, 2)), "4d": np.zeros((2, 2, 2, 2), np.int32), "list": [[[1]]], "none": None, "bool": np.zeros((2, 2, 2), bool)}[str(bad)]
    try: m.CubeMap(x); out["ok_" + str(bad)] = 1
    except (ValueError, TypeError, AttributeError) as e: out["rej_" + str(bad)] = 1
np.savez(sys.argv[4], **out); print("DONE", flush=True)
'''


def ref_map(m):
    m = m.astype(bool); out = np.zeros(tuple(2 * s for s in m.shape), np.int32)
    for o in product((0, 1), repeat=3):
        a = m
        for ax, x in enumerate(o):
            if x: a = a & np.roll(a, -1, ax)
        out[o[0]::2, o[1]::2, o[2]::2] = np.where(a, 1 + sum(o), 0)
    return out


def shapes(c):
    k = c.pick(["tiny", "tiny", "rand", "thin", "zero", "long"])
    if k == "tiny": return tuple(c.int(1, 3) for _ in range(3))
    if k == "zero": return tuple(c.pick([0, 1, 3]) for _ in range(3))
    if k == "thin": s = [c.int(1, 9) for _ in range(3)]; s[c.int(0, 2)] = 1; return tuple(s)
    if k == "long": s = [c.int(1, 3) for _ in range(3)]; s[c.int(0, 2)] = c.pick([c.int(50, 300), c.int(50, 300), c.int(50, 300), c.int(17000, 70000)]); return tuple(s)
    return tuple(c.int(2, 12) for _ in range(3))


def values(c, sh):
    x = (c.rng.random(sh) < c.pick([0, .2, .5, .8, .95, 1])).astype(np.int32)
    if c.coin(.3): x = x * c.rng.integers(-2 ** 31, 2 ** 31 - 1, sh).astype(np.int32)
    return x


def drive(c, so, env, n, timeout=120):
    arr, save = {}, {}
    for i in range(n):
        a = values(c, shapes(c)); k = c.pick(["C", "F", "neg", "strided", "T", "C", "bcast" if a.size else "C"]); mm = c.coin(.85)
        if k == "bcast": a = np.broadcast_to(a[:1], a.shape)
        arr[i] = (a, k, mm); save[f"a{i:03d}"] = a; save[f"k{i:03d}"] = k; save[f"m{i:03d}"] = mm
    bad = [b for b in ("2d", "i8", "f8", "4d", "list", "bool") if c.coin(.5)]; save["bad"] = np.array(bad, dtype="U8")
    d = c.tmp(); np.savez(d + "/in.npz", **save); open(d + "/drv.py", "w").write(DRIVER)
    e = {k: v for k, v in os.environ.items() if k != "LD_PRELOAD"}; e.update(env); c.note(n=n, h=np.concatenate([a.ravel() for a, _, _ in arr.values()]))
    c.calls += n
    p = subprocess.run([sys.executable, d + "/drv.py", os.path.dirname(cyext.__file__), so, d + "/in.npz", d + "/out.npz"], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True)
    last = ([l for l in p.stdout.splitlines() if l.startswith("RUN")] or ["none"])[-1]
    rep = [l for l in p.stderr.splitlines() if "ERROR: AddressSanitizer" in l or "runtime error" in l or "SUMMARY" in l]
    if rep or p.returncode: raise Violation(f"memory/undefined-behaviour error or exception at {last}: {' | '.join(rep[:3]) or p.stderr[-600:]} (exit {p.returncode})")
    c.true("DONE" in p.stdout, "driver finished")
    out = np.load(d + "/out.npz")
    for i, (a, k, mm) in arr.items():
        w = ref_map(a != 0)
        if mm: c.equal(out[f"a{i:03d}"], w, f"cube map of {a.shape} ({k})")
        else:
            g = out[f"a{i:03d}"]; c.true(g.shape == w.shape and set(np.unique(g)) <= {0, 1}, "single-marker map holds 0 and 1"); c.true(np.all(g[w > 0] == 1), "single-marker map covers the complex")
    for b in bad: c.true("rej_" + b in out.files, f"an unsupported array ({b}) is rejected")


@monitor("sanitized", quick=16, thorough=300, min_obs=200)
def sanitized(c):
    drive(c, SAN, ENV, 60)


@monitor("unchecked", quick=16, thorough=300, min_obs=200)
def unchecked(c):
    """Same source with the compiler's bounds checks switched off: no index may lie outside its array (negative ones count from the end, as the source asks)."""
    drive(c, SAN2, ENV, 60)


@monitor("release", quick=16, thorough=300, min_obs=200)
def release(c):
    drive(c, PLAIN, dict(MALLOC_PERTURB_="165"), 120)
