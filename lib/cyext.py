"""Builds tools21cm's Cython extension from the current .pyx into the scratch directory."""
import importlib.util, os, subprocess, sys, sysconfig
REPO = os.environ.get("VERIF_REPO", "/repo")


def build(outdir, flags=("-O1",), cython_flags=(), name="ViteBetti_cython"):
    import numpy
    os.makedirs(outdir, exist_ok=True)
    pyx = os.path.join(REPO, "src/tools21cm", name + ".pyx"); cpp = os.path.join(outdir, name + ".cpp")
    so = os.path.join(outdir, name + sysconfig.get_config_var("EXT_SUFFIX"))
    run = lambda *a: subprocess.run(a, check=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env={k: v for k, v in os.environ.items() if k != "LD_PRELOAD"})
    try:
        run(sys.executable, "-m", "cython", "--cplus", "-3", *cython_flags, "--module-name", "tools21cm." + name, pyx, "-o", cpp)
        run("g++", "-shared", "-fPIC", "-w", *flags, "-I" + sysconfig.get_paths()["include"], "-I" + numpy.get_include(), cpp, "-o", so)
    except subprocess.CalledProcessError as e:
        raise RuntimeError("building the extension failed:\n" + e.stdout.decode()[-3000:])
    return so


def load(so, name="ViteBetti_cython"):
    spec = importlib.util.spec_from_file_location("tools21cm." + name, so)
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    return m
