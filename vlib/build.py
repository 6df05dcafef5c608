"""A private copy of the package under test.

Every check works on a copy of /repo/src/pykrige made in a scratch directory.
The compiled modules are taken from /repo when the build stamps say that they
belong to the present sources, and are compiled anew otherwise.
"""
import atexit
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(REPO, "src", "pykrige")
PY = "/opt/venv/bin/python"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

_scratch = None


class Machinery(Exception):
    """The check itself could not do its work."""


class CompileFailure(Machinery):
    pass


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="pkverif-")
        pid = os.getpid()

        def clean():
            if os.getpid() == pid:
                shutil.rmtree(_scratch, ignore_errors=True)

        atexit.register(clean)
    return _scratch


def env():
    e = dict(os.environ)
    e.update(
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        MPLBACKEND="Agg",
        OPENBLAS_NUM_THREADS="1",
        OMP_NUM_THREADS="1",
        LANG="C.UTF-8",
        HOME=scratch(),
    )
    e["PYTHONPATH"] = os.path.join(scratch(), "pkg") + os.pathsep + VERIF
    return e


def _version():
    out = subprocess.run([PY, "-c", "import sys;sys.stdout.write(sys.version)"], capture_output=True, text=True)
    return out.stdout


def _digest(pyx, version):
    h = hashlib.sha256(version.encode())
    shared = glob.glob(PKG + "/**/*.px[di]", recursive=True)
    for path in [pyx, *sorted(shared)] + [os.path.join(REPO, f) for f in ("setup.py", "setup.cfg", "pyproject.toml")]:
        h.update(path.encode() + b"\0")
        if os.path.exists(path):
            with open(path, "rb") as f:
                h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def _compile(dst, mods):
    """Compile the Cython modules inside the scratch copy."""
    work = os.path.join(scratch(), "cy")
    os.makedirs(work, exist_ok=True)
    script = f"""
import sys, os, numpy as np
from Cython.Build import cythonize
from setuptools import Extension, setup
os.chdir({os.path.dirname(dst)!r})
ext=[Extension("pykrige."+m.replace("/","."),["pykrige/"+m+".pyx"],include_dirs=[np.get_include()],
     define_macros=[("NPY_NO_DEPRECATED_API","NPY_1_7_API_VERSION")],extra_compile_args=["-O1","-g0"]) for m in {mods!r}]
setup(name="x",script_args=["-q","build_ext","--inplace","--parallel","2","--build-temp",{work!r}],ext_modules=cythonize(ext,nthreads=2,quiet=True))
"""
    r = subprocess.run([PY, "-c", script], capture_output=True, text=True, env=dict(env(), PYTHONPATH=""), cwd=work)
    if r.returncode:
        raise CompileFailure("the extensions do not compile:\n" + r.stdout[-2000:] + r.stderr[-3000:])


def prepare():
    """Make the copy; returns a description."""
    top = os.path.join(scratch(), "pkg")
    if os.path.isdir(top):
        return "ready"
    dst = os.path.join(top, "pykrige")
    shutil.copytree(PKG, dst, ignore=shutil.ignore_patterns("__pycache__", "*.so", "*.c", "*.cpp", "*.pyc"))
    version = _version()
    mods = [os.path.relpath(p, PKG)[:-4] for p in glob.glob(PKG + "/**/*.pyx", recursive=True)]
    stale = []
    for m in sorted(mods):
        stamp = os.path.join(REPO, "build", "vp-stamps", m.replace("/", "."))
        so = glob.glob(os.path.join(PKG, m) + ".*.so")
        fresh = so and os.path.exists(stamp) and open(stamp).read() == _digest(os.path.join(PKG, m + ".pyx"), version)
        if fresh:
            shutil.copy(so[0], os.path.join(dst, os.path.dirname(m)))
        else:
            stale.append(m)
    if stale:
        _compile(dst, sorted(mods))
    return "compiled " + ",".join(stale) if stale else "copied"
