"""
Build /repo's compiled extensions from its current sources, outside /repo, and
import arcticpy: the .py files straight from /repo, the extensions from the
fresh build (never whatever stale .so may lie in /repo/arcticpy).
"""
import fcntl
import glob
import hashlib
import importlib.machinery
import importlib.util
import os
import re
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get("PBT_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD_ROOT = os.path.join(VERIF, ".build")
PYTHON = "/opt/venv/bin/python"
VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


class BuildError(Exception):
    pass


def environment(**extra):
    env = dict(os.environ)
    env.update(
        PYTHONPATH=VERIF,
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        MPLBACKEND="Agg",
        MPLCONFIGDIR="/opt/venv/var/mpl",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
    )
    env.update(extra)
    return env


def run_environment(build_dir, flavour):
    """For the processes that run the code under test."""
    env = environment(PBT_BUILD=build_dir)
    if flavour == "asan":
        lib = subprocess.run(
            ["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE, text=True
        ).stdout.strip()
        env.update(
            LD_PRELOAD=os.path.realpath(lib),
            ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1",
            PYTHONMALLOC="malloc",
        )
    return env


def _inputs():
    names = ["setup.py", "README.md", "requirements.txt"]
    pkg = os.path.join(REPO, "arcticpy")
    for root, dirs, files in os.walk(pkg):
        dirs[:] = sorted(d for d in dirs if d != "__pycache__")
        for f in sorted(files):
            if f.endswith((".pyx", ".pxd", ".pxi", ".h")):
                names.append(os.path.relpath(os.path.join(root, f), REPO))
            # C sources that are not the output of cython
            if f.endswith(".c") and not os.path.exists(
                os.path.join(root, f[:-2] + ".pyx")
            ):
                names.append(os.path.relpath(os.path.join(root, f), REPO))
    return [n for n in names if os.path.exists(os.path.join(REPO, n))]


def with_checks(text):
    """The source with cython's checks of array bounds switched on again."""
    return re.sub(
        r"(boundscheck['\"]?\s*[(=:]\s*)False", r"\1True", text.decode("utf-8", "surrogateescape")
    ).encode("utf-8", "surrogateescape")


def build(flavour="plain"):
    """Return the directory that holds the built extensions."""
    cflags = {
        "plain": "-O1",
        "asan": "-O1 -g -DPBT_BOUNDS -fsanitize=address -fno-omit-frame-pointer",
    }[flavour]
    h = hashlib.sha256((flavour + cflags).encode())
    names = _inputs()
    for n in names:
        with open(os.path.join(REPO, n), "rb") as f:
            h.update(n.encode() + b"\0" + f.read() + b"\0")
    out = os.path.join(BUILD_ROOT, flavour + "-" + h.hexdigest()[:24])
    os.makedirs(BUILD_ROOT, exist_ok=True)
    with open(os.path.join(BUILD_ROOT, "lock-" + flavour), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, "ok")):
            return out
        # Drop builds of other versions of the sources
        old = sorted(
            glob.glob(os.path.join(BUILD_ROOT, flavour + "-*")), key=os.path.getmtime
        )
        for d in old[:-6]:
            shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        work = tempfile.mkdtemp(prefix="pbt-build-")
        try:
            for n in names + ["arcticpy/__init__.py"]:
                dst = os.path.join(work, n)
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                shutil.copyfile(os.path.join(REPO, n), dst)
                if flavour == "asan" and n.endswith((".pyx", ".pxd", ".pxi", "setup.py")):
                    with open(dst, "rb") as f:
                        text = with_checks(f.read())
                    with open(dst, "wb") as f:
                        f.write(text)
            env = environment(CFLAGS=cflags, PYTHONPATH=work)
            if flavour == "asan":
                env["LDFLAGS"] = "-fsanitize=address"
            p = subprocess.run(
                [PYTHON, "setup.py", "build_ext", "--inplace", "-j", "2"],
                cwd=work,
                env=env,
                stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT,
                text=True,
                timeout=600,
            )
            if p.returncode != 0:
                raise BuildError("extension build failed:\n" + p.stdout[-4000:])
            os.makedirs(out)
            libs = glob.glob(os.path.join(work, "arcticpy", "**", "*.so"), recursive=True)
            if not libs:
                raise BuildError("no extension was built:\n" + p.stdout[-4000:])
            for lib in libs:
                rel = os.path.relpath(lib, work)
                os.makedirs(os.path.dirname(os.path.join(out, rel)), exist_ok=True)
                shutil.copyfile(lib, os.path.join(out, rel))
            open(os.path.join(out, "ok"), "w").close()
        finally:
            shutil.rmtree(work, ignore_errors=True)
    return out


class _Finder:
    """Serve arcticpy's compiled modules from the fresh build only."""

    def __init__(self, build_dir):
        self.libs = {}
        for lib in glob.glob(os.path.join(build_dir, "**", "*.so"), recursive=True):
            rel = os.path.relpath(lib, build_dir)
            parts = rel.split(os.sep)
            parts[-1] = parts[-1].split(".")[0]
            self.libs[".".join(parts)] = lib

    def find_spec(self, name, path=None, target=None):
        lib = self.libs.get(name)
        if lib is None:
            return None
        loader = importlib.machinery.ExtensionFileLoader(name, lib)
        return importlib.util.spec_from_file_location(name, lib, loader=loader)


_ac = None


def load(build_dir=None, flavour="plain"):
    """Import arcticpy (once per process)."""
    global _ac
    if _ac is None:
        build_dir = build_dir or os.environ.get("PBT_BUILD") or build(flavour)
        sys.dont_write_bytecode = True
        sys.meta_path.insert(0, _Finder(build_dir))
        sys.path[:] = [REPO] + [p for p in sys.path if p != REPO]
        import warnings

        warnings.filterwarnings("ignore")
        import arcticpy

        assert arcticpy.__file__.startswith(os.path.realpath(REPO) + "/") or (
            arcticpy.__file__.startswith(REPO + "/")
        ), arcticpy.__file__
        _ac = arcticpy
    return _ac


def add_hypothesis():
    if VT_SITE not in sys.path:
        sys.path.append(VT_SITE)
