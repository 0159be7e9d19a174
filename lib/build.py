"""Builds the extension modules of /repo's working tree against the shim.

The repository's own CMakeLists.txt are used (see shim/shim.cmake).  The build
folder is incremental and keyed on file contents, not on time stamps."""

import fcntl
import hashlib
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build", "cmake"))
EXT = os.path.join(BUILD, "ext")
PYTHON = "/opt/venv/bin/python"
MODULES = [
    "pybundle", "pydense", "pyfeatures", "pygeo",
    "pygeometry", "pymap", "pyrobust", "pysfm",
]


def _sums():
    out = {}
    for top in (os.path.join(REPO, "opensfm", "src"), os.path.join(VERIF, "shim")):
        for d, dirs, files in os.walk(top):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                if os.path.islink(p):
                    continue
                with open(p, "rb") as fd:
                    out[p] = hashlib.sha256(fd.read()).hexdigest()
    return out


def _freshen():
    """Files whose content changed get a new time stamp, and only these count.

    ninja goes by time stamps, and a file may come with an old one."""
    state = os.path.join(BUILD, ".sums")
    old = {}
    if os.path.exists(state):
        with open(state) as f:
            for line in f:
                h, p = line.rstrip("\n").split("  ", 1)
                old[p] = h
    new = _sums()
    changed = [p for p, h in new.items() if old and old.get(p) != h]
    for p in changed:
        try:
            os.utime(p)
        except OSError:
            pass
    removed = [p for p in old if p not in new]
    return state, new, changed, removed


def build(verbose=False):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        state, new, changed, removed = _freshen()
        env = {
            k: v
            for k, v in os.environ.items()
            if k not in ("CC", "CXX", "CFLAGS", "CXXFLAGS", "LDFLAGS", "PYTHONPATH")
        }
        ninja = os.path.join(BUILD, "build.ninja")

        def run(cmd):
            r = subprocess.run(
                cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True
            )
            if verbose or r.returncode:
                sys.stderr.write(r.stdout[-6000:])
            if r.returncode:
                raise RuntimeError("build failed: " + " ".join(cmd)[:200])

        if not os.path.exists(ninja):
            info = subprocess.run(
                [PYTHON, "-S", "-c",
                 "import sysconfig,sys; print(sysconfig.get_path('include'))"],
                env=env, capture_output=True, text=True, check=True,
            ).stdout.strip()
            numpy_inc = subprocess.run(
                [PYTHON, "-c", "import numpy; print(numpy.get_include())"],
                env=env, capture_output=True, text=True, check=True,
            ).stdout.strip()
            run([
                "cmake", "-G", "Ninja", "-S", os.path.join(REPO, "opensfm", "src"),
                "-B", BUILD,
                "-DCMAKE_BUILD_TYPE=Release",
                "-DCMAKE_CXX_FLAGS_RELEASE=-O2 -DNDEBUG",
                "-DCMAKE_C_FLAGS_RELEASE=-O2 -DNDEBUG",
                "-DOPENSFM_BUILD_TESTS=OFF",
                "-DCMAKE_MAKE_PROGRAM=/usr/bin/ninja",
                "-DCMAKE_C_COMPILER=/usr/bin/gcc",
                "-DCMAKE_CXX_COMPILER=/usr/bin/g++",
                "-DCMAKE_PROJECT_opensfm_INCLUDE=" + os.path.join(VERIF, "shim", "shim.cmake"),
                "-DSHIM_DIR=" + os.path.join(VERIF, "shim"),
                "-DSHIM_PYTHON_INCLUDE=" + info,
                "-DSHIM_NUMPY_INCLUDE=" + numpy_inc,
            ])
        run(["cmake", "--build", BUILD, "--target", "shim_modules", "-j", str(os.cpu_count() or 4)])
        for m in MODULES:
            if not os.path.exists(os.path.join(EXT, m + ".so")):
                raise RuntimeError(f"{m} was not built")
        with open(state + ".new", "w") as f:
            for p, h in sorted(_sums().items()):
                f.write(f"{h}  {p}\n")
        os.replace(state + ".new", state)


if __name__ == "__main__":
    build(verbose=True)
    print("built", EXT)
