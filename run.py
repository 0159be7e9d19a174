#!/usr/bin/env python3
"""Runs the check of one property.

    run.py C01                      quick or thorough, by VERIF_TIER
    run.py C01 --tier thorough
    run.py C01 --only name          one sub-check
    run.py --replay FILE            re-executes one recorded case
    run.py --setup                  builds only

Exit 0: held on everything explored.  Exit 1: a line
"VIOLATION property=<id> replay=<path>".  Anything else: an error of the check.
"""

import os
import shutil
import signal
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.dont_write_bytecode = True

import build  # noqa: E402


def main():
    try:
        build.build()
    except Exception as e:
        print(f"ERROR: {e}", file=sys.stderr)
        return 3
    if sys.argv[1:] == ["--setup"]:
        print("built", build.EXT)
        return 0
    scratch = tempfile.mkdtemp(prefix="verif-")
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update(
        PYTHONPATH=os.path.join(HERE, "lib", "boot"),
        PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONWARNINGS="ignore",
        VERIF_EXT=build.EXT,
        VERIF_REPO=build.REPO,
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        GLOG_minloglevel="3",
        MPLBACKEND="Agg",
        MPLCONFIGDIR=os.path.join(scratch, "mpl"),
        TZ="UTC",
        LC_ALL="C.UTF-8",
        TMPDIR=scratch,
        HOME=scratch,
        VERIF_SCRATCH=scratch,
    )
    try:
        p = subprocess.Popen(
            [build.PYTHON, os.path.join(HERE, "lib", "harness.py")] + sys.argv[1:],
            env=env,
            cwd=HERE,
            start_new_session=True,
        )

        def stop(sig, frame):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            shutil.rmtree(scratch, ignore_errors=True)
            os._exit(4)

        signal.signal(signal.SIGTERM, stop)
        signal.signal(signal.SIGINT, stop)
        rc = p.wait()
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return rc if rc in (0, 1) else (rc if 0 < rc < 128 else 5)


if __name__ == "__main__":
    sys.exit(main())
