"""Build the real package from /repo's current tree in a scratch directory."""
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile
from concurrent.futures import ThreadPoolExecutor

from . import env


def build(asan=False, only=None):
    d = tempfile.mkdtemp(prefix="sympic_real_")
    src = os.path.join(d, "src")
    shutil.copytree(env.SRC, src, ignore=shutil.ignore_patterns("__pycache__", "*.so", "*.egg-info", "build"))
    inc = subprocess.run(["/opt/venv/bin/python", "-c",
                          "import numpy, mpi4py, sysconfig; print(numpy.get_include()); print(mpi4py.get_include()); print(sysconfig.get_paths()['include']); print(sysconfig.get_config_var('EXT_SUFFIX'))"],
                         capture_output=True, text=True, check=True).stdout.split()
    suffix = inc.pop()
    flags = ["-O1", "-g", "-shared", "-fPIC", "-fopenmp", "-fno-math-errno", "-fno-trapping-math", "-w", "-fwrapv"]
    if asan:
        flags += ["-fsanitize=address", "-fno-omit-frame-pointer"]

    def one(item):
        nm, p = item
        if only and not any(nm.endswith(o) for o in only):
            pass
        cp = os.path.join(src, os.path.relpath(p, env.SRC))
        out = os.path.join(src, nm.replace(".", "/") + suffix)
        cmd = ["mpicc"] + flags + ["-I" + i for i in inc] + [cp, "-o", out, "-lm"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        return r.returncode, r.stderr
    with ThreadPoolExecutor(8) as ex:
        for rc, err in ex.map(one, env.c_extensions().items()):
            if rc:
                shutil.rmtree(d)
                raise RuntimeError("build of the real extensions failed: " + err[-2000:])
    return d


def remove(d):
    if d and os.path.basename(d).startswith("sympic_real_"):
        shutil.rmtree(d, ignore_errors=True)
