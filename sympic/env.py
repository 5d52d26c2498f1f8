"""Set up the process for a symbolic run of lambdapic: numba off, the C
extension modules replaced by their lowered form, mpi4py replaced by the
virtual communicator."""
import glob
import importlib.machinery
import os
import re
import sys
import threading
import types

REPO = os.environ.get("SYMPIC_REPO", "/repo")
SRC = os.path.join(REPO, "src")
Z3PATH = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

modules = {}          # dotted name -> rt.Module
rank_tls = threading.local()
sources_used = set()
_paths = {}


def instance(name):
    """the process image of extension `name` for the running rank"""
    from . import rt
    m = modules.get(name)
    if m is None:
        m = modules[name] = rt.Module(_paths[name], name)
    insts = rank_tls.__dict__.setdefault("insts", {})
    i = insts.get(name)
    if i is None or i.module is not m:
        i = insts[name] = rt.Instance(m, rank_tls.__dict__.get("rank", 0))
    return i


def reset():
    """forget all process images (fresh globals)"""
    rank_tls.__dict__["insts"] = {}


class CFunc:
    def __init__(self, mod, name, cname):
        self.mod = mod
        self.__name__ = name
        self.cname = cname

    def __call__(self, *args):
        return instance(self.mod).call(self.cname, *args)

    def __repr__(self):
        return "<lowered C function %s.%s>" % (self.mod, self.__name__)


class CModule(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith("__") and k.endswith("__"):
            raise AttributeError(k)
        from . import rt
        name = self.__dict__["__name__"]
        m = modules.get(name)
        if m is None:
            m = modules[name] = rt.Module(_paths[name], name)
        meths = m.methods()
        if k not in meths:
            raise AttributeError("module %r has no attribute %r" % (name, k))
        f = CFunc(name, k, meths[k])
        setattr(self, k, f)
        return f


def c_extensions():
    """dotted module name -> C source, read from setup.py"""
    out = {}
    s = open(os.path.join(REPO, "setup.py")).read()
    for nm, src in re.findall(r'name\s*=\s*"([\w.]+)"\s*,\s*sources\s*=\s*\[\s*"([^"]+)"', s):
        out[nm] = os.path.join(REPO, src)
    for p in glob.glob(os.path.join(SRC, "lambdapic/**/*.c"), recursive=True):
        nm = os.path.relpath(p, SRC)[:-2].replace("/", ".")
        out.setdefault(nm, p)
    return out


def patch_math():
    """math functions accept symbolic reals (numba is off, so lambdapic's kernels run as Python)"""
    import math
    from .sreal import R

    def wrap(name, f):
        orig = getattr(math, name)

        def g(*a):
            if any(isinstance(x, R) for x in a):
                return f(*[x if isinstance(x, R) else R.const(x) if x == x and abs(x) != math.inf else x for x in a])
            return orig(*a)
        g.__name__ = name
        setattr(math, name, g)
    for nm in ("sqrt", "exp", "log", "log10", "sin", "cos"):
        wrap(nm, lambda x, nm=nm: getattr(x, nm)())
    wrap("floor", lambda x: x.__floor__())
    wrap("ceil", lambda x: x.__ceil__())
    wrap("trunc", lambda x: x.__trunc__())
    wrap("fabs", abs)
    wrap("isnan", lambda x: False)
    wrap("isinf", lambda x: False)
    wrap("isfinite", lambda x: True)
    wrap("pow", lambda x, y: x ** y)


def install(jit=False):
    os.environ["NUMBA_DISABLE_JIT"] = "0" if jit else "1"
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ["LOGURU_LEVEL"] = "ERROR"
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    sys.dont_write_bytecode = True
    if Z3PATH not in sys.path:
        sys.path.append(Z3PATH)
    patch_math()
    # only /repo's tree provides lambdapic
    sys.path.insert(0, SRC)
    from . import vm
    mp = types.ModuleType("mpi4py")
    mp.__path__ = []
    mpi = types.ModuleType("mpi4py.MPI")
    for k in dir(vm.MPI):
        if not k.startswith("__"):
            setattr(mpi, k, getattr(vm.MPI, k))
    mp.MPI = mpi
    mp.get_include = lambda: ""
    mp.rc = types.SimpleNamespace()
    sys.modules["mpi4py"] = mp
    sys.modules["mpi4py.MPI"] = mpi
    for nm, p in c_extensions().items():
        _paths[nm] = p
        m = CModule(nm)
        m.__file__ = p
        m.__spec__ = importlib.machinery.ModuleSpec(nm, None)
        sys.modules[nm] = m
    try:
        from loguru import logger
        logger.remove()
    except Exception:
        pass


def quiet():
    try:
        from loguru import logger
        logger.remove()
    except Exception:
        pass
