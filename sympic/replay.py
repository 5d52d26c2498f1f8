"""Run one scenario on the real build with concrete values.
usage: replay.py BUILD_DIR CASE.json   (under mpirun when the case needs ranks)"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    build, case = sys.argv[1], json.load(open(sys.argv[2]))
    os.environ["LOGURU_LEVEL"] = "ERROR"
    sys.dont_write_bytecode = True
    if not case.get("jit"):
        os.environ["NUMBA_DISABLE_JIT"] = "1"
    sys.path.insert(0, os.path.dirname(HERE))
    sys.path.insert(0, os.path.join(build, "src"))
    try:
        from loguru import logger
        logger.remove()
    except Exception:
        pass
    n = case.get("nranks", 1)
    comm = None
    if n > 1:
        from mpi4py import MPI
        comm = MPI.COMM_WORLD
    import importlib
    from sympic.conc import ConcCtx, ReplayMismatch
    os.environ["SYMPIC_REAL"] = build
    mod = importlib.import_module("checks." + case["check"])
    import lambdapic
    assert os.path.realpath(lambdapic.__file__).startswith(os.path.realpath(build)), lambdapic.__file__
    scn = next(s for s in mod.scenarios(case.get("tier", "quick")) + list(getattr(mod, "EXTRA", [])) if s.name == case["scenario"])
    cx = ConcCtx(case["values"], comm, tol=case.get("tol", 1e-7))
    res = {"mismatch": None, "error": None}
    try:
        scn.fn(cx, **scn.params)
    except ReplayMismatch as e:
        res["mismatch"] = str(e)
    except Exception as e:
        import traceback
        res["error"] = "%s: %s" % (type(e).__name__, e)
        res["trace"] = traceback.format_exc()[-3000:]
    if comm is None or comm.Get_rank() == 0:
        res["failures"] = cx.failures[:20]
        res["n"] = cx.n
        print("\nREPLAY-RESULT " + json.dumps(res))
        sys.stdout.flush()
    if comm is not None and res["error"]:
        os._exit(3)


if __name__ == "__main__":
    main()
