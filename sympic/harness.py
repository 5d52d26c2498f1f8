"""Check driver: explores every scenario of a property symbolically, replays
counterexamples on the real build, writes evidence."""
import importlib
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


class Scn:
    def __init__(self, name, fn, params=None, nranks=1, jit=False, witness=False, budget=None, max_paths=100000, timeout_ms=60000, tol=1e-7, known=()):
        self.name = name
        self.fn = fn
        self.params = params or {}
        self.nranks = nranks
        self.jit = jit
        self.witness = witness
        self.budget = budget
        self.max_paths = max_paths
        self.timeout_ms = timeout_ms
        self.tol = tol
        self.known = known


def _work(args):
    cid, idx, tier, budget = args
    t0 = time.time()
    out = dict(idx=idx, cex=None, error=None, stats=None, fns={}, sample=None)
    try:
        from . import env, explore, sreal
        mod = importlib.import_module("checks." + cid)
        scn = mod.scenarios(tier)[idx]
        out["name"] = scn.name
        st = explore.Stats()
        wit = []

        def on_path(cx):
            # reachability twin: the obligations of this path were reached under satisfiable constraints
            if st.reach == 0 or (scn.witness and len(wit) < 1):
                if cx.reachable():
                    st.reach += 1
                    if scn.witness and not wit:
                        v = witness_values(cx)
                        if v is not None:
                            wit.append(v)
        deadline = min(t0 + (scn.budget or 1e9), budget)
        cexs = explore.explore(lambda cx: scn.fn(cx, **scn.params), st, max_paths=scn.max_paths,
                               timeout_ms=scn.timeout_ms, deadline=deadline, on_path=on_path, setup=env.reset, max_cex=getattr(mod, "MAX_CEX", 2))
        out["cex"] = [(c.msg, c.values, c.exc) for c in cexs]
        out["witness"] = wit
        for nm, m in env.modules.items():
            for f, k in m.counts.items():
                out["fns"]["%s:%s" % (nm.replace("lambdapic.core.", ""), f)] = k
        out["stats"] = st.__dict__
    except BaseException as e:
        out["error"] = "%s: %s" % (type(e).__name__, e)
        out["trace"] = traceback.format_exc()[-4000:]
        out["maybe"] = getattr(e, "maybe", None)
    out["wall"] = time.time() - t0
    return out


def witness_values(cx):
    """a concrete input of this path, away from the trivial point"""
    import random
    import z3
    if cx.lin is not None:
        r = cx.example()
        if r is not None:
            return r
    rng = random.Random(int(os.environ.get("VERIF_SEED", "1")))
    s = cx.solver
    s.push()
    try:
        names = list(cx.byname.items())
        rng.shuffle(names)
        if not cx.nonlinear:
            for n, i in names[:400]:
                s.push()
                v = z3.Q(rng.randint(-48, 48), 64)
                s.add(cx.z3vars[i] == v)
                if s.check() == z3.unsat:
                    s.pop()
                # keep the frame when satisfiable
        r = s.check()
        if r != z3.sat:
            return None
        m = s.model()
        from .explore import _val
        return dict(reals={n: _val(m.eval(cx.z3vars[i], model_completion=True)) for n, i in cx.byname.items()},
                    choices=dict(cx.choices))
    finally:
        s.reset() if False else None


def known_findings(cid):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k["property"] == cid and k.get("status") == "open"]


class Replayer:
    def __init__(self):
        self.dirs = {}

    def dir(self, asan=False):
        from . import realbuild
        if asan not in self.dirs:
            self.dirs[asan] = realbuild.build(asan)
        return self.dirs[asan]

    def close(self):
        from . import realbuild
        for d in self.dirs.values():
            realbuild.remove(d)

    def run(self, cid, scn, values, tier, asan=False, save=None, timeout=240):
        case = dict(check=cid, scenario=scn.name, values=values, nranks=scn.nranks, jit=scn.jit, tier=tier, tol=scn.tol)
        fd, path = tempfile.mkstemp(prefix="sympic_case_", suffix=".json")
        os.write(fd, json.dumps(case).encode())
        os.close(fd)
        envv = dict(os.environ)
        envv.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="4", MALLOC_PERTURB_="165",
                    SETUPTOOLS_SCM_PRETEND_VERSION="0.15.0")
        envv.pop("NUMBA_DISABLE_JIT", None)
        cmd = [PY, os.path.join(ROOT, "sympic", "replay.py"), self.dir(asan), path]
        if asan:
            lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
            envv.update(LD_PRELOAD=lib, ASAN_OPTIONS="detect_leaks=0:verify_asan_link_order=0", PYTHONMALLOC="malloc")
        if scn.nranks > 1:
            envv.pop("OMPI_MCA_ess_singleton_isolated", None)
            envv["OMPI_MCA_btl_vader_single_copy_mechanism"] = "none"
            envv["OMPI_MCA_rmaps_base_oversubscribe"] = "1"
            envv["OMPI_MCA_mpi_yield_when_idle"] = "1"
            cmd = ["mpirun", "--allow-run-as-root", "--oversubscribe", "-n", str(scn.nranks)] + cmd
        else:
            envv["OMPI_MCA_ess_singleton_isolated"] = "1"
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, env=envv, timeout=timeout, cwd="/tmp", start_new_session=True)
            out, rc, err = r.stdout, r.returncode, r.stderr
        except subprocess.TimeoutExpired as e:
            out, rc, err = (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or ""), "timeout", ""
        finally:
            os.unlink(path)
        for ln in out.splitlines():
            if "REPLAY-RESULT " in ln:
                res = json.loads(ln.split("REPLAY-RESULT ", 1)[1])
                res["rc"] = rc
                res["stderr"] = err[-1500:]
                return res
        return dict(mismatch=None, error=None, failures=[], crash="no result (rc=%s): %s" % (rc, err[-1500:]), rc=rc, n=0, stderr=err[-3000:])


def reproduced(res, msg, exc):
    """does the concrete run on the real build show a violation?"""
    if res.get("mismatch"):
        return None
    if res.get("failures"):
        return "; ".join(res["failures"][:3])
    if res.get("error"):
        return "exception: " + res["error"]
    if res.get("crash"):
        c = res["crash"]
        if "AddressSanitizer" in res.get("stderr", "") or str(res.get("rc")) in ("-11", "-6", "139", "134", "timeout") or "Segmentation" in c or "signal" in c.lower() or "MPI_ERR" in c or "MPI_ABORT" in c:
            return "crash: " + c[:600]
    return None


def main(argv):
    cid = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    for i, a in enumerate(argv):
        if a == "--tier":
            tier = argv[i + 1]
        if a == "--only":
            only = argv[i + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    sys.path.insert(0, ROOT)
    from . import env
    env.install()
    mod = importlib.import_module("checks." + cid)
    env.quiet()
    scns = mod.scenarios(tier)
    total = getattr(mod, "BUDGET", {}).get(tier, 540 if tier == "quick" else 2400)
    idxs = [i for i, s in enumerate(scns) if only is None or only in s.name]
    jobs = [(cid, i, tier, t0 + total) for i in idxs]
    results = []
    errors = []
    nproc = getattr(mod, "NPROC", 8)
    ctxm = mp.get_context("fork")
    early = None
    with ctxm.Pool(min(nproc, max(1, len(jobs))), maxtasksperchild=getattr(mod, "TASKS_PER_CHILD", 8)) as pool:
        it = pool.imap_unordered(_work, jobs, chunksize=1)
        while len(results) < len(jobs):
            left = t0 + total + 60 - time.time()
            try:
                r = it.next(timeout=max(1, left))
            except mp.TimeoutError:
                errors.append("time budget exhausted: %d of %d scenarios finished" % (len(results), len(jobs)))
                pool.terminate()
                break
            results.append(r)
            if os.environ.get("SYMPIC_VERBOSE"):
                print("  %-50s %6.1fs %s" % (r.get("name"), r["wall"], r["error"] or (r["stats"] and {k: (round(v, 1) if isinstance(v, float) else v) for k, v in r["stats"].items()})), flush=True)
            if r["cex"] and len([x for x in results if x["cex"]]) >= 6:
                early = True
                pool.terminate()
                break
    for r in results:
        if r["error"]:
            errors.append("%s: %s" % (r.get("name"), r["error"]))
            if os.environ.get("SYMPIC_VERBOSE"):
                print(r.get("trace"))
    cexs = [(scns[r["idx"]], m, v, x) for r in results if r["cex"] for m, v, x in r["cex"]]
    rep = Replayer()
    known = known_findings(cid)
    violations = []
    unrepro = []
    seen_known = {}
    validated = 0
    witness_runs = []
    try:
        for scn, msg, values, exc in cexs:
            k = match_known(known, scn, msg)
            if k is not None and k["id"] in seen_known:
                continue
            if time.time() - t0 > 800:
                unrepro.append((scn.name, msg, "no time left to replay"))
                break
            rr = rep.run(cid, scn, values, tier)
            why = reproduced(rr, msg, exc)
            if why is None and not rr.get("mismatch"):
                rr2 = rep.run(cid, scn, values, tier, asan=True)
                why = reproduced(rr2, msg, exc)
                rr = rr2 if why else rr
            if why is None and hasattr(mod, "extra_replay"):
                why = mod.extra_replay(rep, scn, msg, values, tier)
            if why is None:
                unrepro.append((scn.name, msg, json.dumps({k2: rr.get(k2) for k2 in ("mismatch", "error", "crash", "n")})[:1500], exc))
                continue
            if k is not None:
                seen_known[k["id"]] = (k, why)
                continue
            violations.append((scn, msg, values, why))
            if len(violations) >= 2:
                break
        # paths the solver could not decide: inputs of that path, run on the real build
        if not violations:
            for r in results:
                for v in r.get("maybe") or []:
                    if violations or time.time() - t0 > 780:
                        break
                    scn = scns[r["idx"]]
                    rr = rep.run(cid, scn, v, tier)
                    why = reproduced(rr, "", None)
                    if why and match_known(known, scn, why) is None:
                        violations.append((scn, "input of a path the solver could not finish", v, why))
        # replay satisfying inputs of explored paths on the real build
        if not cexs:
            wits = [(scns[r["idx"]], w) for r in results if r.get("witness") for w in r["witness"]]
            for scn, w in wits[:getattr(mod, "NWITNESS", 4)]:
                rr = rep.run(cid, scn, w, tier)
                why = reproduced(rr, "", None)
                if why:
                    violations.append((scn, "concrete run of a solver-chosen input on the real build: " + why, w, why))
                elif rr.get("crash") or rr.get("mismatch"):
                    errors.append("witness replay of %s: %s" % (scn.name, rr.get("crash") or rr.get("mismatch")))
                else:
                    validated += 1
                    witness_runs.append(dict(scenario=scn.name, obligations=rr["n"], input=sample(w)))
    except Exception as e:
        errors.append("replay machinery: %s: %s" % (type(e).__name__, e))
        if os.environ.get("SYMPIC_VERBOSE"):
            traceback.print_exc()
    finally:
        rep.close()
    from .explore import Stats
    tot = Stats()
    fns = {}
    for r in results:
        if r["stats"]:
            s = Stats(); s.__dict__.update(r["stats"]); tot.add(s)
        for f, k in r["fns"].items():
            fns[f] = fns.get(f, 0) + k
    if not errors and not cexs and idxs:
        dead = [r["name"] for r in results if r["stats"] and r["stats"]["reach"] == 0 and not getattr(scns[r["idx"]], "may_be_empty", False)]
        if dead:
            errors.append("no satisfiable path reached the obligations (vacuous): " + ", ".join(dead[:5]))
        empty = [r["name"] for r in results if r["stats"] and r["stats"]["obligations"] == 0]
        if empty:
            errors.append("no obligation was evaluated: " + ", ".join(empty[:5]))
    wall = time.time() - t0
    ev = dict(property=cid, tier=tier, seed=seed, level="model_checking",
              coverage=dict(
                  states=tot.paths, transitions=tot.branches + tot.paths,
                  traces_validated_against_impl=validated,
                  samples=(witness_runs[:3] or [dict(scenario=r["name"], paths=r["stats"]["paths"], obligations=r["stats"]["obligations"]) for r in results if r["stats"]][:5]),
                  meaning="states = symbolic paths explored to the end (each covers every value of its symbolic inputs); transitions = symbolic branch decisions plus path ends; traces_validated = solver-chosen inputs re-run on the real build with the same oracle",
                  scenarios=[dict(name=r["name"], paths=r["stats"]["paths"], obligations=r["stats"]["obligations"], queries=r["stats"]["queries"], solver_s=round(r["stats"]["solver_s"], 2), wall_s=round(r["wall"], 2)) for r in sorted(results, key=lambda r: r["idx"]) if r["stats"]],
                  functions_encoded=sorted(list(fns) + list(getattr(mod, "PYFUNCS", []))),
                  bounds=getattr(mod, "BOUNDS", ""), outside=getattr(mod, "OUTSIDE", ""),
                  obligations_discharged=tot.obligations, discharged_by_normal_form=tot.norm, queries=tot.queries,
                  solver="z3 %s" % z3v(), solver_s=round(tot.solver_s, 2), infeasible_paths=tot.infeasible, unknown=tot.unknown,
                  errors=errors, known_findings=[k["id"] for k, _ in seen_known.values()]),
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(wall, 2), violations=len(violations))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", cid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, why in seen_known.values():
        print("KNOWN-FINDING: property=%s %s" % (cid, k["what"]))
    if violations:
        scn, msg, values, why = violations[0]
        rp = os.path.join(ROOT, "evidence", "replay_%s.json" % cid)
        with open(rp, "w") as f:
            json.dump(dict(property=cid, check=cid, scenario=scn.name, message=msg, observed=why, nranks=scn.nranks, jit=scn.jit, tier=tier, values=values,
                           how="/opt/venv/bin/python /verif/run.py %s --replay %s" % (cid, rp)), f, indent=1)
        print("%s: %s" % (scn.name, msg))
        print("observed on the real build: " + why)
        print("VIOLATION property=%s replay=%s" % (cid, rp))
        return 1
    for u in unrepro:
        errors.append("counterexample did not reproduce on the real build: " + " | ".join(str(x) for x in u))
    if errors:
        for e in errors[:20]:
            print("ERROR " + e[:3000])
        return 2
    print("%s held: %d scenarios, %d paths, %d obligations, %d queries, %.1fs solver, %.1fs wall, %d concrete traces validated" % (
        cid, len(results), tot.paths, tot.obligations, tot.queries, tot.solver_s, wall, validated))
    return 0


def match_known(known, scn, msg):
    import re
    for k in known:
        if re.search(k["scenario"], scn.name) and re.search(k["match"], msg):
            return k
    return None


def sample(v):
    r = v["reals"]
    ks = list(r)[:12]
    return dict(reals={k: r[k] for k in ks}, n_reals=len(r), choices=v["choices"])


def z3v():
    import z3
    return z3.get_version_string()


def replay_cmd(cid, path):
    sys.path.insert(0, ROOT)
    from . import env
    case = json.load(open(path))
    sys.path.append(env.Z3PATH)
    rep = Replayer()
    scn = Scn(case["scenario"], None, nranks=case.get("nranks", 1), jit=case.get("jit", False))
    try:
        r = rep.run(cid, scn, case["values"], case.get("tier", "quick"))
    finally:
        rep.close()
    print(json.dumps(r, indent=1))
    return 1 if reproduced(r, "", None) else 0
