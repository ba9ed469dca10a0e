"""Runs one property check: symbolic exploration of all cases, replay of
counterexamples on the real code, validation of sampled paths, evidence."""
import importlib
import json
import multiprocessing as mp
import os
import pickle
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = sys.executable
NPROC = int(os.environ.get("VERIF_JOBS", "8"))

MPI_ENV = dict(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
               OMPI_MCA_btl="self,vader", OMPI_MCA_plm="isolated",
               OMPI_MCA_mpi_yield_when_idle="1", OMPI_MCA_hwloc_base_binding_policy="none",
               OMPI_MCA_btl_vader_single_copy_mechanism="none",
               PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               HDF5_USE_FILE_LOCKING="FALSE")


# ------------------------------------------------------------ symbolic part
def _worker(prop, cls, case, deadline, path, max_paths):
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    sys.setrecursionlimit(20000)
    import threading
    threading.stack_size(64 << 20)
    mod = importlib.import_module("vsym.props." + prop)
    from . import harness

    def finish(res):
        res["cls"] = cls
        res["cased"] = case
        with open(path + ".tmp", "wb") as f:
            pickle.dump(res, f)
        os.rename(path + ".tmp", path)
        os._exit(0)
    try:
        res = harness.run_case(getattr(mod, cls), case, deadline, max_paths,
                               nsamples=case.get("nsamples", 2), finish=finish)
    except BaseException as e:      # noqa
        import traceback
        res = dict(case=case.get("name"), status="error", msg=traceback.format_exc()[-1500:],
                   values=None, samples=[], stats={}, witness=0, notes=[], funcs=[], cover={}, wall=0)
    finish(res)


def run_cases(prop, cases, deadline, workdir, verbose=False, stop_on_found=3):
    """cases: list of (cls, case).  Runs them over NPROC processes."""
    order = sorted(range(len(cases)), key=lambda i: -cases[i][1].get("w", 1))
    pend = list(order)
    running = {}
    results = [None] * len(cases)
    nfound = 0
    while pend or running:
        while pend and len(running) < NPROC and time.time() < deadline and nfound < stop_on_found:
            i = pend.pop(0)
            cls, case = cases[i]
            path = os.path.join(workdir, "case%d.pkl" % i)
            dl = deadline
            if case.get("limit"):
                dl = min(deadline, time.time() + case["limit"])
            p = mp.Process(target=_worker, args=(prop, cls, case, dl, path, case.get("max_paths")))
            p.start()
            running[i] = (p, path, dl)
        if pend and (time.time() >= deadline or nfound >= stop_on_found):
            for i in pend:
                results[i] = dict(case=cases[i][1].get("name"), status="notrun",
                                  msg="time limit" if time.time() >= deadline else "held back",
                                  values=None, samples=[], stats={}, witness=0, notes=[], funcs=[],
                                  cover={}, wall=0, cls=cases[i][0], cased=cases[i][1])
            pend = []
        for i in list(running):
            p, path, dl = running[i]
            if not p.is_alive() or os.path.exists(path) or time.time() > dl + 20:
                if not p.is_alive():
                    p.join()
                ok = os.path.exists(path)
                if not ok and p.is_alive():
                    p.kill()
                    p.join()
                if ok:
                    p.join(5)
                    with open(path, "rb") as f:
                        results[i] = pickle.load(f)
                else:
                    results[i] = dict(case=cases[i][1].get("name"), status="incomplete",
                                      msg="worker ended (%s)" % p.exitcode, values=None, samples=[], stats={},
                                      witness=0, notes=[], funcs=[], cover={}, wall=0,
                                      cls=cases[i][0], cased=cases[i][1])
                if results[i]["status"] == "found":
                    nfound += 1
                if verbose:
                    r = results[i]
                    print("  %-60s %-12s paths=%-6s dec=%-6s q=%-6s sol=%.1fs wall=%.1fs %s" % (
                        r["case"], r["status"], r["stats"].get("paths"), r["stats"].get("decisions"),
                        r["stats"].get("queries"), r["stats"].get("solver_s", 0), r["wall"],
                        (r["msg"] or "")[-1200:]), flush=True)
                del running[i]
        time.sleep(0.02)
    return results


# ------------------------------------------------------------ real part
def real_run(prop, instances, workdir, timeout, strict=False, perturb="165"):
    """instances: list of (cls, case, values), all with the same P / mpi flag.
    Returns a list of outcomes like fakempi.World.run's."""
    mod = importlib.import_module("vsym.props." + prop)
    cls0, case0, _ = instances[0]
    h0 = getattr(mod, cls0)(case0)
    P = h0.P
    W = h0.world_size()
    out = tempfile.mkdtemp(prefix="real", dir=workdir)
    job = dict(prop=prop, mpi=bool(h0.mpi), strict_send=strict, outdir=out,
               instances=[dict(cls=c, case=k, values=v) for c, k, v in instances])
    jf = os.path.join(out, "job.pkl")
    with open(jf, "wb") as f:
        pickle.dump(job, f)
    env = dict(os.environ)
    env.update(MPI_ENV)
    env["MALLOC_PERTURB_"] = perturb
    env["TMPDIR"] = out
    cmd = [PY, os.path.join(VERIF, "vsym", "realrun.py"), jf]
    if h0.mpi and W > 1:
        cmd = ["mpirun", "--oversubscribe", "-np", str(W)] + cmd
    log = open(os.path.join(out, "log"), "wb")
    p = subprocess.Popen(cmd, env=env, stdout=log, stderr=log, stdin=subprocess.DEVNULL,
                         start_new_session=True, cwd=out)
    timed_out = False
    t0 = time.time()
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        timed_out = True
        try:
            os.killpg(p.pid, signal.SIGTERM)
            p.wait(5)
        except (subprocess.TimeoutExpired, ProcessLookupError):
            pass
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    log.close()
    res = []
    broken = False
    for i in range(len(instances)):
        got = {}
        for r in range(P):
            f = os.path.join(out, "%d.%d.pkl" % (i, r))
            if os.path.exists(f):
                with open(f, "rb") as fh:
                    got[r] = pickle.load(fh)
        exc = [(r, g) for r, g in sorted(got.items()) if g[0] == "exc"]
        if broken:
            res.append(("skipped",))
        elif exc:
            r, g = exc[0]
            res.append(("exc", r, type(g[1], (Exception,), {})(g[2] + " | " + g[3][-400:])))
            broken = W > 1
        elif len(got) == P:
            res.append(("ok", [got[r][1] for r in range(P)]))
        elif timed_out:
            res.append(("deadlock", "no result within %d s (ranks finished: %s)" % (timeout, sorted(got))))
            broken = True
        else:
            with open(os.path.join(out, "log"), "rb") as fh:
                tail = fh.read()[-800:].decode("utf8", "replace")
            res.append(("exc", 0, type("Crash", (Exception,), {})("process ended with %s: %s" % (p.returncode, tail))))
            broken = True
    shutil.rmtree(out, ignore_errors=True)
    return res


def real_verdict(prop, cls, case, values, o):
    """None if the oracle accepts outcome o, else a message."""
    from . import harness
    mod = importlib.import_module("vsym.props." + prop)
    h = getattr(mod, cls)(case)
    inp = h.inputs(harness.RealVars(values))
    try:
        h.on_outcome(harness.Chk(None), inp, o)
    except harness.RealFail as e:
        return str(e)
    return None


def virtual_run(prop, cls, case, values):
    """Replay for cases whose arrays are too large for this machine: the real
    source runs on concrete values over lazily sized arrays."""
    from . import harness, core
    mod = importlib.import_module("vsym.props." + prop)
    h = getattr(mod, cls)(case)
    e = core.Engine()
    core.set_engine(e)
    for n, v in values.items():
        if isinstance(v, bool):
            t = e.new_var(n, "bool")
            e.solver.add(t == v)
        elif isinstance(v, int):
            t = e.new_var(n, "int")
            e.solver.add(t == v)
    f = e.explore(lambda: harness.sym_path(h, e))
    return f.msg if f is not None else None


def confirm(prop, cls, case, values, workdir, msg):
    """Replay a counterexample.  Returns a message when it reproduces."""
    mod = importlib.import_module("vsym.props." + prop)
    h = getattr(mod, cls)(case)
    if getattr(h, "virtual", False):
        return virtual_run(prop, cls, case, values)
    dead = msg.startswith("deadlock")
    for perturb, strict, tmo in (("165", False, 40 if not dead else 30), ("90", False, 40), ("165", True, 30)):
        if strict and not (h.mpi and h.world_size() > 1 and dead):
            continue
        if perturb == "90" and dead:
            continue
        o = real_run(prop, [(cls, case, values)], workdir, tmo, strict=strict, perturb=perturb)[0]
        m = real_verdict(prop, cls, case, values, o)
        if m is not None:
            return m
    return None


def solver_samples(prop, cls, case, n, seed):
    """Inputs satisfying the harness assumptions, for cases that the symbolic
    executor cannot follow."""
    from . import harness, core
    mod = importlib.import_module("vsym.props." + prop)
    h = getattr(mod, cls)(case)
    out = []
    rng = random.Random(seed)
    for k in range(n):
        e = core.Engine()
        core.set_engine(e)
        try:
            h.inputs(harness.SymVars(e))
            names = list(e.vars)
            rng.shuffle(names)
            pool = [rng.randrange(-3, 8) for _ in range(3)]
            for nm in names[:60]:
                t, kind = e.vars[nm]
                c = (t == rng.choice(pool)) if kind == "int" else \
                    (t if rng.random() < 0.5 else core.z3.Not(t)) if kind == "bool" else (t == rng.randrange(10))
                e.solver.push()
                e.solver.add(c)
                if not e._check():
                    e.solver.pop()
            e.model = None
            out.append(e.current_values())
        except BaseException:       # noqa
            continue
    return out


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop]


# ------------------------------------------------------------ main
def check(prop, tier=None, seed=None, verbose=False, only=None):
    t0 = time.time()
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1")) if seed is None else seed
    mod = importlib.import_module("vsym.props." + prop)
    budget = getattr(mod, "BUDGET", {}).get(tier, 240 if tier == "quick" else 600)
    workbase = os.path.join(VERIF, "work")
    os.makedirs(workbase, exist_ok=True)
    workdir = tempfile.mkdtemp(prefix=prop + "-", dir=workbase)
    try:
        return _check(prop, mod, tier, seed, budget, workdir, t0, verbose, only)
    finally:
        shutil.rmtree(workdir, ignore_errors=True)


def _check(prop, mod, tier, seed, budget, workdir, t0, verbose, only):
    cases = mod.cases(tier)
    if only:
        cases = [c for c in cases if only in c[1]["name"]]
    names = [c[1]["name"] for c in cases]
    assert len(set(names)) == len(names), "duplicate case names"
    for c in cases:
        c[1].setdefault("seed", seed)
    known = load_known(prop)
    results = [None] * len(cases)
    violations = []
    spurious = []
    knownhit = []
    degraded = []
    todo = list(range(len(cases)))
    limit = 3
    while todo:
        part = run_cases(prop, [cases[i] for i in todo], t0 + budget, workdir, verbose, limit)
        for i, r in zip(todo, part):
            results[i] = r
        # ---- counterexamples
        for r in part:
            if r["status"] != "found":
                continue
            if len(spurious) >= 6:          # (their inputs are run below, many at a time)
                spurious.append(r)
                continue
            m = confirm(prop, r["cls"], r["cased"], r["values"], workdir, r["msg"])
            if m is None:
                spurious.append(r)
                continue
            k = [x for x in known if x["case"] == r["case"] and x.get("match", "") in m]
            if k:
                knownhit.append((k[0], r, m))
            else:
                violations.append((r["cls"], r["cased"], r["values"], m, "solver counterexample: " + r["msg"]))
                break
        # when no counterexample was real, the cases that were held back get their turn
        todo = [] if violations else [i for i in todo if results[i]["status"] == "notrun" and results[i]["msg"] == "held back"]
        limit = 1000 if len(spurious) >= 6 else 3
    # ---- sampled paths validated against the real code
    groups = {}
    nval = 0
    lim = int(os.environ.get("VERIF_VALIDATE", 0)) or getattr(mod, "NVALIDATE", 12 if tier == "quick" else 40)
    rng = random.Random(seed)
    insts = []
    for r in results:
        h = getattr(mod, r["cls"])(r["cased"])
        if getattr(h, "virtual", False) or getattr(h, "novalidate", False):
            continue
        if any(x["case"] == r["case"] for x in known):
            continue
        if r["status"] in ("inconclusive", "error") or r in spurious:
            degraded.append(r)
            ss = list(r["samples"]) + ([r["values"]] if r["values"] else []) + \
                solver_samples(prop, r["cls"], r["cased"], 12, seed)
            for s in ss:
                insts.append((0, r["cls"], r["cased"], s, h))
        else:
            for s in r["samples"][:2]:
                insts.append((1, r["cls"], r["cased"], s, h))
    rng.shuffle(insts)
    insts.sort(key=lambda x: x[0])
    for x in insts:
        g = groups.setdefault((bool(x[4].mpi), x[4].P, x[4].idle), [])
        if x[0] == 0 or len([y for y in g]) < lim:
            g.append(x)
    mism = []
    if not violations:
        from concurrent.futures import ThreadPoolExecutor
        jobs = []
        for key, g in sorted(groups.items()):
            step = 40
            for i in range(0, len(g), step):
                jobs.append(g[i:i + step])

        def do(g):
            return g, real_run(prop, [(x[1], x[2], x[3]) for x in g], workdir, 100)
        width = max([k[1] + k[2] for k in groups] or [1])
        with ThreadPoolExecutor(max(1, min(4, 8 // width))) as ex:
            for g, os_ in ex.map(do, jobs):
                for x, o in zip(g, os_):
                    if o[0] == "skipped":
                        continue
                    m = real_verdict(prop, x[1], x[2], x[3], o)
                    if m is None:
                        nval += 1
                    else:
                        mism.append((x, m))
        for x, m in mism[:3]:
            m2 = confirm(prop, x[1], x[2], x[3], workdir, m)
            if m2 is not None:
                violations.append((x[1], x[2], x[3], m2, "solver-generated input run on the real code"))
                break
    # ---- report
    if verbose:
        for r in results:
            if r["status"] in ("inconclusive", "error", "incomplete"):
                print("  !! %s: %s %s" % (r["case"], r["status"], r["msg"]))
        for r in spurious:
            print("  ?? not reproduced: %s: %s %s" % (r["case"], r["msg"], str(r["values"])[:400]))
        for x, m in mism:
            print("  ?? real run disagrees: %s: %s %s" % (x[2]["name"], m, x[3]))
        tot = {}
        for r in results:
            for k, v in r["cover"].items():
                tot.setdefault(k, set()).update(v)
        for k in sorted(tot):
            print("  cover", k, len(tot[k]), "lines")
    ev = evidence(prop, mod, tier, seed, results, nval, spurious, degraded, violations, knownhit, time.time() - t0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
    for k, r, m in knownhit:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    st = {}
    for r in results:
        st[r["status"]] = st.get(r["status"], 0) + 1
    print("%s: cases %s paths=%d queries=%d solver=%.1fs validated=%d wall=%.1fs" % (
        prop, st, ev["coverage"]["states"], ev["coverage"]["queries"], ev["coverage"]["solver_s"], nval,
        time.time() - t0))
    if violations:
        cls, case, values, m, how = violations[0]
        d = os.path.join(VERIF, "work", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s.json" % prop)
        with open(path, "w") as f:
            json.dump(dict(property=prop, cls=cls, case=case, values=values, message=m, how=how), f, indent=1)
        print("violation: %s [%s] %s" % (case["name"], how, m))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    explored = sum(r["stats"].get("paths", 0) for r in results)
    if not explored and not nval:
        print("no case could be explored")
        return 2
    return 0


def evidence(prop, mod, tier, seed, results, nval, spurious, degraded, violations, knownhit, wall):
    S = lambda k: sum(r["stats"].get(k, 0) for r in results)
    funcs = sorted(set(f for r in results for f in r["funcs"]))
    cover = {}
    for r in results:
        for k, v in r["cover"].items():
            cover.setdefault(k, set()).update(v)
    comp = [r for r in results if r["status"] == "ok" and r not in spurious]
    samples = []
    for r in results:
        for s in r["samples"][:1]:
            samples.append(dict(case=r["case"], inputs={k: s[k] for k in list(s)[:24]}))
    cov = dict(
        states=S("paths"), transitions=S("decisions"), traces_validated_against_impl=nval,
        samples=samples[:8], cases=len(results), cases_decided=len(comp),
        queries=S("queries"), solver_s=round(S("solver_s"), 3), assertions_checked=S("checks"),
        paths_infeasible=S("aborted"), max_path_depth=max([r["stats"].get("max_depth", 0) for r in results] or [0]),
        functions_encoded=funcs, lines_executed={k: len(v) for k, v in cover.items()},
        bounds=getattr(mod, "BOUNDS", ""),
        case_list=[dict(name=r["case"], status=r["status"], paths=r["stats"].get("paths", 0),
                        queries=r["stats"].get("queries", 0), reachability_witnesses=r["witness"],
                        wall_s=round(r["wall"], 2), note=(r["msg"] or "")[:200]) for r in results],
        not_decided=[r["case"] for r in results if r not in comp],
        degraded_to_solver_chosen_concrete_runs=[r["case"] for r in degraded],
        counterexamples_not_reproduced=[dict(case=r["case"], msg=r["msg"]) for r in spurious],
        known_findings=[k["what"] for k, _, _ in knownhit],
        truncated_concretisations=S("truncated"),
        exhaustive=len(comp) == len(results) and S("truncated") == 0,
        explanation="states = feasible program paths explored symbolically (each stands for every input "
                    "satisfying its path condition); transitions = branch decisions put to the solver")
    notes = sorted(set(n for r in results for n in r["notes"]))
    return dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
                assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + notes, wall_s=round(wall, 2),
                violations=len(violations))


def replay(path):
    d = json.load(open(path))
    mod = importlib.import_module("vsym.props." + d["property"])
    for tier in ("quick", "thorough"):
        for cls, case in mod.cases(tier):
            if cls == d["cls"] and case["name"] == d["case"]["name"]:
                d["case"] = dict(case, seed=d["case"].get("seed", 1))       # (JSON turns tuples into lists)
    workdir = tempfile.mkdtemp(prefix="replay-", dir=os.path.join(VERIF, "work"))
    try:
        m = confirm(d["property"], d["cls"], d["case"], d["values"], workdir, d["message"])
    finally:
        shutil.rmtree(workdir, ignore_errors=True)
    print("reproduced: %s" % m if m else "not reproduced")
    return 1 if m else 0


def main():
    a = sys.argv[1:]
    if a[0] == "replay":
        sys.exit(replay(a[1]))
    verbose = "-v" in a
    a = [x for x in a if x != "-v"]
    only = None
    for x in a:
        if x.startswith("--only="):
            only = x[7:]
        if x.startswith("--tier="):
            os.environ["VERIF_TIER"] = x[7:]
    sys.exit(check(a[0], verbose=verbose, only=only))


if __name__ == "__main__":
    main()
