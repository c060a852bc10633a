"""Property-based testing engine: Hypothesis generation in parallel workers,
shrinking, replay files, evidence.

A check module defines:
  ID          property id
  RULE        how cases are made / what makes one non-trivial
  strategy(tier) -> Hypothesis strategy of JSON-able case dicts
  run(case, ctx)  -> raises Violation when the property fails on this case
  QUICK, THOROUGH -> numbers of generated cases
  optional ASSUMPTIONS: list of str
"""
import collections, hashlib, importlib, json, multiprocessing as mp, os, re, shutil, signal, subprocess
import sys, tempfile, time, traceback

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

import hypothesis
from hypothesis import strategies as st

from . import build as B

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MPIENV = dict(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
              OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_hwloc_base_binding_policy="none",
              OMPI_MCA_mpi_yield_when_idle="1", OMPI_MCA_pml="ob1", OMPI_MCA_btl="self,vader",
              OMPI_MCA_btl_vader_single_copy_mechanism="none")


class Violation(Exception):
    """The property fails on this case."""


class Inconclusive(BaseException):
    """A tool exceeded its time limit."""
    def __init__(self, msg):
        super().__init__(msg)


class _Stop(BaseException):
    pass


class Result:
    __slots__ = ("rc", "out", "err", "cmd")

    def __init__(self, rc, out, err, cmd):
        self.rc, self.out, self.err, self.cmd = rc, out, err, cmd

    def brief(self):
        return "cmd=%s rc=%s out=%r err=%r" % (" ".join(self.cmd), self.rc, self.out[-600:], self.err[-600:])


def scratch_root():
    for d in ("/dev/shm", "/tmp"):
        try:
            st_ = os.statvfs(d)
            if os.access(d, os.W_OK) and st_.f_bavail * st_.f_frsize > 2 << 30:
                return d
        except OSError:
            pass
    return "/tmp"


class Ctx:
    """What one case execution can use: a private directory, the tools, counters."""

    def __init__(self, workdir, timeout=60):
        self.dir = workdir
        self.timeout = timeout
        self.labels = []
        self.is_nontrivial = False
        self.env = None
        self.perturb = True   # fresh heap memory is filled with a pattern
        self.notes = {}

    def label(self, *names):
        self.labels.extend(names)

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def tool(self, name):
        if name in ("cr_lake_files",):
            return os.path.join(B.HYDRO, "lakes", name)
        if name in ("cp_river_vars",):
            return os.path.join(B.HYDRO, "postp", name)
        if name in ("rmv_parallel_rivers",):
            return os.path.join(B.HYDRO, "rmvpr", name)
        return os.path.join(B.BIN, name)

    def run(self, name, *args, cwd=None, env=None, mpi=0, timeout=None, stdin=None, raw=False):
        """Run a tool of the build under test; never raises on a non-zero exit."""
        exe = name if raw else self.tool(name)
        cmd = [exe] + [str(a) for a in args]
        e = dict(os.environ)
        e["PATH"] = B.BIN + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
        e["LC_ALL"] = "C.UTF-8"
        if self.perturb:
            e["MALLOC_PERTURB_"] = "165"
        e["TMPDIR"] = self.dir
        e["HDF5_USE_FILE_LOCKING"] = "FALSE"
        if mpi:
            e.update(MPIENV)
            cmd = ["mpirun", "-n", str(mpi)] + cmd
        if self.env:
            e.update(self.env)
        if env:
            e.update(env)
        p = subprocess.Popen(cmd, cwd=cwd or self.dir, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL, start_new_session=True)
        try:
            out, err = p.communicate(input=None if stdin is None else stdin.encode(), timeout=timeout or self.timeout)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.communicate()
            raise Inconclusive("tool did not terminate: %s" % " ".join(cmd))
        except BaseException:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            raise
        return Result(p.returncode, out.decode("utf-8", "replace"), err.decode("utf-8", "replace"), cmd)

    def ok(self, name, *args, **kw):
        """Run a tool which must succeed on this (valid) input."""
        r = self.run(name, *args, **kw)
        if r.rc != 0:
            raise Violation("%s failed on a valid input: %s" % (name, r.brief()))
        return r


def load(cid):
    sys.path.insert(0, VERIF)
    return importlib.import_module("checks." + cid)


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def execute(mod, case, timeout=None):
    """Run one case in a fresh scratch directory. -> (ctx, None | message)"""
    d = tempfile.mkdtemp(prefix="v%s_" % mod.ID, dir=scratch_root())
    ctx = Ctx(d, timeout or getattr(mod, "TIMEOUT", 30))
    try:
        mod.run(case, ctx)
        return ctx, None
    except Violation as e:
        return ctx, str(e) or "violated"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _worker(cid, tier, seed, n, widx, stop_ev, deadline, q):
    try:
        mod = load(cid)
        from collections import Counter
        stats = dict(evals=0, nontrivial=set(), labels=Counter(), samples=[], inconclusive=[], fail=None, error=None,
                     truncated=False, all=set())
        best = [None]
        first_fail_t = [0.0]
        shrink_s = getattr(mod, "SHRINK_S", 90)

        def test(case):
            if best[0] is None and stop_ev.is_set():
                raise _Stop()
            if time.time() > deadline:
                stats["truncated"] = True
                raise _Stop()
            if best[0] is not None and time.time() - first_fail_t[0] > shrink_s:
                raise _Stop()
            try:
                ctx, msg = execute(mod, case)
            except Inconclusive as e:
                stats["inconclusive"].append((case, str(e)))
                if best[0] is None and len(stats["inconclusive"]) >= 2:
                    # runs that do not end: stop searching, step 3 below decides
                    stats["truncated"] = True
                    raise _Stop()
                return
            if best[0] is None:
                stats["evals"] += 1
                k = case_key(case)
                stats["all"].add(k)
                for l in set(ctx.labels):
                    stats["labels"][l] += 1
                if ctx.is_nontrivial:
                    if k not in stats["nontrivial"] and len(stats["samples"]) < 4:
                        stats["samples"].append(case)
                    stats["nontrivial"].add(k)
            if msg is not None:
                size = len(json.dumps(case))
                if best[0] is None:
                    first_fail_t[0] = time.time()
                    best[0] = (size, case, msg)
                    stop_ev.set()
                elif size <= best[0][0]:
                    best[0] = (size, case, msg)
                raise Violation(msg)

        wrapped = hypothesis.seed(seed)(hypothesis.settings(
            max_examples=n, database=None, deadline=None, derandomize=False, print_blob=False,
            report_multiple_bugs=False, verbosity=hypothesis.Verbosity.quiet,
            phases=(hypothesis.Phase.generate, hypothesis.Phase.shrink),
            suppress_health_check=list(hypothesis.HealthCheck))(
                hypothesis.given(mod.strategy(tier))(test)))
        try:
            wrapped()
        except _Stop:
            pass
        except Violation:
            pass
        except hypothesis.errors.Flaky:
            pass
        except BaseException:
            if best[0] is None:
                raise
        if best[0] is not None:
            stats["fail"] = (best[0][1], best[0][2])
        q.put((widx, stats))
    except BaseException:
        q.put((widx, dict(error=traceback.format_exc())))


def _replay_dir():
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    return d


def corpus_cases(cid):
    d = os.path.join(VERIF, "corpus", cid)
    if not os.path.isdir(d):
        return []
    return [(os.path.join(d, f), json.load(open(os.path.join(d, f)))) for f in sorted(os.listdir(d)) if f.endswith(".json")]


def _corpus_exec(a):
    cid, path, case = a
    mod = load(cid)
    try:
        ctx, msg = execute(mod, case)
        return path, case, msg, list(ctx.labels), ctx.is_nontrivial, None
    except Inconclusive as e:
        return path, case, None, [], False, str(e)
    except BaseException:
        return path, case, None, [], False, "ERROR " + traceback.format_exc()


def known_findings(cid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)).get("findings", []) if f["property"] == cid]


def run_check(cid, tier, seed, scale=1.0, jobs=None, nobuild=False):
    t0 = time.time()
    try:
        bt = 0.0 if nobuild else B.build()
    except B.BuildError as e:
        print("BUILD FAILED\n%s" % e)
        return 2
    mod = load(cid)
    n = int(max(1, (mod.QUICK if tier == "quick" else mod.THOROUGH) * scale))
    budget = getattr(mod, "QUICK_S", 300) if tier == "quick" else getattr(mod, "THOROUGH_S", 3000)
    jobs = jobs or getattr(mod, "JOBS", 8)
    jobs = max(1, min(jobs, n))
    labels = collections.Counter()
    evals, nontriv, distinct, samples, errors, inconcl, truncated = 0, set(), set(), [], [], [], False
    fail = None
    # 1. saved regression inputs (incl. the shrunk inputs of repaired defects)
    cc = corpus_cases(cid)
    if cc:
        with mp.Pool(min(8, len(cc))) as pool:
            for path, case, msg, lb, nt, bad in pool.map(_corpus_exec, [(cid, p, c) for p, c in cc]):
                evals += 1
                distinct.add(case_key(case))
                for l in set(lb):
                    labels[l] += 1
                if nt:
                    nontriv.add(case_key(case))
                if msg is not None and fail is None:
                    fail = (case, msg)
                if bad:
                    (errors if bad.startswith("ERROR") else inconcl).append(bad if bad.startswith("ERROR") else (case, bad))
    ncorpus = len(cc)
    # 2. generated cases
    if fail is None and not errors:
        stop = mp.Event()
        q = mp.Queue()
        per = [n // jobs + (1 if i < n % jobs else 0) for i in range(jobs)]
        procs = [mp.Process(target=_worker, args=(cid, tier, seed * 1000003 + i * 7919 + 17, per[i], i, stop, t0 + bt + budget, q))
                 for i in range(jobs)]
        for p in procs:
            p.start()
        got = []
        while len(got) < jobs:
            try:
                got.append(q.get(timeout=5))
            except Exception:
                if not any(p.is_alive() for p in procs) and q.empty():
                    break
        for p in procs:
            p.join(30)
            if p.is_alive():
                p.terminate()
        if len(got) < jobs:
            errors.append("a worker died")
        for w, s in sorted(got, key=lambda x: x[0]):
            if s.get("error"):
                errors.append(s["error"])
                continue
            evals += s["evals"]
            nontriv |= s["nontrivial"]
            distinct |= s["all"]
            labels.update(s["labels"])
            samples.extend(s["samples"][:1])
            inconcl.extend(s["inconclusive"])
            truncated |= s["truncated"]
            if s["fail"] is not None and (fail is None or len(json.dumps(s["fail"][0])) < len(json.dumps(fail[0]))):
                fail = s["fail"]
    # 3. a tool that does not terminate: confirm twice, alone, with a longer limit
    hung = 0
    if fail is None and inconcl:
        for case, msg in inconcl[:2]:
            hung = 0
            for _ in range(2):
                try:
                    _, m = execute(mod, case, timeout=2 * getattr(mod, "TIMEOUT", 30))
                    if m is not None:
                        fail = (case, m)
                    break
                except Inconclusive:
                    hung += 1
            if hung == 2:
                fail = (case, msg)
            if fail is not None:
                break
    violations = 0
    rc = 0
    if fail is not None:
        case, msg = fail
        rp = os.path.join(_replay_dir(), "%s_%s.json" % (cid, case_key(case)[:10]))
        with open(rp, "w") as f:
            json.dump(case, f, indent=1, sort_keys=True)
        rep = 0
        for _ in range(1 if hung == 2 else 3):
            try:
                _, m = execute(mod, case)
                if m is not None:
                    rep += 1
                    msg = m
            except Inconclusive:
                rep += 1
        print("case: %s" % json.dumps(case, sort_keys=True)[:3000])
        print("failure (%d of %d replays): %s" % (rep, 1 if hung == 2 else 3, msg[:3000]))
        if rep:
            violations = 1
            print("VIOLATION property=%s replay=%s" % (cid, rp))
            rc = 1
        else:
            errors.append("a failure did not reproduce: " + msg[:500])
    # 4. recorded findings
    for kf in known_findings(cid):
        still = None
        try:
            _, m = execute(mod, kf["case"])
            still = m
        except Inconclusive as e:
            still = str(e)
        if still is not None:
            print("KNOWN-FINDING: property=%s %s" % (cid, kf["what"]))
    wall = time.time() - t0
    cov = dict(evaluations=evals, distinct_nontrivial=len(nontriv), distinct=len(distinct), rule=mod.RULE, samples=samples[:6] or [c for _, c in cc[:2]],
               regression_cases=ncorpus, classes=dict(sorted(labels.items())), inconclusive=len(inconcl), truncated_by_time=truncated, build_s=round(bt, 1))
    ev = dict(property=cid, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=getattr(mod, "ASSUMPTIONS", []),
              wall_s=round(wall, 2), violations=violations)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", cid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print("%s %s seed=%d: %d cases, %d non-trivial, %d distinct, %d inconclusive%s, %.1f s (build %.1f s)" %
          (cid, tier, seed, evals, len(nontriv), len(distinct), len(inconcl), ", truncated" if truncated else "", wall, bt))
    if rc == 0 and errors:
        print("CHECK ERROR\n" + errors[0])
        return 3
    return rc
