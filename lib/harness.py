"""Runner shared by all checks: generation, counting, shrinking, replay files, evidence, exit codes.

A property module (checks/cNN.py) defines PROPERTY, ASSUMPTIONS and SUBS, a list of Sub.  A Sub has a Hypothesis
strategy that yields a JSON-serialisable case, and a function check(case, ctx) that raises Violation when the property
does not hold on that case.  Everything random is inside the strategy, so a case is a complete replay.
"""
import argparse
import concurrent.futures as cf
import contextlib
import hashlib
import importlib
import json
import logging
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The code under test broke the property on this case."""


class HarnessError(Exception):
    """The check itself is at fault."""


@contextlib.contextmanager
def sut(what):
    """Run code under test (or read its output): any exception is a violation, since the inputs are valid ones."""
    try:
        yield
    except (Violation, HarnessError):
        raise
    except (KeyboardInterrupt, MemoryError, DidNotFinish):
        raise
    except BaseException as e:  # noqa: BLE001  (SystemExit from the code under test included)
        if type(e).__module__.startswith("hypothesis"):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        where = ", ".join(f"{os.path.basename(f.filename)}:{f.name}" for f in tb[-4:])
        raise Violation(f"{what}: raised {type(e).__name__}: {str(e)[:300]} [{where}]") from e


def require(cond, msg):
    if not cond:
        raise Violation(msg)


class Ctx:
    """Per-case bookkeeping and scratch space."""

    def __init__(self):
        self.labels = set()
        self.is_nontrivial = False
        self._dir = None

    def label(self, *names):
        self.labels.update(names)

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    @property
    def dir(self):
        if self._dir is None:
            self._dir = tempfile.mkdtemp(prefix="case_", dir=os.environ["VERIF_SCRATCH"])
        return self._dir

    def cleanup(self):
        if self._dir is not None:
            shutil.rmtree(self._dir, ignore_errors=True)
            self._dir = None


class Sub:
    def __init__(self, name, strategy, check, quick=200, thorough=None, chunk=None, rule=""):
        self.name = name
        self.strategy = strategy          # strategy, or a function returning one (built late, in the worker)
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 15
        self.chunk = chunk
        self.rule = rule


def to_plain(x):
    """Case -> JSON-serialisable (floats keep their repr; NaN and inf are written as strings on output only)."""
    return json.loads(json.dumps(x))


def digest(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=10).hexdigest()


CASE_LIMIT_S = 150      # a case takes well under a second; one that takes this long does not terminate


class DidNotFinish(BaseException):
    pass


def _alarm(*_):
    raise DidNotFinish()


def run_case(sub, case):
    """One case, no library.  Returns (ctx, error or None)."""
    ctx = Ctx()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT_S)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            sub.check(case, ctx)
        return ctx, None
    except Violation as v:
        return ctx, v
    except DidNotFinish:
        return ctx, Violation(f"did not finish within {CASE_LIMIT_S} s")
    finally:
        signal.alarm(0)
        ctx.cleanup()


def _derive_seed(seed, pid, name, k):
    h = hashlib.blake2b(f"{seed}|{pid}|{name}|{k}".encode(), digest_size=8).digest()
    return int.from_bytes(h, "big")


def run_task(pid, sub_name, k, n, seed, t_end):
    """One chunk of one sub-check, in a worker process."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    logging.disable(logging.CRITICAL)
    mod = importlib.import_module(f"checks.{pid.lower()}")
    sub = next(s for s in mod.SUBS if s.name == sub_name)
    strategy = sub.strategy() if callable(sub.strategy) else sub.strategy
    out = dict(sub=sub_name, evaluations=0, nontrivial=[], labels={}, samples=[], skipped=0, violation=None,
               error=None, invalid=0)
    state = dict(fail=None, t_fail=None)
    shrink_budget = float(os.environ.get("VERIF_SHRINK_S", "45"))

    def body(case):
        now = time.time()
        if state["t_fail"] is not None and now - state["t_fail"] > shrink_budget:
            return
        if now > t_end:
            out["skipped"] += 1
            return
        case = to_plain(case)
        ctx, err = run_case(sub, case)
        out["evaluations"] += 1
        if state["t_fail"] is None:
            for lab in ctx.labels:
                out["labels"][lab] = out["labels"].get(lab, 0) + 1
            if ctx.is_nontrivial:
                out["nontrivial"].append(digest(case))
                if len(out["samples"]) < 2:
                    out["samples"].append(case)
        if err is not None:
            if state["t_fail"] is None:
                state["t_fail"] = now if "did not finish" not in str(err) else 0      # (no shrinking of those)
            best = state["fail"]
            size = len(json.dumps(case))
            if best is None or size <= best[2]:
                state["fail"] = (case, str(err), size)
            raise err

    test = given(strategy)(body)
    test = settings(max_examples=n, database=None, deadline=None, derandomize=False, report_multiple_bugs=False,
                    phases=[Phase.generate, Phase.shrink], suppress_health_check=list(HealthCheck),
                    print_blob=False)(test)
    test = hypothesis.seed(_derive_seed(seed, pid, sub_name, k))(test)
    try:
        test()
    except BaseException as e:  # noqa: BLE001
        if state["fail"] is None:
            out["error"] = "".join(traceback.format_exception(e))[-6000:]
    if state["fail"] is not None:
        case, _, _ = state["fail"]
        _, err = run_case(sub, case)
        if err is None:
            out["error"] = f"failure did not reproduce outside the library: {json.dumps(case)[:3000]}"
        else:
            out["violation"] = dict(case=case, message=str(err))
    return out


def load_known(pid):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [e for e in json.load(f)["findings"] if e["property"] == pid]


def main(argv, repo):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--sub")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--stats", action="store_true")
    args = ap.parse_args(argv)
    if args.replay:
        args.replay = os.path.abspath(args.replay)
    pid = args.property.upper()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"verif-{pid}_v1.0-")
    os.environ["VERIF_SCRATCH"] = scratch
    os.environ["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    os.environ["HOME"] = scratch
    os.environ["TMPDIR"] = scratch
    tempfile.tempdir = scratch
    os.makedirs(os.environ["MPLCONFIGDIR"])
    os.chdir(scratch)
    try:
        return _main(args, pid, seed, tier, t0, repo)
    except BaseException:  # noqa: BLE001
        traceback.print_exc()
        print(f"ERROR property={pid}: the check itself failed")
        return 2
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)


def _main(args, pid, seed, tier, t0, repo):
    evidence_path = os.path.join(HERE, "evidence", f"{pid}.json")
    replay_dir = os.path.join(HERE, "evidence", "replays")

    def write_evidence(cov, violations, assumptions):
        os.makedirs(os.path.dirname(evidence_path), exist_ok=True)
        ev = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=assumptions,
                  wall_s=round(time.time() - t0, 2), violations=violations)
        tmp = evidence_path + ".tmp"
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, evidence_path)

    def report(sub_name, case, message):
        os.makedirs(replay_dir, exist_ok=True)
        path = os.path.join(replay_dir, f"{pid}_{sub_name}_{digest(case)[:8]}.json")
        with open(path, "w") as f:
            json.dump(dict(property=pid, sub=sub_name, case=case, message=message,
                           command=f"/opt/venv/bin/python run.py {pid} --replay {path}"), f, indent=1)
        print(f"{pid}/{sub_name}: {message}")
        print(f"VIOLATION property={pid} replay={path}", flush=True)

    # the tree must import at all; a tree that does not is not this property's business, but no answer either
    warnings.simplefilter("ignore")
    import meshiphi
    if not os.path.realpath(meshiphi.__file__).startswith(os.path.realpath(repo) + os.sep):
        raise HarnessError(f"meshiphi imported from {meshiphi.__file__}, not {repo}")
    logging.disable(logging.CRITICAL)
    mod = importlib.import_module(f"checks.{pid.lower()}")
    assert mod.PROPERTY == pid

    if args.replay:
        with open(args.replay) as f:
            rep = json.load(f)
        sub = next(s for s in mod.SUBS if s.name == rep["sub"])
        _, err = run_case(sub, rep["case"])
        if err is None:
            print(f"replay of {pid}/{rep['sub']}: the property holds on this case")
            return 0
        print(f"{pid}/{rep['sub']}: {err}")
        print(f"VIOLATION property={pid} replay={args.replay}")
        return 1

    subs = [s for s in mod.SUBS if args.sub in (None, s.name)]
    # known findings: still failing on their own input?  (they suppress nothing but that input: the generators of the
    # sub-check named in the entry exclude it by construction)
    for e in load_known(pid):
        if e.get("status") != "known":
            continue
        sub = next(s for s in mod.SUBS if s.name == e["sub"])
        _, err = run_case(sub, e["case"])
        if err is not None:
            print(f"KNOWN-FINDING: property={pid} {e['what']}")

    budget = float(os.environ.get("VERIF_BUDGET_S", "420" if tier == "quick" else "7200"))
    t_end = t0 + budget
    workers = int(os.environ.get("VERIF_WORKERS", str(min(8, os.cpu_count() or 1))))
    tasks = []
    for s in subs:
        total = max(1, int((s.quick if tier == "quick" else s.thorough) * args.scale))
        chunk = s.chunk or max(10, -(-total // workers))
        if tier == "thorough":
            chunk = max(chunk, min(400, -(-total // workers)))
        k = 0
        while total > 0:
            n = min(chunk, total)
            tasks.append((s.name, k, n))
            total -= n
            k += 1
    # expensive sub-checks spread over the pool: interleave chunks
    tasks.sort(key=lambda t: t[1])

    results, violation, error = [], None, None
    ctxm = multiprocessing.get_context("fork")
    ex = cf.ProcessPoolExecutor(max_workers=workers, mp_context=ctxm)
    try:
        futs = [ex.submit(run_task, pid, name, k, n, seed, t_end) for name, k, n in tasks]
        for fut in cf.as_completed(futs):
            r = fut.result()
            results.append(r)
            if r["violation"] is not None:
                violation = r
                break
            if r["error"] is not None and error is None:
                error = r
    finally:
        for p in list((ex._processes or {}).values()):
            if violation is not None:
                p.terminate()
        ex.shutdown(wait=violation is None, cancel_futures=True)

    per_sub, nontriv, samples, labels = {}, set(), [], {}
    for r in results:
        d = per_sub.setdefault(r["sub"], dict(evaluations=0, distinct_nontrivial=0, skipped_time_budget=0, labels={}))
        d["evaluations"] += r["evaluations"]
        d["skipped_time_budget"] += r["skipped"]
        new = {(r["sub"], x) for x in r["nontrivial"]} - nontriv
        d["distinct_nontrivial"] += len(new)
        nontriv |= new
        for lab, c in r["labels"].items():
            d["labels"][lab] = d["labels"].get(lab, 0) + c
        if r["samples"] and sum(1 for s in samples if s["sub"] == r["sub"]) < 2:
            samples.append(dict(sub=r["sub"], case=r["samples"][0]))
    for d in per_sub.values():
        d["labels"] = dict(sorted(d["labels"].items()))
    for s in samples:
        if len(json.dumps(s)) > 20000:
            s["case"] = json.dumps(s["case"])[:20000] + " ..."
    cov = dict(
        evaluations=sum(d["evaluations"] for d in per_sub.values()),
        distinct_nontrivial=len(nontriv),
        rule=" | ".join(f"{s.name}: {s.rule}" for s in subs if s.rule),
        samples=samples, sub_checks=per_sub, workers=workers)
    write_evidence(cov, 1 if violation else 0, list(getattr(mod, "ASSUMPTIONS", [])))
    if args.stats:
        print(json.dumps(per_sub, indent=1))
    if violation is not None:
        report(violation["sub"], violation["violation"]["case"], violation["violation"]["message"])
        return 1
    if error is not None:
        print(error["error"])
        print(f"ERROR property={pid} sub={error['sub']}: the check itself failed")
        return 2
    print(f"{pid}: held on {cov['evaluations']} cases ({cov['distinct_nontrivial']} distinct non-trivial), "
          f"tier {tier}, seed {seed}, {time.time() - t0:.1f}s")
    return 0
