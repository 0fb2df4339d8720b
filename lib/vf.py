"""Shared machinery: generated-input search with Hypothesis, sharded over
worker processes, with shrinking, replay files and measured evidence.

A check module (checks/cNN.py) defines

    PROPERTY = "C01"
    LEVEL = "exploration"
    RULE = "..."                       # what a case is / what non-trivial means
    ASSUMPTIONS = [...]
    TESTS = [Test(name, strategy_factory, function, quick=N, thorough=M), ...]

`strategy_factory()` returns a Hypothesis strategy whose values are built only
from literals (so that repr() / ast.literal_eval() round-trips them: that is the
replay format).  `function(case, rec)` raises Violation when the property does
not hold for the case, calls rec.nontrivial(key) when the case is non-trivial
and rec.tag(label) to classify it.  Any other exception is sorted by origin: it
is a violation when the code under test raised it (its innermost non-library
frame is in /repo), otherwise it is an error of the harness (exit status 2).
"""
from __future__ import annotations

import argparse
import ast
import collections
import dataclasses
import faulthandler
import hashlib
import importlib
import json
import os
import pathlib
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback
import typing as t

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
HYPOTHESIS_DIR = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
PYTHON = "/opt/venv/bin/python"


class Violation(Exception):
    """The property does not hold for the case being run."""


class HarnessError(Exception):
    """The check itself could not do its work; never reported as a violation."""


class Hang(BaseException):
    """Raised by the per-case alarm (BaseException: not swallowed by code under test)."""


@dataclasses.dataclass
class Test:
    name: str
    strategy: t.Callable[[], t.Any]
    fn: t.Callable[[t.Any, "Recorder"], None]
    quick: int = 1000
    thorough: int = 20000
    # Seconds one case may take before it counts as a hang of the code under test.
    case_timeout: float = 60.0
    # Seconds of shrinking after the first failure.
    shrink_s: float = 20.0
    # Fixed cases (shapes known to be delicate), always run first by worker 0.
    corpus: t.Sequence[t.Any] = ()
    # Times a failing case is re-run to confirm it; a case whose failure does
    # not come back is reported as inconclusive rather than as a violation.
    confirm: int = 0
    # Cases of a second or so.
    slow: bool = False


class Recorder:
    def __init__(self) -> None:
        self.evaluations = 0
        self.keys: set[str] = set()
        self.tags: collections.Counter[str] = collections.Counter()
        self.samples: list[t.Any] = []
        self.excluded: collections.Counter[str] = collections.Counter()
        self.known: dict[str, str] = {}
        self._case: t.Any = None
        self._sample_at: set[int] = {1, 2, 5, 20, 100, 500}

    def begin(self, case: t.Any) -> None:
        self._case = case
        self.evaluations += 1

    def nontrivial(self, key: t.Any = None) -> None:
        data = repr(self._case if key is None else key).encode("utf-8", "surrogatepass")
        before = len(self.keys)
        self.keys.add(hashlib.sha1(data).hexdigest()[:16])
        if len(self.keys) != before and len(self.keys) in self._sample_at:
            r = repr(self._case)
            self.samples.append(r if len(r) <= 1500 else r[:1500] + "...")

    def tag(self, label: str, n: int = 1) -> None:
        self.tags[label] += n


def import_hypothesis() -> t.Any:
    if HYPOTHESIS_DIR not in sys.path:
        sys.path.append(HYPOTHESIS_DIR)
    import hypothesis

    return hypothesis


class _Many(int):
    """A number of examples for which Hypothesis makes no small ones first."""

    def __floordiv__(self, other: int) -> int:
        return -1 if other == 10 else int(self) // other


def no_mutations() -> None:
    """Has Hypothesis draw every case afresh: cases that take a second are too
    dear for variations of the one before (a quarter of which are the same)."""
    from hypothesis.internal.conjecture import engine

    if hasattr(engine.ConjectureRunner, "generate_mutations_from"):
        engine.ConjectureRunner.generate_mutations_from = lambda self, data: None  # type: ignore[method-assign]


def base_env() -> dict[str, str]:
    """The environment checks (and everything they start) run in."""
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(("ANSIBLE_", "ANSIBUG_", "PYTEST_", "COVERAGE_")):
            del env[k]
    env.pop("PYTHONPATH", None)
    env.update(
        LC_ALL="C.UTF-8",
        TZ="UTC",
        PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1",
        PATH="/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    )
    return env


def seed_of(*parts: t.Any) -> int:
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:6], "big")


def from_code_under_test(exc: BaseException) -> bool:
    """True when the innermost frame that is ours or the repo's is the repo's."""
    src = str(REPO / "src") + os.sep
    ver = str(VERIF) + os.sep
    for frame in reversed(traceback.extract_tb(exc.__traceback__)):
        fn = os.path.abspath(frame.filename)
        if fn.startswith(src):
            return True
        if fn.startswith(ver):
            return False
    return False


def guard(fn: t.Callable[[], t.Any], what: str) -> t.Any:
    """Runs code under test that must not raise."""
    try:
        return fn()
    except Violation:
        raise
    except Exception as e:
        raise Violation(f"{what}: unexpected {type(e).__name__}: {e}") from e


def require(cond: t.Any, msg: str | t.Callable[[], str]) -> None:
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


# --------------------------------------------------------------------------
# worker
# --------------------------------------------------------------------------


def _alarm(_sig: int, _frm: t.Any) -> None:
    raise Hang()


def _run_case(test: Test, case: t.Any, rec: Recorder) -> None:
    """Runs one case; the only exceptions out of here are Violation/HarnessError."""
    rec.begin(case)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, test.case_timeout)
    try:
        test.fn(case, rec)
    except (Violation, HarnessError):
        raise
    except Hang as e:
        tb = "".join(traceback.format_tb(e.__traceback__)[-6:])
        if from_code_under_test(e):
            raise Violation(f"did not finish within {test.case_timeout:.0f} s:\n{tb}") from None
        raise HarnessError(f"case hung in the harness:\n{tb}") from None
    except Exception as e:
        if type(e).__module__.startswith("hypothesis"):
            raise
        if from_code_under_test(e):
            raise Violation(f"unexpected {type(e).__name__}: {e}\n{traceback.format_exc()}") from e
        raise HarnessError(f"{type(e).__name__}: {e}\n{traceback.format_exc()}") from e
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def worker_main(mod: t.Any, tier: str, seed: int, index: int, count: int, budget: float, out: str) -> None:
    hyp = import_hypothesis()
    from hypothesis import HealthCheck, Phase, Verbosity, given, settings

    result: dict[str, t.Any] = {"tests": {}, "violations": [], "error": None, "inconclusive": []}
    started = time.monotonic()
    tests: list[Test] = mod.TESTS
    weights = [max(1, getattr(x, tier)) for x in tests]
    setup = getattr(mod, "worker_setup", None)
    only = os.environ.get("VERIF_ONLY_TEST")
    try:
        if setup:
            setup(index)
        spent_end = started
        for test, weight in zip(tests, weights):
            if only and test.name != only:
                continue
            rec = Recorder()
            rec_known = rec.known
            share = budget * weight_share(test, tests, tier)
            test_start = time.monotonic()
            # Unused time of earlier tests is passed on.
            test_deadline = max(spent_end, test_start) + share if not only else test_start + budget
            spent_end = max(spent_end, started) + share
            state: dict[str, t.Any] = {"first_fail": None, "known_bad": {}, "last": None, "skipped": 0}

            def confirmed(case: t.Any) -> bool:
                """Whether most of the runs of a failing case fail."""
                runs = fails = 0
                need = test.confirm // 2 + 1
                while fails < need and runs - fails <= test.confirm - need:
                    runs += 1
                    try:
                        _run_case(test, case, rec)
                    except Violation:
                        fails += 1
                return fails >= need

            def body(case: t.Any) -> None:
                now = time.monotonic()
                key = repr(case)
                if state["first_fail"] is not None:
                    if now - state["first_fail"] > test.shrink_s:
                        if key in state["known_bad"]:
                            state["last"] = (case, state["known_bad"][key])
                            raise Violation(state["known_bad"][key])
                        return
                elif now > test_deadline:
                    state["skipped"] += 1
                    return
                try:
                    _run_case(test, case, rec)
                except Violation as v:
                    if test.confirm and state["first_fail"] is None:
                        if not confirmed(case):
                            result["inconclusive"].append({"test": test.name, "case": key[:2000], "message": str(v)[:2000]})
                            return
                    if state["first_fail"] is None:
                        state["first_fail"] = time.monotonic()
                        state["first"] = (case, str(v))
                    state["known_bad"][key] = str(v)
                    state["last"] = (case, str(v))
                    raise

            failed: tuple[t.Any, str] | None = None
            if index == 0:
                for case in test.corpus:
                    try:
                        _run_case(test, case, rec)
                        rec.tag("corpus")
                    except Violation as v:
                        failed = (case, str(v))
                        break
            if failed is None:
                n = max(1, -(-getattr(test, tier) // count))
                if test.slow:
                    no_mutations()
                s = settings(
                    max_examples=_Many(n) if test.slow else n,
                    deadline=None,
                    database=None,
                    derandomize=False,
                    report_multiple_bugs=False,
                    print_blob=False,
                    verbosity=Verbosity.quiet,
                    suppress_health_check=list(HealthCheck),
                    phases=(Phase.generate, Phase.target, Phase.shrink),
                )
                fn = given(test.strategy())(body)
                fn = settings(s)(fn)
                fn = hyp.seed(seed_of(seed, mod.PROPERTY, test.name, index))(fn)
                try:
                    fn()
                except HarnessError:
                    raise
                except BaseException as e:
                    if state["last"] is None:
                        if isinstance(e, Violation):
                            raise HarnessError(f"violation without a case: {e}")
                        raise
                    failed = state["last"]
                    # A case that fails now and then may have been taken for
                    # a smaller one of the failure.
                    if test.confirm and failed[0] != state["first"][0] and not confirmed(failed[0]):
                        failed = state["first"]

            result["tests"][test.name] = {
                "evaluations": rec.evaluations,
                "keys": sorted(rec.keys),
                "tags": dict(rec.tags),
                "samples": rec.samples,
                "excluded": dict(rec.excluded),
                "known": rec_known,
                "skipped_after_budget": state["skipped"],
                "wall_s": round(time.monotonic() - test_start, 2),
            }
            if failed is not None:
                result["violations"].append({"test": test.name, "case": repr(failed[0]), "message": failed[1]})
                break
    except HarnessError as e:
        result["error"] = str(e)
    except BaseException as e:
        result["error"] = f"{type(e).__name__}: {e}\n{traceback.format_exc()}"
    finally:
        teardown = getattr(mod, "worker_teardown", None)
        if teardown:
            try:
                teardown()
            except Exception:
                pass
    tmp = out + ".tmp"
    with open(tmp, "w", encoding="utf-8", errors="surrogatepass") as fd:
        json.dump(result, fd)
    os.rename(tmp, out)
    sys.stdout.flush()
    os._exit(0)


def weight_share(test: Test, tests: list[Test], tier: str) -> float:
    shares = {x.name: getattr(x, "share", None) or 1.0 for x in tests}
    return shares[test.name] / sum(shares.values())


# --------------------------------------------------------------------------
# driver
# --------------------------------------------------------------------------


def load(prop: str) -> t.Any:
    sys.path.insert(0, str(VERIF / "lib"))
    sys.path.insert(0, str(VERIF / "checks"))
    src = str(REPO / "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    return importlib.import_module(prop.lower())


def known_findings(prop: str) -> list[dict[str, t.Any]]:
    path = VERIF / "known_findings.json"
    if not path.exists():
        return []
    return [f for f in json.loads(path.read_text())["findings"] if f["property"] == prop]


def scratch_root() -> pathlib.Path:
    base = pathlib.Path("/tmp")
    return base


def main() -> int:
    # Whoever started the check may have had these ignored, which every
    # process it starts would inherit.
    for sig in (signal.SIGINT, signal.SIGQUIT, signal.SIGHUP, signal.SIGTERM):
        if signal.getsignal(sig) == signal.SIG_IGN:
            signal.signal(sig, signal.SIG_DFL)
    signal.pthread_sigmask(signal.SIG_SETMASK, ())

    p = argparse.ArgumentParser()
    p.add_argument("property")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    p.add_argument("--workers", type=int, default=0)
    p.add_argument("--budget", type=float, default=0)
    p.add_argument("--replay")
    p.add_argument("--worker", type=int, default=-1)
    p.add_argument("--worker-count", type=int, default=1)
    p.add_argument("--out")
    args = p.parse_args()
    prop = args.property.upper()
    tier = "thorough" if args.tier == "thorough" else "quick"

    if args.worker >= 0:
        faulthandler.enable()
        faulthandler.register(signal.SIGUSR1)
        mod = load(prop)
        worker_main(mod, tier, args.seed, args.worker, args.worker_count, args.budget, args.out)
        return 0

    if args.replay:
        import_hypothesis()
        mod = load(prop)
        data = json.loads(pathlib.Path(args.replay).read_text())
        test = next(x for x in mod.TESTS if x.name == data["test"])
        if hasattr(mod, "worker_setup"):
            mod.worker_setup(0)
        try:
            _run_case(test, ast.literal_eval(data["case"]), Recorder())
        except Violation as v:
            print(v)
            print(f"VIOLATION property={prop} replay={args.replay}")
            sys.stdout.flush()
            os._exit(1)
        print("replay: holds")
        sys.stdout.flush()
        os._exit(0)

    started = time.monotonic()
    import_hypothesis()
    mod = load(prop)
    workers = args.workers or getattr(mod, "WORKERS", {}).get(tier, 8)
    budget = args.budget or getattr(mod, "BUDGET_S", {}).get(tier, 40 if tier == "quick" else 900)
    hard = budget + getattr(mod, "GRACE_S", 240)

    work = pathlib.Path(tempfile.mkdtemp(prefix=f"vf-{prop.lower()}-", dir="/tmp"))
    procs: list[tuple[subprocess.Popen[bytes], str, pathlib.Path]] = []
    rc = 2
    try:
        env = base_env()
        for i in range(workers):
            home = work / f"w{i}"
            (home / "tmp").mkdir(parents=True)
            wenv = dict(env, HOME=str(home), TMPDIR=str(home / "tmp"), VF_WORK=str(home), VF_RUN=str(work))
            out = str(work / f"out{i}.json")
            cmd = [PYTHON, str(VERIF / "lib" / "vf.py"), prop, "--tier", tier, "--seed", str(args.seed)]
            cmd += ["--worker", str(i), "--worker-count", str(workers), "--budget", str(budget), "--out", out]
            log = home / "log"
            with open(log, "wb") as fd:
                proc = subprocess.Popen(
                    cmd, cwd=str(home), env=wenv, stdin=subprocess.DEVNULL, stdout=fd, stderr=fd, start_new_session=True
                )
            procs.append((proc, out, log))
        results = []
        deadline = time.monotonic() + hard
        errors = []
        for proc, out, log in procs:
            try:
                proc.wait(max(1.0, deadline - time.monotonic()))
            except subprocess.TimeoutExpired:
                proc.send_signal(signal.SIGUSR1)
                time.sleep(0.5)
                errors.append(f"worker over the hard limit; log:\n{log.read_text(errors='replace')[-4000:]}")
                continue
            if not os.path.exists(out):
                errors.append(f"worker died rc={proc.returncode}; log:\n{log.read_text(errors='replace')[-4000:]}")
                continue
            with open(out, encoding="utf-8", errors="surrogatepass") as fd:
                results.append(json.load(fd))
        rc = report(mod, prop, tier, args.seed, results, errors, started)
    finally:
        for proc, _, _ in procs:
            try:
                os.killpg(proc.pid, signal.SIGKILL)
            except OSError:
                pass
        kill_strays(work)
        shutil.rmtree(work, ignore_errors=True)
    return rc


def kill_strays(work: pathlib.Path) -> None:
    """Ends processes of this run that left their session (they run in its scratch directory)."""
    me = os.getpid()
    for d in os.listdir("/proc"):
        if not d.isdigit() or int(d) == me:
            continue
        try:
            st = os.stat(f"/proc/{d}")
            if st.st_uid != os.getuid():
                continue
            # Only processes whose command line or cwd names our scratch tree
            # are looked at: those were started by this run.
            cwd = os.readlink(f"/proc/{d}/cwd")
            if cwd == str(work) or cwd.startswith(str(work) + "/"):
                os.kill(int(d), signal.SIGKILL)
        except OSError:
            continue


def report(mod: t.Any, prop: str, tier: str, seed: int, results: list[dict[str, t.Any]], errors: list[str], started: float) -> int:
    evaluations = 0
    keys: set[str] = set()
    tests: dict[str, dict[str, t.Any]] = {}
    samples: list[t.Any] = []
    violations = []
    known: dict[str, str] = {}
    inconclusive = []
    for r in results:
        if r["error"]:
            errors.append(r["error"])
        inconclusive += r["inconclusive"]
        violations += r["violations"]
        for name, d in r["tests"].items():
            agg = tests.setdefault(name, {"evaluations": 0, "keys": set(), "tags": collections.Counter(), "wall_s": 0.0, "skipped_after_budget": 0})
            agg["evaluations"] += d["evaluations"]
            agg["keys"] |= set(d["keys"])
            agg["tags"].update(d["tags"])
            agg["wall_s"] = max(agg["wall_s"], d["wall_s"])
            agg["skipped_after_budget"] += d["skipped_after_budget"]
            evaluations += d["evaluations"]
            keys |= {name + k for k in d["keys"]}
            known.update(d["known"])
            if len([s for s in samples if s["test"] == name]) < 3:
                samples += [{"test": name, "case": s} for s in d["samples"][:3]]
    cov = {
        "evaluations": evaluations,
        "distinct_nontrivial": len(keys),
        "rule": mod.RULE,
        "samples": samples[:12] or ["none"],
        "by_test": {
            n: {
                "evaluations": d["evaluations"],
                "distinct_nontrivial": len(d["keys"]),
                "classes": dict(sorted(d["tags"].items())),
                "wall_s": d["wall_s"],
                "cases_not_run_for_time": d["skipped_after_budget"],
            }
            for n, d in tests.items()
        },
        "inconclusive": inconclusive[:5],
    }
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - started, 2),
        "violations": len(violations),
    }
    (VERIF / "evidence").mkdir(exist_ok=True)
    path = VERIF / "evidence" / f"{prop}.json"
    path.write_text(json.dumps(evidence, indent=1, ensure_ascii=True) + "\n")

    for fid in sorted(known):
        print(f"KNOWN-FINDING: property={prop} {known[fid]}")
    print(f"{prop} {tier} seed={seed}: {evaluations} cases, {len(keys)} distinct non-trivial, {evidence['wall_s']} s")
    for n, d in tests.items():
        print(f"  {n}: {d['evaluations']} cases, {len(d['keys'])} non-trivial, {d['wall_s']} s, {dict(sorted(d['tags'].items()))}")
    for i in inconclusive[:3]:
        print(f"  inconclusive (did not repeat): {i['test']}: {i['message'][:300]}")
    if violations:
        # The shortest of the shrunk failures of each test.
        best: dict[str, dict[str, str]] = {}
        for v in violations:
            if v["test"] not in best or len(v["case"]) < len(best[v["test"]]["case"]):
                best[v["test"]] = v
        for v in best.values():
            (VERIF / "replays").mkdir(exist_ok=True)
            h = hashlib.sha1((v["test"] + v["case"]).encode("utf-8", "surrogatepass")).hexdigest()[:10]
            rp = VERIF / "replays" / f"{prop}-{v['test']}-{h}.json"
            rp.write_text(json.dumps({"property": prop, "test": v["test"], "case": v["case"], "message": v["message"]}, indent=1))
            print(f"--- {v['test']}: {v['message'][:3000]}")
            print(f"    case: {v['case'][:2000]}")
            print(f"VIOLATION property={prop} replay={rp}")
        sys.stdout.flush()
        return 1
    if errors:
        for e in errors[:3]:
            print(f"HARNESS ERROR: {e[:4000]}")
        sys.stdout.flush()
        return 2
    sys.stdout.flush()
    return 0


if __name__ == "__main__":
    # Workers and checks import this file as `vf`; make sure there is one copy.
    sys.modules.setdefault("vf", sys.modules["__main__"])
    sys.exit(main())
