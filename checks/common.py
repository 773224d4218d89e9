"""Shared helpers of the checks."""

import os
import sys
import json
import time

from ffmc.pool import Pool, Scratch, scenario, HarnessError, PYTHON, REPO, clean_env
from ffmc.report import Report
from ffmc.explore import explore
from ffmc import tree


class Check:
    """Context manager that owns the report, the scratch directory and the pools of a check."""

    def __init__(self, prop, level="model_checking"):
        self.report = Report(prop, level)
        self.scratch = Scratch(prop.lower())
        self.pools = {}
        self.pool_size = None
        self.first_cpu = 0
        self.start = time.monotonic()
        # leave room below the 900 s limit
        self.budget = 3000 if self.report.thorough else 420

    @property
    def thorough(self):
        return self.report.thorough

    @property
    def deadline(self):
        return self.start + self.budget

    def pool(self, **kwargs):
        key = json.dumps(kwargs, sort_keys=True, default=str)
        if key not in self.pools:
            self.pools[key] = Pool(self.scratch, num=self.pool_size,
                                   first_cpu=self.first_cpu, **kwargs)
        return self.pools[key]

    def tree(self, name, items):
        return tree.build(os.path.join(self.scratch.path, "trees", name), items)

    def __enter__(self):
        return self

    def __exit__(self, typ, exc, tb):
        for pool in self.pools.values():
            pool.close()
        self.scratch.close()
        if typ is not None and issubclass(typ, Exception) and self.report.violations:
            # What was found before is still true.
            import traceback
            traceback.print_exception(typ, exc, tb)
            self.report.exhaustive = False
            sys.exit(self.report.finish(aborted=repr(exc)))


def lines(result):
    """The lines of standard output as a sorted list of str."""
    out = result["out"].decode("utf-8", "surrogateescape")
    return sorted(out.split("\n")[:-1]) if out else []


def olines(result):
    out = result["out"].decode("utf-8", "surrogateescape")
    return out.split("\n")[:-1] if out else []


def err(result):
    return result["err"].decode("utf-8", "replace") if isinstance(result["err"], bytes) \
            else str(result["err"])


def has_traceback(result):
    return "Traceback (most recent call last)" in err(result)


def finished(result):
    """None if the program came to an end, otherwise a message."""
    if result.get("harness_error"):
        return "harness error: " + result["harness_error"]
    if result["verdict"][0] != "exit":
        return f"program does not terminate ({' '.join(map(str, result['verdict']))})"
    return None


def need(results):
    """Harness problems are errors of the check, never results."""
    for result in results:
        if "harness_error" in result:
            raise HarnessError(result["harness_error"])
    return results


GROUPS = int(os.environ.get("FFMC_GROUPS", "0"))


def _explore_job(check, job, outcome):
    """Explore one scenario; the result can be pickled."""
    name, scen, judge, bound, pool_args = job[:5]
    extra = job[5] if len(job) > 5 else {}
    if time.monotonic() > check.deadline:
        return {"skipped": True}
    pool = check.pool(**pool_args)
    start = time.monotonic()
    stats, violations = explore(pool, scen, judge, bound, name, deadline=check.deadline,
            outcome=outcome or (lambda r: (r["verdict"], r["code"], hash(r["out"]))), **extra)
    if stats.harness_errors:
        return {"error": f"{name}: {stats.harness_errors[0]}"}
    if stats.divergences:
        return {"error": f"{name}: {stats.divergences} divergences while replaying"}
    found = []
    for message, dev, result in violations:
        # A schedule is only believed if it fails the same way a second time.
        again = pool.map([{"scenario": scen, "deviations": dev}])[0]
        if "harness_error" in again or judge(again) is None:
            return {"error": f"{name}: schedule {dev} is not reproducible: {message}"}
        found.append((f"{name}: {message}", {
            "scenario": {k: v for k, v in scen.items() if k != "source_name"},
            "deviations": dev, "verdict": result["verdict"], "code": result["code"],
            "out": result["out"][-2000:], "err": err(result)[-2000:],
            "calls": result["calls"][:50]}))
    info = stats.as_dict()
    info["wall_s"] = round(time.monotonic() - start, 1)
    return {"info": info, "violations": found}


def explore_scenarios(check, jobs, outcome=None, groups=2):
    """Explore a list of (name, scenario, judge, bound, pool kwargs[, explore kwargs]); report all
       violations with their schedule.  The scenarios are shared between a few processes."""
    import pickle
    import multiprocessing
    report = check.report
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i][3])
    ctx = multiprocessing.get_context("fork")
    groups = GROUPS or groups
    todo = ctx.Value("i", 0)
    # pools made before belong to this process
    workers = []
    for number in range(min(groups, len(jobs))):
        rfd, wfd = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(rfd)
            status = 1
            try:
                check.pools = {}
                check.pool_size = max(1, (os.cpu_count() or 1) // groups)
                check.first_cpu = number * check.pool_size
                results = {}
                stop = False
                while not stop:
                    with todo.get_lock():
                        pos = todo.value
                        todo.value += 1
                    if pos >= len(order):
                        break
                    results[order[pos]] = _explore_job(check, jobs[order[pos]], outcome)
                    stop = "error" in results[order[pos]]
                for pool in check.pools.values():
                    pool.close()
                with os.fdopen(wfd, "wb") as fobj:
                    pickle.dump(results, fobj)
                status = 0
            except BaseException:
                import traceback
                traceback.print_exc()
                sys.stderr.flush()
            finally:
                os._exit(status)
        os.close(wfd)
        workers.append((pid, rfd))
    results = {}
    failed = False
    for pid, rfd in workers:
        with os.fdopen(rfd, "rb") as fobj:
            data = fobj.read()
        _, status = os.waitpid(pid, 0)
        if status:
            failed = True
        else:
            results.update(pickle.loads(data))
    errors = []
    for index, job in enumerate(jobs):
        result = results.get(index)
        if result is None or result.get("skipped"):
            report.exhaustive = False
            report.part(job[0], "not explored")
        elif "error" in result:
            errors.append(result["error"])
        else:
            report.add_info(job[0], result["info"])
            for message, replay in result["violations"]:
                report.violation(message, replay)
            report.sample({"part": job[0], "argv": job[1].get("argv") or job[1].get("source"),
                           "executions_per_level": result["info"]["executions_per_level"]})
    if errors or failed:
        raise HarnessError(errors[0] if errors else "a process of the check failed")


PLUGIN_DIR = os.path.join(os.path.dirname(os.path.abspath(__file__)), "plugins")
PLUGIN_ENV = {"FF_PLUGIN_DIRS": PLUGIN_DIR}


def case(key, argv, judge, cwd, nontrivial=True, **kwargs):
    """One run of the program with its judgement."""
    return key, scenario(["--no-cache"] + list(argv), cwd=cwd, **kwargs), judge, nontrivial


def run_cases(check, name, cases, known=None, chunk=4096, **pool_args):
    """Run a (possibly long) iterable of cases with the default schedule; `known` maps a key to the
       key of a known finding."""
    import itertools
    report = check.report
    pool = check.pool(**pool_args)
    start = time.monotonic()
    total = 0
    outcomes = set()
    bad = 0
    iterator = iter(cases)
    complete = True
    while True:
        part = list(itertools.islice(iterator, chunk))
        if not part:
            break
        if report.full or time.monotonic() > check.deadline:
            complete = False
            report.exhaustive = False
            break
        results = need(pool.map([{"scenario": c[1]} for c in part]))
        for (key, scen, judge, nontrivial), result in zip(part, results):
            total += 1
            message = finished(result) or judge(result)
            report.case((name, key), nontrivial)
            report.count("states")
            report.count("transitions", result["steps"])
            report.count("traces_validated_against_impl")
            outcomes.add((result["code"], result["out"]))
            if message:
                again = need(pool.map([{"scenario": scen}]))[0]
                if (finished(again) or judge(again)) is None:
                    raise HarnessError(f"{name} {key}: not reproducible: {message}")
                bad += 1
                if bad <= 40:
                    report.violation(f"{name}: {key}: {message}", {
                        "argv": scen.get("argv"), "source": scen.get("source"),
                        "env": scen.get("env"), "cwd": scen["cwd"], "code": result["code"],
                        "out": result["out"][-2000:], "err": err(result)[-2000:]},
                        key=known(key, result) if known else None)
    if total:
        report.sample({"part": name, "argv": part[0][1].get("argv") if part else scen.get("argv"),
                       "case": str(key)})
    report.part(name, {"runs": total, "distinct_outcomes": len(outcomes), "complete": complete,
                       "wall_s": round(time.monotonic() - start, 1)})


def expect_lines(expected, ordered=False, code=0):
    """Judge: the output consists of exactly these lines (a multiset unless `ordered`)."""
    expected = list(expected) if ordered else sorted(expected)

    def judge(result):
        got = olines(result) if ordered else lines(result)
        if got != expected or result["code"] != code:
            missing = [e for e in expected if e not in got]
            extra = [e for e in got if e not in expected]
            return f"missing {missing[:4]!r} extra {extra[:4]!r} status {result['code']} " \
                   f"(expected {expected[:6]!r}{'...' if len(expected) > 6 else ''}, status {code}, " \
                   f"got {got[:6]!r}) {err(result)[-150:]!r}"
        return None
    return judge


def expect_error(codes=(2, 10, 11, 12), silent=True):
    """Judge: the program refuses the arguments with a message, without a traceback or results."""
    def judge(result):
        if result["code"] not in codes:
            return f"status {result['code']} instead of an error, output {result['out'][:200]!r} " \
                   f"{err(result)[-200:]!r}"
        if has_traceback(result):
            return f"traceback: {err(result)[-300:]!r}"
        if not err(result).strip():
            return "no error message"
        if silent and result["out"]:
            return f"error with output {result['out'][:200]!r}"
        return None
    return judge


REAL_ENV_EXTRA = {}


def real_runs(check, cases, env=None):
    """Run a few of the cases with the real program and real processes."""
    import subprocess
    base = clean_env(check.scratch.home, {"PYTHONPATH": REPO, **(env or {})})
    for key, scen, judge, _ in cases:
        try:
            proc = subprocess.run([PYTHON, "-m", "ff"] + list(scen["argv"]), cwd=scen["cwd"],
                                  env={**base, **(scen.get("env") or {})}, capture_output=True,
                                  timeout=120, stdin=subprocess.DEVNULL)
        except subprocess.TimeoutExpired:
            check.report.violation(f"real run {key}: does not end", {"argv": scen["argv"]})
            continue
        check.report.count("traces_validated_against_impl")
        check.report.count("real_runs")
        result = {"verdict": ("exit", ""), "code": proc.returncode, "out": proc.stdout,
                  "err": proc.stderr, "calls": [], "faults": []}
        message = judge(result)
        if message:
            check.report.violation(f"real run {key}: {message}",
                                   {"argv": scen["argv"], "err": err(result)[-2000:]})
