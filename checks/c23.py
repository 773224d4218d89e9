"""C23: a result is only presented as complete if it is."""

import collections

from .common import *

TREE = [("f", "a/f1"), ("f", "a/b/f2"), ("d", "c"), ("f", "g1")]
BOOM = TREE + [("f", "a/boom1")]

API = """
from ff import Find
from libff.exceptions import ProcessError
try:
    for entry in Find({args}, cache=None, jobs={jobs}):
        print(entry["path"])
    print("complete")
except ProcessError:
    print("incomplete")
"""


def is_part(part, whole):
    return not collections.Counter(part) - collections.Counter(whole)


def parse_plain(result):
    return lines(result)


def parse_jsonl(result):
    return sorted(json.loads(line)["path"] for line in olines(result))


def parse_json(result):
    return sorted(record["path"] for record in json.loads(result["out"])) if result["out"] else []


def parse_calls(result):
    return sorted(c["args"][1] for c in result["calls"])


def parse_batch(result):
    return sorted(arg for c in result["calls"] for arg in c["args"][1:])


def complete(expected, parse=parse_plain, partial=True, codes=(4,), failing=False):
    """Judge: either all of the result or a status that says otherwise."""
    expected = sorted(expected)

    def judge(result):
        message = finished(result)
        if message:
            return message
        fault = result["faults"][0][0] if result["faults"] else None
        try:
            got = parse(result)
        except ValueError:
            got = None
        code = result["code"]
        if fault is None and got != expected and code == 0:
            return f"{got} instead of {expected}, status 0"
        if got == expected:
            # nothing is lost
            if fault is None and code != (3 if failing else 0):
                return f"complete result with status {code}"
            if fault in ("kill", None) and code not in ((3, 4) if failing else (0, 4)):
                return f"complete result with status {code} after {result['faults']}"
            return None
        if got is not None and fault not in ("enospc", "epipe") and partial and \
                not is_part(got, expected):
            return f"{got} is no part of {expected}"
        if fault == "epipe":
            # nobody reads the result
            return None
        if fault == "kill":
            if code not in ((3, 4) if failing else codes):
                return f"status {code} although a process was killed and only {got} of {expected} " \
                       f"is there; {result['faults']} {err(result)[-200:]!r}"
            if not err(result):
                return f"no message about the incomplete result; {result['faults']}"
        elif code == 0:
            return f"status 0 although only {got} of {expected} is there; {result['faults']}"
        return None
    return judge


def complete_count(total):
    def parse(result):
        found = [line for line in olines(result) if line.startswith("_total=")]
        return found

    return complete([f"_total={total}"], parse, partial=False)


def complete_api(expected):
    expected = sorted(expected)

    def judge(result):
        message = finished(result)
        if message:
            return message
        got = olines(result)
        if result["code"] != 0:
            fault = result["faults"][0][0] if result["faults"] else None
            return None if fault in ("interrupt", "enospc") else f"status {result['code']} {err(result)[-300:]!r}"
        if not got or got[-1] not in ("complete", "incomplete"):
            return f"no end: {got}"
        entries = sorted(got[:-1])
        if got[-1] == "complete" and entries != expected:
            return f"iteration ends normally after {entries} instead of {expected}; {result['faults']}"
        if not is_part(entries, expected):
            return f"{entries} is no part of {expected}"
        if not result["faults"] and got[-1] != "complete":
            return "iteration fails without a reason"
        return None
    return judge


def one_fault(dev, choice, alt):
    """One fault and one deviation of the schedule."""
    if not dev:
        return True
    return (alt in "kin") != (dev[-1][1] in "kin")


def one_fault_few(dev, choice, alt):
    """The same, with deviations only where items are handed over or processes wait."""
    if alt not in "kin" and choice[4] not in ("q_get", "b_wait", "b_enter", "q_put"):
        return False
    return one_fault(dev, choice, alt)


def faults(check, root, boom):
    paths = tree.walk(root)
    sub = {"install": {"subprocess": True}}
    fast = {"timeout_scale": 20, "max_steps": 20000, "stall": 0.5}
    jobs = []

    def add(name, argv, judge, bound=1, pool=None, options=None, cwd=root, source=None, calls=None, **kw):
        jobs.append((f"{name}: {source or ' '.join(argv)}",
                     scenario(None if source else ["--no-cache"] + argv, cwd=cwd, source=source,
                              options={**fast, **(options or {})}, calls=calls),
                     judge, bound, pool or {}, kw))

    modes = [
        ([], complete(paths)),
        (["-S"], complete(paths)),
        (["--jsonl"], complete([os.path.join(root, p) for p in paths], parse_jsonl)),
        (["--json"], complete([os.path.join(root, p) for p in paths], parse_json)),
        (["--count"], complete_count(len(paths))),
        (["-l", ":100"], complete(paths)),
        (["--fail"], complete(paths)),
        (["-x", "cmd"], complete(paths, parse_calls)),
        (["-S", "-x", "cmd"], complete(paths, parse_calls)),
        (["-X", "cmd"], complete(paths, parse_batch)),
    ]
    for num in (1, 2, 3):
        for extra, judge in modes:
            pool = sub if "cmd" in extra else {}
            argv = [f"-j{num}"] + extra
            add("killed process", argv, judge, 1, pool, {"alternatives": "k"})
            if num < 3:
                add("interrupt", argv, judge, 1, pool, {"alternatives": "i"})
            if "cmd" not in extra and num < 3:
                add("full disk", argv, judge, 1, pool, {"vstdout": True, "alternatives": "n"})
            if num == 2 and extra in ([], ["-S"], ["--count"]) or check.thorough:
                add("killed process+schedule", argv, judge, 2, pool, {"alternatives": "kysd"},
                    restrict=one_fault if check.thorough else one_fault_few)
    # the same with a smaller tree
    micro = check.tree("micro", [("f", "a/f1")])
    some = ["a", "a/f1"]
    for extra, parse in ((["-x", "cmd"], parse_calls), (["-S", "-x", "cmd"], parse_calls),
                         (["-X", "cmd"], parse_batch), (["--jsonl"], parse_jsonl),
                         (["--json"], parse_json)):
        names = [os.path.join(micro, p) for p in some] if "json" in extra[0] else some
        add("killed process+schedule", ["-j2"] + extra, complete(names, parse), 2,
            sub if "cmd" in extra else {}, {"alternatives": "kysd"}, cwd=micro,
            restrict=one_fault if check.thorough else one_fault_few)
    add("full disk+schedule", ["-j2"], modes[0][1], 2, {}, {"vstdout": True, "alternatives": "nys"},
        restrict=one_fault if check.thorough else one_fault_few)
    add("killed process, failing commands", ["-j2", "-x", "cmd"],
        complete(paths, parse_calls, failing=True), 1, sub, {"alternatives": "k"},
        calls={"default": {"code": 1}})
    for num in (1, 2):
        for code in (1, 255, -9, -15):
            # every status of a command that is not 0 is a failure
            for extra, parse in ((["-x", "cmd"], parse_calls), (["-S", "-x", "cmd"], parse_calls), (["-X", "cmd"], parse_batch)):
                for rules in ({"default": {"code": code}}, {"rules": [["f1", {"code": code}]], "default": {}}):
                    add("failing commands", [f"-j{num}"] + extra, complete(paths, parse, failing=True), 0, sub, {}, calls=rules)
    for num in (1, 2):
        for args in ("output=['path']", "output=['path'], sort=['path']", "'type=f', output=['path']"):
            expected = paths if "type" not in args else [p for p in paths if p[-1] in "12"]
            source = API.format(args=args, jobs=num)
            add("API, killed process", [], complete_api(expected), 1, {}, {"alternatives": "k"},
                source=source)
            add("API, interrupt", [], complete_api(expected), 1, {}, {"alternatives": "i"},
                source=source)
            if num == 2 and "type" not in args:
                add("API, killed process+schedule", [], complete_api(expected), 2, {},
                    {"alternatives": "kysd"}, source=source,
                    restrict=one_fault if check.thorough else one_fault_few)

    # an exception at any entry
    everything = tree.walk(boom)
    plugins = {"extra_env": PLUGIN_ENV}
    deep = 2 if check.thorough else 1
    for num in (1, 2):
        for extra in ([], ["-S"], ["--count"], ["--jsonl"], ["--fail"], ["--json"]):
            add("exception", [f"-j{num}", "type=f", "not", "boom.num=7"] + extra,
                broken(everything), deep, plugins, cwd=boom)
        for extra in (["-o", "path,boom.num", "--all"], ["--jsonl", "-o", "path,boom.num"],
                      ["--json", "-o", "path,boom.num"], ["-S", "boom.num"], ["--count", "boom.num"]):
            add("exception", [f"-j{num}"] + extra, broken(everything), 1, plugins, cwd=boom)
        for extra in (["-x", "cmd", "{boom.num}"], ["-X", "cmd", "{boom.num}"],
                      ["-S", "-x", "cmd", "{boom.num}"]):
            add("exception", [f"-j{num}"] + extra, broken(everything), 1, {**plugins, **sub}, cwd=boom)
        add("API, exception", [], broken_api, deep, plugins, cwd=boom,
            source=API.format(args="'not boom.num=7', output=['path']", jobs=num))
    explore_scenarios(check, jobs, groups=8, outcome=lambda r: (
        r["verdict"][0], r["code"], hash(r["out"]), len(r["calls"]), tuple(r["faults"])))


def broken(everything):
    """Judge: an attribute of one entry raises an exception."""
    def judge(result):
        message = finished(result)
        if message:
            return message
        if result["code"] == 0:
            return f"status 0 although an attribute could not be computed, output {result['out'][:200]!r}"
        if result["code"] == 1 and not has_traceback(result):
            return "status 1 says that there was no result"
        if not err(result):
            return "no message"
        return None
    return judge


def broken_api(result):
    message = finished(result)
    if message:
        return message
    got = olines(result)
    if got[-1:] == ["complete"]:
        return f"the iteration ends as if it was complete: {got}"
    return None


def main():
    with Check("C23") as check:
        root = check.tree("tiny", TREE)
        boom = check.tree("boom", BOOM)
        faults(check, root, boom)
        conformance(check, boom)
        check.report.assumptions += [
            "a killed process does not hold the semaphore inside a multiprocessing primitive",
            "a full disk stays full until the end of the program"]
        return check.report.finish(
            rule="SIGKILL of a worker, SIGINT of the main process, ENOSPC on standard output at every "
                 "operation on a shared object, alone and together with every single deviation of the "
                 "schedule; an attribute that raises an exception, in every place it is used")


def conformance(check, boom):
    """Real processes and a device that is really full."""
    import subprocess
    env = clean_env(check.scratch.home, {"PYTHONPATH": REPO, **PLUGIN_ENV})
    for argv in (["-j2", "boom.num=1"], ["-j2", "-S", "boom.num"], ["-j1", "-o", "boom.num"]):
        proc = subprocess.run([PYTHON, "-m", "ff", "--no-cache"] + argv, cwd=boom, env=env,
                              capture_output=True, timeout=100)
        check.report.count("traces_validated_against_impl")
        if proc.returncode in (0, 1) and not b"Traceback" in proc.stderr:
            check.report.violation(f"real run {argv}: status {proc.returncode}", {"argv": argv})
    for argv in (["-j2"], ["-j1", "-S"], ["-j2", "--json"], ["-j2", "--jsonl"], ["-j2", "--count"], ["-V"],
                 ["--count", "--json"], ["-h"], ["--help-full"], ["--help-attributes"]):
        with open("/dev/full", "wb") as full:
            proc = subprocess.run([PYTHON, "-m", "ff"] + argv, cwd=boom, env=env,
                                  stdout=full, stderr=subprocess.PIPE, timeout=100)
        check.report.count("traces_validated_against_impl")
        if proc.returncode == 0:
            check.report.violation(f"real run {argv} with a full disk: status 0", {"argv": argv})
