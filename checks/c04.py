"""C04: --exec runs one command per matching entry, and --halt and the exit status are right."""

from .common import *

TREE = [("f", "a/f1"), ("f", "a/b/f2"), ("d", "c"), ("f", "g1")]
ENV = {"FF_PLUGIN_DIRS": os.path.join(os.path.dirname(os.path.abspath(__file__)), "plugins")}


def expected_calls(root, match=lambda e: True, limit=None):
    entries = [e for e in tree.walk(root) if match(e)]
    return [["cmd", e] for e in (entries[:limit] if limit is not None else entries)]


def judge_calls(expected, halt="never", ordered=False, any_of=None):
    """All commands run once with the right arguments; failures are reported."""
    def judge(result):
        message = finished(result)
        if message:
            return message
        calls = result["calls"]
        args = [c["args"] for c in calls]
        twice = [a for a in args if args.count(a) > 1]
        if twice:
            return f"command {twice[0]} ran {args.count(twice[0])} times"
        extra = [a for a in args if a not in expected]
        if extra:
            return f"unexpected command {extra[0]}"
        failed = [c for c in calls if c["code"] != 0]
        if halt == "never" or not failed:
            missing = [a for a in expected if a not in args]
            if any_of is None and missing:
                return f"command {missing[0]} did not run, {len(missing)} missing, status " \
                       f"{result['code']} {err(result)[-200:]!r}"
            if any_of is not None and len(args) != any_of:
                return f"{len(args)} commands instead of {any_of}"
        for call in calls:
            if call["code"] is None:
                return f"command {call['args']} is still running at the end"
        if halt in ("never", "soon"):
            killed = [c for c in calls if c["killed"] is not None]
            if killed:
                return f"command {killed[0]['args']} was killed with --halt {halt}"
        if halt in ("soon", "now") and failed:
            first = min((c for c in failed if c["killed"] is None), key=lambda c: c["end"] or 0,
                        default=None)
            if first is None:
                return "commands were killed although none had failed"
            end = first["end"] if first["end"] is not None else first["start"]
            late = [c for c in calls if c["start"] > end + 0.5]
            if late:
                return f"--halt {halt}: {late[0]['args']} was started {late[0]['start'] - end:.1f}s " \
                       f"after {first['args']} had failed"
            if halt == "now":
                for call in calls:
                    if call["killed"] is None and call["end"] is not None and \
                            call["end"] > end + 0.5:
                        return f"--halt now: {call['args']} was still running " \
                               f"{call['end'] - end:.1f}s after {first['args']} had failed"
        code = 3 if failed else 0
        if result["code"] != code:
            return f"exit status {result['code']} instead of {code} with {len(failed)} failures"
        if failed:
            # With --halt now nobody waits for a command that ends when the others have to stop.
            texts = [f"(success: {len(calls) - num}, failure: {num})"
                     for num in range(len(failed), len(calls) + 1 if halt == "now"
                                      else len(failed) + 1)]
            if not any(text in err(result) for text in texts):
                return f"expected {texts}, got {err(result)[-200:]!r}"
        return None
    return judge


def main():
    with Check("C04") as check:
        root = check.tree("tiny", TREE)
        many = check.tree("many", tree.files("f", 12) + tree.files("d/f", 12))
        names = check.tree("names", [("f", n) for n in
                           ("a b", "-n", "$(x)", "*", "a'b", 'q"q', "ü", "nl\nx", "b\\s", "{}")])
        sub = {"install": {"subprocess": True}}
        deep = 2 if check.thorough else 1
        jobs = []

        def add(name, argv, cwd, judge, bound=1, calls=None, options=None, pool=sub, **kw):
            jobs.append((f"{name}: {' '.join(argv)}",
                         scenario(["--no-cache"] + argv, cwd=cwd, calls=calls, options=options),
                         judge, bound, pool, kw))

        everything = expected_calls(root)
        for num in (1, 2, 3):
            for sort in ([], ["-S"], ["-S", "path", "-R"], ["--no-parent-ignore", "-l", "0:100"]):
                add("all succeed", [f"-j{num}"] + sort + ["-x", "cmd"], root,
                    judge_calls(everything), deep if num == 2 else 1)
        for num in (1, 2):
            add("test", [f"-j{num}", "type=f", "-x", "cmd"], root,
                judge_calls(expected_calls(root, lambda e: e[-1] in "12")), deep)
            add("limit", [f"-j{num}", "-S", "-l", "0:2", "-x", "cmd"], root,
                judge_calls(everything[:2]), 1)
            add("limit, any order", [f"-j{num}", "-l", "0:2", "-x", "cmd"], root,
                judge_calls(everything, any_of=2), 1)
            add("names", [f"-j{num}", "-x", "cmd"], names, judge_calls(expected_calls(names)), 1)
            add("missing attribute", [f"-j{num}", "-x", "cmd", "{link}"], root, judge_calls([]), 1)
        add("many", ["-j2", "-x", "cmd"], many, judge_calls(expected_calls(many)), 1)
        add("many", ["-j4", "-S", "-x", "cmd"], many, judge_calls(expected_calls(many)), 1)
        # commands that cannot be run at all
        missing = {"rules": [["f1", {"errno": 2}]], "default": {}}

        for halt in ("never", "soon", "now"):
            # If nothing stops early there is no need to wait for a long time.
            unit = 0.1 if halt == "never" else 1
            for num in (1, 2, 3):
                for sort in ([], ["-S"]):
                    base = [f"-j{num}"] + sort + ["--halt", halt, "-x", "cmd"]
                    bound = deep if num == 2 else 1
                    add("one fails", base, root, judge_calls(everything, halt), bound,
                        {"rules": [["f1", {"code": 1, "duration": unit}]],
                         "default": {"duration": 2 * unit}})
                    add("first fails", base, root, judge_calls(everything, halt), 1,
                        {"rules": [["c", {"code": 7}]], "default": {"duration": unit}})
                    add("all fail", base, root, judge_calls(everything, halt), 1,
                        {"default": {"code": 1, "duration": 0.3}})
                    if num < 3:
                        add("killed by a signal", base, root, judge_calls(everything, halt), 1,
                            {"rules": [["f2", {"code": -9, "duration": unit}]],
                             "default": {"duration": unit}})
                        add("not found", base, root, judge_calls(everything, halt), 1, missing)
            add("many", ["-j3", "--halt", halt, "-x", "cmd"], many,
                judge_calls(expected_calls(many), halt), 1,
                {"rules": [["f005", {"code": 1, "duration": unit}]],
                 "default": {"duration": 1.5 * unit}}, {"max_vtime": 300, "max_steps": 40000,
                                                 "timeout_scale": 20})
        explore_scenarios(check, jobs,
                outcome=lambda r: (r["verdict"][0], r["code"],
                                   tuple((tuple(c["args"]), c["code"]) for c in r["calls"])), groups=8)
        conformance(check, root)
        check.report.assumptions += [
            "commands are replaced by stand-ins that end after a given virtual time with a given "
            "status (conformance runs use real commands)"]
        return check.report.finish(
            rule="every execution with at most the given number of scheduler deviations")


def conformance(check, root):
    """Real commands."""
    import subprocess
    env = clean_env(check.scratch.home, {"PYTHONPATH": REPO})
    log = os.path.join(check.scratch.path, "log")
    script = os.path.join(check.scratch.path, "cmd.sh")
    with open(script, "w", encoding="utf-8") as fobj:
        fobj.write(f'echo "$1" >> {log}\ntest "${{1%f1}}" = "$1"\n')
    everything = [c[1] for c in expected_calls(root)]
    for argv in (["-j2"], ["-j3", "-S"]):
        for fail in (False, True):
            open(log, "w", encoding="utf-8").close()
            test = [] if fail else ["name~^[^f]|2"]
            proc = subprocess.run([PYTHON, "-m", "ff", "--no-cache", *test, *argv, "-x", "sh",
                                   script, "{}"], cwd=root, env=env, capture_output=True,
                                  timeout=100)
            got = sorted(open(log, encoding="utf-8").read().split("\n")[:-1])
            expected = [e for e in everything if fail or not e.endswith("f1")]
            check.report.count("traces_validated_against_impl")
            if got != expected or proc.returncode != (3 if fail else 0):
                check.report.violation(f"real commands {argv} {test}: {got} instead of {expected}, "
                                       f"status {proc.returncode}",
                                       {"err": proc.stderr.decode()[-1000:]})
