"""C05: --exec-batch passes every argument once and in order, splitting as necessary."""

import itertools

from .common import *

NAMES = ["f00", "f01.x", "f02", "f03.x", "f04", "f05", "f06.tar.gz", "f07", "f08", "f09", "f10",
         "f11.x"]
ODD = ["a b", "-n", "$(x)", "*", "a'b", 'q"q', "ü", "nl\nx", "b\\s", "{}", "{{name}}", "%s", "\udcff",
       " ", "\t"]


def render(template, names, everything=False):
    """The reference: the arguments after the fixed first one; names in the current directory."""
    values = {
        "{}": lambda n: n, "{/}": lambda n: n, "{//}": lambda n: "",
        "{.}": lambda n: os.path.splitext(n)[0], "{/.}": lambda n: os.path.splitext(n)[0],
        "{..}": lambda n: os.path.splitext(n)[1][1:], "{name}": lambda n: n,
        "{link}": lambda n: None, "{link:n}": lambda n: "", "{type}": lambda n: "file",
        "{size}": lambda n: str(len(n)), "{file.size:x}": lambda n: f"{len(n):x}",
    }
    out = []
    template = list(template)
    if not any(isinstance(part, tuple) for part in itertools.chain(*template)):
        template.append([("{}",)])
    for parts in template:
        if any(isinstance(part, tuple) for part in parts):
            for name in names:
                values_of = [values[p[0]](name) if isinstance(p, tuple) else p for p in parts]
                if everything:
                    values_of = [v or "" for v in values_of]
                if None not in values_of:
                    out.append("".join(values_of))
        else:
            out.append("".join(parts))
    return out


def argv_of(template):
    def escape(text):
        return text.replace("{", "{{").replace("}", "}}")
    return ["".join(p[0] if isinstance(p, tuple) else escape(p) for p in parts)
            for parts in template]


def partition(calls, names, template, everything):
    """Whether the calls get consecutive groups of the names."""
    reach = {0}
    for args in calls:
        new = set()
        for start in reach:
            for end in range(start + 1, len(names) + 1):
                if render(template, names[start:end], everything) == args:
                    new.add(end)
        reach = new
        if not reach:
            return False
    return len(names) in reach


def judge_batch(names, template=(), fits=lambda n: True, limit_args=None, limit_bytes=None,
                everything=False, fail=(), missing=False, anyorder=False):
    """`names` in the order in which they are expected."""
    def size(args):
        return sum(len(os.fsencode(a)) + 1 for a in ["cmd"] + args)

    def ok(args):
        return (limit_args is None or len(args) + 1 <= limit_args) and \
            (limit_bytes is None or size(args) <= limit_bytes)

    def judge(result):
        started = [c for c in result["calls"] if c["code"] is None or c["code"] > -1000]
        refused = [c for c in result["calls"] if c["code"] is not None and c["code"] <= -1000]
        if any(c["code"] is None for c in started):
            return "a command is still running at the end"
        if any(c["args"][0] != "cmd" for c in result["calls"]):
            return f"wrong command {result['calls'][0]['args'][:3]}"
        args = [c["args"][1:] for c in started]
        if missing:
            if result["code"] != 3 or started or not err(result).strip() or has_traceback(result):
                return f"command cannot be started, status {result['code']} " \
                       f"{err(result)[-200:]!r}"
            if len(refused) > 1:
                # only a command that is too long is worth another attempt
                return f"{len(refused)} attempts to start a command that cannot be started"
            return None
        if not names:
            if result["calls"] or result["code"] != 0:
                return f"no entries, status {result['code']}, calls {args}"
            return None
        if anyorder:
            if len(started) != 1 or sorted(args[0]) != sorted(render(template, names, everything)):
                return f"one command with all entries expected: {args} {err(result)[-200:]!r}"
        elif not all(ok(render(template, [n], everything)) for n in names):
            # There is an entry that can never be passed: this must not go unnoticed.
            if result["code"] != 3 or not err(result).strip() or has_traceback(result):
                return f"an entry is too long, status {result['code']} {err(result)[-200:]!r}"
            if not any(partition(args, names[:n], template, everything)
                       for n in range(len(names))):
                return f"wrong arguments before the entry that is too long: {args}"
            return None
        elif ok(render(template, names, everything)):
            if args != [render(template, names, everything)]:
                return f"one command with {render(template, names, everything)} expected, " \
                       f"got {args} {err(result)[-200:]!r}"
        elif not partition(args, names, template, everything):
            return f"arguments are lost, repeated or in the wrong order: {args} of {names} " \
                   f"{err(result)[-200:]!r}"
        if any(not ok(a) for a in args):
            return "harness: accepted command is too long"
        failed = [c for c in started if c["code"] != 0]
        if fail and not failed:
            return "no command failed"
        if result["code"] != (3 if failed else 0):
            return f"status {result['code']}, {len(failed)} of {len(started)} commands failed"
        if has_traceback(result):
            return f"traceback {err(result)[-300:]!r}"
        del refused
        return None
    return judge


F = ("{}",)
TEMPLATES = [
    [], [[F]], [["-a"], [F], ["-z"]], [["x", F, "y"]], [[F], [("{/}",)]],
    [[("{.}",)], ["m"], [("{..}",)]], [[("{/.}",), ".", ("{..}",)]], [[("{link}",)]],
    [[("{link:n}",)]], [[("{name}",), ("{link}",)], ["end"]], [["{"], ["}"], [F]],
    [["lit{x}"]], [[("{//}",), "/", ("{/}",)]], [[("{size}",), "=", ("{type}",), "=",
                                                  ("{file.size:x}",)]],
    [["only", "text"], [""]], [[F, F]], [["{", F, "}"]],
]


def main():
    with Check("C05") as check:
        roots = {}
        for num in list(range(len(NAMES) + 1)):
            roots[num] = check.tree(f"n{num}", [("f", n, n) for n in NAMES[:num]])
        odd = check.tree("odd", [("f", n, b"x" * len(n)) for n in ODD])
        sub = {"install": {"subprocess": True}}

        def run(key, options, template, cwd, names, calls=None, **kw):
            argv = ["--no-cache", "-j1"] + options + ["-X", "cmd"] + argv_of(template)
            calls = dict(calls or {})
            return key, scenario(argv, cwd=cwd, calls=calls), judge_batch(
                names, template, limit_args=calls.get("e2big_args"),
                limit_bytes=calls.get("e2big_bytes"), **kw), True

        def sizes():
            top = len(NAMES) if check.thorough else 9
            for num in range(top + 1):
                names = sorted(NAMES[:num])
                for limit in range(1, num + 4):
                    for order in ((["-S"], names), (["-S", "-R"], names[::-1]),
                                  (["-S", "size,name"], sorted(names, key=lambda n: (len(n), n)))):
                        for template in ([], [["-a"], [F], ["-z"]]):
                            yield run(f"{num} entries, {limit} arguments, {order[0]} {template}",
                                      order[0], template, roots[num], order[1],
                                      {"e2big_args": limit})
                # each command may fail
                for limit in (None, 2, 3, 4):
                    for bad in names:
                        yield run(f"{num} entries, {limit} arguments, {bad} fails", ["-S"], [],
                                  roots[num], names,
                                  {"e2big_args": limit, "rules": [[bad, {"code": 1}]]}, fail=True)
                        yield run(f"{num} entries, {limit} arguments, all but {bad} fail", ["-S"],
                                  [], roots[num], names,
                                  {"e2big_args": limit, "rules": [[bad, {"code": 0}]],
                                   "default": {"code": 255}})
                # a signal, and a command that takes its time
                yield run(f"{num} entries, signal", ["-S"], [], roots[num], names,
                          {"default": {"code": -9, "duration": 20}})
                if num:
                    for code in (2, 13, 8, 12):
                        yield run(f"{num} entries, errno {code}", ["-S"], [], roots[num], names,
                                  {"default": {"errno": code}}, missing=True)

        def lengths():
            # one entry that is much longer than the others at each position
            for num in range(1, 8):
                for pos in range(num):
                    names = [f"n{i}" + ("x" * 30 if i == pos else "") for i in range(num)]
                    root = check.tree(f"long{num}-{pos}", [("f", n) for n in names])
                    for limit in range(6, 60, 3):
                        yield run(f"{num} entries, {pos} is long, {limit} bytes", ["-S"], [], root,
                                  names, {"e2big_bytes": limit})

        def templates():
            names = sorted(NAMES[:5])
            for template in TEMPLATES:
                for everything in (False, True):
                    for limit in (None, 1, 2, 3, 4, 5, 6, 7):
                        if limit is not None and any(("{link}",) in parts for parts in template) \
                                and not everything:
                            continue
                        yield run(f"{template} {everything} {limit}",
                                  ["-S"] + (["--all"] if everything else []), template, roots[5],
                                  names, {"e2big_args": limit}, everything=everything)
            for template in ([], [[F]], [["x", F]], [[("{name}",)]]):
                yield run(f"odd names {template}", ["-S"], template, odd, sorted(
                    ODD, key=lambda n: n))
                for limit in (2, 3, 5):
                    yield run(f"odd names {template} {limit}", ["-S", "-R"], template, odd,
                              sorted(ODD)[::-1], {"e2big_args": limit})

        def slices():
            names = sorted(NAMES[:6])
            for start in ("", "-7", "-2", "0", "1", "3", "6", "9"):
                for stop in ("", "-7", "-1", "0", "2", "6", "9"):
                    expected = names[int(start) if start else None:int(stop) if stop else None]
                    for limit in (None, 3):
                        yield run(f"{start}:{stop} {limit}", ["-S", "-l", f"{start}:{stop}"], [],
                                  roots[6], expected, {"e2big_args": limit})
            for size, page in itertools.product((1, 2, 4, 6, 7), (0, 1, 2, 5)):
                yield run(f"{size},{page}", ["-S", "-R", "-l", f"{size},{page}"], [], roots[6],
                          names[::-1][size * page:size * page + size])
            yield run("-1", ["-S", "-1"], [], roots[6], names[:1])
            for tests in (["name=f03.x"], ["ext=x"], ["name=nothing"], ["size+4"]):
                expected = [n for n in names if {"name=f03.x": n == "f03.x", "ext=x":
                            n.endswith(".x"), "name=nothing": False, "size+4": len(n) > 4}[tests[0]]]
                yield run(f"{tests}", tests + ["-S"], [], roots[6], expected)

        run_cases(check, "numbers and limits", sizes(), **sub)
        run_cases(check, "long entries", lengths(), **sub)
        run_cases(check, "templates", templates(), **sub)
        run_cases(check, "slices", slices(), **sub)

        # the interleavings of the processes that collect the entries
        deep = 2 if check.thorough else 1
        spread = check.tree("spread", [("f", f"d{i}/g{j}") for i in range(3) for j in range(2)])
        paths = sorted(f"d{i}/g{j}" for i in range(3) for j in range(2))
        jobs = []
        for num in (1, 2, 3):
            for limit in (None, 3):
                calls = {"e2big_args": limit}
                jobs.append((f"-j{num} sorted, at most {limit} arguments",
                             scenario(["--no-cache", f"-j{num}", "type=f", "-S", "-X", "cmd"],
                                      cwd=spread, calls=calls),
                             judge_batch(paths, limit_args=limit), deep if num == 2 else 1, sub))
            jobs.append((f"-j{num} unsorted",
                         scenario(["--no-cache", f"-j{num}", "type=f", "-X", "cmd"], cwd=spread,
                                  calls={}), judge_batch(paths, anyorder=True),
                         deep if num == 2 else 1, sub))
            jobs.append((f"-j{num} sorted slice, failing",
                         scenario(["--no-cache", f"-j{num}", "type=f", "-S", "-R", "-l", "1:4",
                                   "-X", "cmd"], cwd=spread, calls={"default": {"code": 1}}),
                         judge_batch(paths[::-1][1:4], fail=True), 1, sub))
        explore_scenarios(check, jobs, groups=4,
                          outcome=lambda r: (r["verdict"][0], r["code"],
                                             tuple((tuple(c["args"]), c["code"])
                                                   for c in r["calls"])))
        conformance(check)
        check.report.assumptions += [
            "commands are stand-ins; the limit for the length of a command line is a parameter"]
        return check.report.finish(
            rule="every number of entries, argument limit, byte limit, template, slice and failing "
                 "command within the bounds; every execution with at most the given number of "
                 "scheduler deviations")


def conformance(check):
    """Real commands and the limit of the real system."""
    import subprocess
    env = clean_env(check.scratch.home, {"PYTHONPATH": REPO})
    log = os.path.join(check.scratch.path, "log")
    script = os.path.join(check.scratch.path, "cmd.sh")
    with open(script, "w", encoding="utf-8") as fobj:
        fobj.write(f'printf "%s\\0" "$@" >> {log}\n'
                   f'printf "\\0" >> {log}; for i; do case "$i" in *f03*) exit 9; esac; done\n')
    root = check.tree("real", [("f", "a" * 100 + "/" + "b" * 200 + f"/{'c' * 200}{i:04d}")
                               for i in range(5000)])
    small = check.tree("real-small", [("f", n) for n in NAMES])
    for cwd, argv, code in ((small, ["-j2", "-S"], 3), (small, ["name~[^3]$|gz|1.x", "-j2", "-S"],
                                                        None), (root, ["type=f", "-j4", "-S"], 0)):
        open(log, "w", encoding="utf-8").close()
        expected = [e for e in tree.walk(cwd) if os.path.isfile(os.path.join(cwd, e))]
        if len(argv) == 3 and cwd == small:
            import re
            expected = [e for e in expected if re.search("[^3]$|gz|1.x", e)]
            code = 3 if any("f03" in e for e in expected) else 0
        proc = subprocess.run([PYTHON, "-m", "ff", "--no-cache", *argv, "-X", "sh", script],
                              cwd=cwd, env=env, capture_output=True, timeout=100)
        groups = open(log, encoding="utf-8").read().split("\0\0")
        got = [a for g in groups for a in g.split("\0") if a]
        check.report.count("traces_validated_against_impl")
        check.report.count("real_runs")
        if got != expected or proc.returncode != code:
            check.report.violation(
                f"real commands {argv}: {len(got)} arguments instead of {len(expected)}, "
                f"status {proc.returncode} instead of {code}", {"err": proc.stderr.decode()[-1000:]})


if __name__ == "__main__":
    main()
