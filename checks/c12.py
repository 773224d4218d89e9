"""C12: --limit selects exactly the requested slice of the result."""

import itertools
import json

from .common import *


def wanted(num, start, stop):
    """The selected positions of a result of `num` entries."""
    low = 0 if start == "" else int(start) if int(start) >= 0 else num + int(start)
    high = num if stop == "" else int(stop) if int(stop) >= 0 else num + int(stop)
    return [i for i in range(num) if low <= i < high]


def page(num, size, number):
    return [i for i in range(num) if i // size == number] if size else []


def limits(biggest):
    """(argument, function from the number of entries to positions)"""
    numbers = [""] + [str(i) for i in range(-biggest, biggest + 1)]
    for start, stop in itertools.product(numbers, repeat=2):
        yield f"{start}:{stop}", lambda n, start=start, stop=stop: wanted(n, start, stop)
    for size, number in itertools.product(range(biggest + 1), repeat=2):
        yield f"{size},{number}", lambda n, size=size, number=number: page(n, size, number)
    for text, start, stop in (("99999999999999999999:", "99999999999999999999", ""), (":1000000", "", "1000000"),
                              ("-1000000:1000000", "-1000000", "1000000"), ("007:", "7", ""), (":03", "", "3"),
                              ("-0:2", "0", "2")):
        yield text, lambda n, start=start, stop=stop: wanted(n, start, stop)


MALFORMED = ["5", "-5", "", "a", "1:a", "a:1", "1:2:3", ":::", "1,", ",1", ",", "-1,2", "1,-1", "1,2,3", "1.5:2",
             " 1:2", "1: 2", "0x1:2", "+1:2", "--1:2", "1:-", "-:1", "1_0:", "1;2", "1:2,3", "1e1:", "all"]


def names(num):
    return [f"f{i}" for i in range(num)]


def judge_json(expected, lines_of=False):
    def judge(result):
        try:
            if lines_of:
                got = [json.loads(l)["name"] for l in result["out"].decode().split("\n")[:-1]]
            else:
                got = [r["name"] for r in json.loads(result["out"])]
        except (ValueError, KeyError) as exc:
            return f"no JSON: {exc!r} {result['out'][:200]!r}"
        if got != expected or result["code"]:
            return f"{got} instead of {expected}, status {result['code']}"
        return None
    return judge


def judge_calls(expected, batch, ordered):
    def judge(result):
        got = [c["args"][1:] for c in sorted(result["calls"], key=lambda c: c["start"])]
        want = ([expected] if expected else []) if batch else [[e] for e in expected]
        if (got != want if ordered else sorted(got) != sorted(want)) or result["code"]:
            return f"commands {got} instead of {want}, status {result['code']} {err(result)[-200:]!r}"
        return None
    return judge


def judge_subset(num, count):
    def judge(result):
        got = olines(result)
        if len(got) != count or len(set(got)) != count or not set(got) <= set(names(num)) or result["code"]:
            return f"{got} instead of {count} of {num} entries, status {result['code']} {err(result)[-200:]!r}"
        return None
    return judge


def judge_subset_of(entries, count):
    def judge(result):
        message = finished(result)
        if message:
            return message
        got = olines(result)
        if len(got) != count or len(set(got)) != count or not set(got) <= set(entries) or result["code"]:
            return f"{got} instead of {count} of {entries}, status {result['code']} {err(result)[-200:]!r}"
        return None
    return judge


def main():
    with Check("C12") as check:
        biggest = 9 if check.thorough else 7
        trees = [check.tree(f"n{num}", [("f", n) for n in names(num)]) for num in range(biggest)]
        calls = {"default": {"code": 0, "duration": 0.0}}

        def text():
            for num, root in enumerate(trees):
                for argument, func in limits(biggest):
                    expected = [names(num)[i] for i in func(num)]
                    yield case(f"{num}: {argument}", ["-j1", f"--limit={argument}", "--sort=name"],
                               expect_lines(expected, ordered=True), root, bool(expected))

        def forms():
            sizes = range(len(trees)) if check.thorough else (0, 1, 4)
            for num in sizes:
                root = trees[num]
                for argument, func in limits(biggest if check.thorough else 5):
                    every = names(num)
                    expected = [every[i] for i in func(num)]
                    backwards = [every[::-1][i] for i in func(num)]
                    nontrivial = bool(expected)
                    key = f"{num}: {argument}"
                    yield case(f"{key} -R", ["-j1", "-R", "-S", "path", f"-l{argument}"],
                               expect_lines(backwards, ordered=True), root, nontrivial)
                    yield case(f"{key} json", ["-j1", "--json", "-o", "name", "-S", "path", f"-l{argument}"],
                               judge_json(expected), root, nontrivial)
                    yield case(f"{key} jsonl", ["-j1", "--jsonl", "-o", "name", "-l", f"{argument}", "-S", "path"],
                               judge_json(expected, True), root, nontrivial) if argument[0] != "-" else \
                        case(f"{key} jsonl", ["-j1", "--jsonl", "-o", "name", f"-l{argument}", "-S", "path"],
                             judge_json(expected, True), root, nontrivial)
                    yield case(f"{key} unsorted", ["-j1", f"-l{argument}"],
                               judge_subset(num, len(expected)), root, nontrivial)

        def execs():
            sizes = range(len(trees)) if check.thorough else (0, 3)
            for num in sizes:
                root = trees[num]
                for argument, func in limits(biggest if check.thorough else 4):
                    expected = [names(num)[i] for i in func(num)]
                    key = f"{num}: {argument}"
                    yield case(f"{key} -x", ["-j1", f"-l{argument}", "-S", "path", "-x", "cmd"],
                               judge_calls(expected, False, True), root, bool(expected), calls=calls)
                    yield case(f"{key} -X", ["-j1", f"-l{argument}", "-S", "path", "-X", "cmd"],
                               judge_calls(expected, True, True), root, bool(expected), calls=calls)

        def others():
            for num, root in enumerate(trees):
                yield case(f"{num}: -1", ["-j1", "-1", "-S", "name"], expect_lines(names(num)[:1]), root)
                yield case(f"{num}: -1R", ["-j1", "-1RS", "name"], expect_lines(names(num)[::-1][:1]), root)
                yield case(f"{num}: last wins", ["-j1", "-1", "-l1:3", "-S", "name"],
                           expect_lines(names(num)[1:3], ordered=True), root)
                yield case(f"{num}: pattern", ["-j1", "name!~x" if False else "name~[135]", "-l", ":2", "-S", "name"],
                           expect_lines([n for n in names(num) if n[1] in "135"][:2], ordered=True), root)
                yield case(f"{num}: missing", ["-j1", "-o", "link", "-l", ":2", "-S", "name"],
                           expect_lines([]), root)
            for argument in MALFORMED:
                yield case(f"malformed {argument!r}", ["-j1", f"--limit={argument}", "-S", "name"],
                           expect_error(), trees[3])
            yield case("with count", ["-j1", "--limit=1:2", "--count", "type"], expect_error(), trees[3])

        run_cases(check, "slices and pages", text())
        run_cases(check, "other forms of output", forms())
        run_cases(check, "commands", execs(), install={"subprocess": True})
        run_cases(check, "others", others())

        items = [("f", "a/x"), ("f", "b/y"), ("f", "c")]
        root = check.tree("schedules", items)
        entries = tree.walk(root)
        jobs = []
        for argument, func in (("1:3", lambda n: wanted(n, "1", "3")), ("-2:", lambda n: wanted(n, "-2", "")),
                               ("2,1", lambda n: page(n, 2, 1))):
            expected = [entries[i] for i in func(len(entries))]
            judge = expect_lines(expected, ordered=True)
            jobs.append((f"sorted {argument}", scenario(["--no-cache", "-j2", "-S", "path", f"-l{argument}"], cwd=root),
                         lambda r, judge=judge: finished(r) or judge(r), 2 if check.thorough else 1, {}))
            jobs.append((f"unsorted {argument}", scenario(["--no-cache", "-j2", f"-l{argument}"], cwd=root),
                         judge_subset_of(entries, len(expected)), 2 if check.thorough else 1, {}))
        explore_scenarios(check, jobs)
        real_runs(check, [case(f"{a}", ["-S", "path", f"-l{a}"], expect_lines([names(5)[i] for i in f(5)], True),
                               trees[5]) for a, f in list(limits(2))[:6]])
        return check.report.finish(
            rule="every slice and page with numbers up to the bound for every number of entries; nontrivial: "
                 "something is selected", bounds={"numbers": biggest, "entries": biggest - 1})


if __name__ == "__main__":
    main()
