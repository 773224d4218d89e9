"""C01: a search reports every matching entry exactly once, whatever the schedule."""

import itertools
import json

from .common import *


def make_trees(check):
    trees = {
        "tiny": [("f", "a/f1"), ("f", "a/b/f2"), ("d", "c"), ("f", "g")],
        "chain": [("f", "d1/d2/d3/d4/f")],
        "dirs11": [("f", f"d{i:02d}/f") for i in range(11)],
        "dirs23": [("f", f"d{i:02d}/f") for i in range(23)],
        "files101": tree.files("f", 101),
        "files201": tree.files("x/f", 201),
        "slow14": tree.files("e", 14),
        "slow30": tree.files("e", 30) + [("f", "e_dir/sub/x")],
        "empty": [],
        "two": [("f", "p/a/f"), ("f", "p/g"), ("f", "q/b/f"), ("d", "q/c")],
    }
    return {name: (path := check.tree(name, items), tree.walk(path))
            for name, items in trees.items()}


def judge_lines(expected, code=0):
    expected = sorted(expected)

    def judge(result):
        message = finished(result)
        if message:
            return message
        got = lines(result)
        if got != expected:
            missing = sorted(set(expected) - set(got))
            return f"wrong result: missing {missing[:5]} ({len(missing)}), " \
                   f"superfluous {[l for l in got if l not in expected or got.count(l) > 1][:5]}, " \
                   f"exit status {result['code']}"
        if result["code"] != code:
            return f"exit status {result['code']} instead of {code}"
        return None
    return judge


def judge_json(expected, root):
    expected = sorted(os.path.join(root, e) for e in expected)

    def judge(result):
        message = finished(result)
        if message:
            return message
        try:
            got = sorted(r["path"] for r in json.loads(result["out"]))
        except (ValueError, KeyError, TypeError) as exc:
            return f"invalid JSON: {exc!r} {result['out'][:200]!r}"
        if got != expected or result["code"]:
            return f"wrong result: {len(got)} records instead of {len(expected)}, " \
                   f"missing {sorted(set(expected) - set(got))[:5]}, status {result['code']}"
        return None
    return judge


def judge_count(expected):
    def judge(result):
        message = finished(result)
        if message:
            return message
        if olines(result) != [f"_total={len(expected)}", f"depth[0]={len(expected)}"] \
                and olines(result)[:1] != [f"_total={len(expected)}"] or result["code"]:
            return f"wrong count {result['out']!r}, expected {len(expected)}"
        return None
    return judge


def judge_sorted(expected):
    base = judge_lines(expected)

    def judge(result):
        message = base(result)
        if message is None and olines(result) != lines(result):
            message = "result is not in order"
        return message
    return judge


API = """
from ff import Find
for entry in Find({args}, cache=None, jobs={jobs}):
    print(entry["path"])
sys.stdout.flush()
"""


def schedules(check):
    trees = make_trees(check)
    small = {}
    plugins = {"extra_env": PLUGIN_ENV}
    jobs = []

    def add(name, tree_name, argv, judge, bound, pool=small, **extra):
        root, expected = trees[tree_name]
        judge = judge(expected, root) if judge is judge_json else judge(expected)
        jobs.append((f"{name} {tree_name} {' '.join(argv)}",
                     scenario(argv, cwd=root), judge, bound, pool, extra))

    def api(tree_name, args, num, bound):
        root, expected = trees[tree_name]
        jobs.append((f"Find({args}) {tree_name} jobs={num}",
                     scenario(source=API.format(args=args, jobs=num), cwd=root),
                     judge_lines(expected), bound, small, {}))

    deep = 2
    base = ["--no-cache"]
    for num in (1, 2, 3):
        add("print", "tiny", base + [f"-j{num}"], judge_lines, 1)
        add("sort", "tiny", base + [f"-j{num}", "-S"], judge_sorted, 1)
    for num in (1, 2):
        add("json", "tiny", base + [f"-j{num}", "--json"],
            judge_json, 1)
        add("count", "tiny", base + [f"-j{num}", "--count", "depth"], judge_count, 1)
        api("tiny", "output=['path']", num, 1)
        api("tiny", "sort=['path'], output=['path']", num, 1)
    add("two directories", "two", base + ["-j2", "-D", "p", "-D", "q"],
        lambda exp: judge_lines([e for e in exp if e not in ("p", "q")]), 1)
    add("empty", "empty", base + ["-j2"], judge_lines, 1)
    add("chain", "chain", base + ["-j2"], judge_lines, 1)
    add("chunks", "dirs11", base + ["-j2"], judge_lines, 1)
    add("chunks", "dirs23", base + ["-j3", "-S"], judge_sorted, 1)
    add("100 entries", "files101", base + ["-j2", "--count", "type"], judge_count, 1)
    add("100 entries", "files201", base + ["-j2", "-S"], judge_sorted, 1)
    for num in (2, 3):
        add("slow", "slow14", base + [f"-j{num}", "ignored=no"], judge_lines, 1)
        add("slow", "slow30", base + [f"-j{num}", "ignored=no", "-S"], judge_sorted, 1)
        add("lazy", "slow14", base + [f"-j{num}", "lazy.num=1"], judge_lines, 1, plugins)
        add("lazy", "slow30", base + ["lazy.num=1", f"-j{num}", "-S"], judge_sorted, 1, plugins)
    # two deviations
    add("print", "tiny", base + ["-j2"], judge_lines, deep)
    add("sort", "tiny", base + ["-j2", "-S"], judge_sorted, deep)
    if check.thorough:
        for num in (1, 3):
            add("print", "tiny", base + [f"-j{num}"], judge_lines, deep)
            add("sort", "tiny", base + [f"-j{num}", "-S"], judge_sorted, deep)
        add("json", "tiny", base + ["-j2", "--json"],
            judge_json, deep)
        add("count", "tiny", base + ["-j2", "--count", "depth"], judge_count, deep)
        api("tiny", "output=['path']", 2, deep)
        api("tiny", "sort=['path'], output=['path']", 2, deep)
        add("chain", "chain", base + ["-j2"], judge_lines, deep)
        add("slow", "slow14", base + ["-j2", "ignored=no"], judge_lines, deep)
        add("chunks", "dirs11", base + ["-j2"], judge_lines, deep)
        add("print", "two", base + ["-j1"], judge_lines, 3)
        add("print", "tiny", base + ["-j2"], judge_lines, 3, max_executions=400000)
    explore_scenarios(check, jobs)


def forests(num):
    """All forests with exactly `num` nodes; a node is a file "f" or a tuple of children."""
    if num == 0:
        yield ()
        return
    for first in range(1, num + 1):
        for rest in forests(num - first):
            if first == 1 and (not rest or True):
                yield ("f",) + rest
            for children in forests(first - 1):
                yield (children,) + rest


def forest_items(forest, prefix=""):
    for pos, node in enumerate(forest):
        if node == "f":
            yield ("f", f"{prefix}n{pos}")
        else:
            yield ("d", f"{prefix}n{pos}")
            yield from forest_items(node, f"{prefix}n{pos}/")


def shapes(check):
    """Default schedule, all tree shapes up to a number of nodes and all sizes around the limits."""
    report = check.report
    pool = check.pool()
    roots = []
    limit = 6 if check.thorough else 5
    base = os.path.join(check.scratch.path, "shapes")
    count = 0
    for num in range(limit + 1):
        for forest in forests(num):
            canonical = tuple(sorted(forest, key=repr))
            if canonical != forest:
                continue
            roots.append(tree.build(os.path.join(base, f"s{count}"), list(forest_items(forest))))
            count += 1
    for num in (9, 10, 11, 12, 19, 20, 21, 22, 31, 99, 100, 101, 102, 199, 200, 201, 301):
        roots.append(tree.build(os.path.join(base, f"files{num}"), tree.files("f", num)))
    for num in (8, 9, 10, 11, 12, 19, 20, 21, 30, 99, 100, 101, 201, 230, 401, 901):
        roots.append(tree.build(os.path.join(base, f"dirs{num}"),
                                [("d", f"d{i:03d}") for i in range(num)]))
        # directories that are not empty: every part of them has to be searched
        roots.append(tree.build(os.path.join(base, f"full{num}"), [("f", f"d{i:03d}/f") for i in range(num)]))
        roots.append(tree.build(os.path.join(base, f"half{num}"),
                                [item for i in range(num) for item in (("f", f"d{i:03d}/e/f"), ("f", f"f{i:03d}"))]))
    for num in (10, 40):
        roots.append(tree.build(os.path.join(base, f"deep{num}"),
                                [("f", "/".join(["d"] * num) + "/f")]))
    variants = [[], ["-S"], ["-j2"], ["ignored=no", "-j2"], ["ignored=no", "-j3", "--jsonl", "-S"]]
    cases = [(root, var) for root in roots for var in variants]
    results = need(pool.map([{"scenario": scenario(["--no-cache"] + (["-j1"] if "-j2" not in var
                              and "-j3" not in var else []) + var, cwd=root,
                                                   options={"max_steps": 100000})}
                             for root, var in cases]))
    for (root, var), result in zip(cases, results):
        expected = tree.walk(root)
        message = finished(result)
        if message is None:
            got = lines(result)
            if "--jsonl" in var:
                try:
                    got = sorted(os.path.relpath(json.loads(l)["path"], root) for l in got)
                except (ValueError, KeyError) as exc:
                    message = f"bad output {exc!r}"
            if message is None and (got != expected or result["code"]):
                message = f"{len(got)} results instead of {len(expected)}, " \
                          f"missing {sorted(set(expected) - set(got))[:5]}, status {result['code']}"
        report.count("transitions", result["steps"])
        report.case((root, tuple(var)), bool(expected))
        if message:
            report.violation(f"tree {os.path.basename(root)} {var}: {message}",
                             {"items": expected[:60], "argv": var, "err": err(result)[-1500:]})
    report.part("tree shapes", {"trees": len(roots), "variants": variants, "runs": len(cases),
                                "all shapes up to nodes": limit})


def conformance(check):
    """The same scenarios with the real multiprocessing module give one of the explored results."""
    import subprocess
    trees = make_trees(check)
    env = clean_env(check.scratch.home, {"PYTHONPATH": REPO})
    for name in ("tiny", "dirs23", "files201", "slow30", "empty"):
        root, expected = trees[name]
        for argv in (["-j2"], ["-j3", "-S"], ["-j2", "ignored=no"]):
            proc = subprocess.run([PYTHON, "-m", "ff", "--no-cache"] + argv, cwd=root, env=env,
                                  capture_output=True, timeout=120)
            got = sorted(proc.stdout.decode().split("\n")[:-1])
            check.report.count("traces_validated_against_impl")
            if got != expected or proc.returncode:
                check.report.violation(f"real run of {argv} in {name}: {len(got)} results instead "
                                       f"of {len(expected)}, status {proc.returncode}",
                                       {"argv": argv, "err": proc.stderr.decode()[-1500:]})


def main():
    with Check("C01") as check:
        shapes(check)
        schedules(check)
        conformance(check)
        check.report.assumptions += [
            "the files do not change during the search",
            "scheduling points are the operations on shared multiprocessing objects; a queue's "
            "feeder thread and every process may be delayed by 25 ms at any of them",
        ]
        return check.report.finish(
            rule="schedules: every execution with at most the given number of deviations "
                 "(yield/stall/delayed feeder) of the scheduler; trees: all shapes up to a number "
                 "of nodes and the sizes around the chunk limits")
