"""C11: sorted output is the order of the documented keys, the same on every run."""

import itertools
import json
import re
import stat

from .common import *

FILES = [
    ("f", "a", "x" * 10, {"mtime": 100, "mode": 0o644}), ("f", "B", "x" * 9, {"mtime": 200, "mode": 0o755}),
    ("f", "b", "x" * 10, {"mtime": 50}), ("f", ".c", "", {"mtime": 100}), ("f", "c", "xx"),
    ("d", "D"), ("f", "D/x", "x"), ("f", "D/.a"), ("f", "D/a.txt", "x" * 100, {"mtime": 10 ** 9}),
    ("d", "d"), ("f", "d/x", "x"), ("f", "d.x", "y"), ("f", "d-x"), ("l", "l", "a"), ("l", "d/l", "../B"),
    ("l", "dead", "nowhere"), ("p", "p"), ("f", "f10"), ("f", "f9.txt"), ("f", "F9"), ("f", "f010"),
    ("f", "ä"), ("f", "Ä.txt"), ("f", ".hid/den/f"), ("f", "z\udcff"),
]

VALUES = [
    {}, {"vs": "a", "vn": 1}, {"vs": "A", "vn": 2, "vz": 5}, {"vs": "", "vb": False}, {"vs": "b10", "vb": True},
    {"vs": "b9", "vl": ["b"], "vu": ["b", "a"]}, {"vn": 0, "vl": []}, {"vn": 10, "vl": ["a", "b"], "vu": ["b"]},
    {"vz": 2 ** 40, "vt": 5, "vd": 7, "vm": 0o644}, {"vz": 0, "vt": 0, "vd": 0, "vm": 0},
    {"vp": "x/.a", "vf": "file"}, {"vp": "X/b", "vf": "directory"}, {"vp": ".x/B", "vu": ["a", "c"]},
    {"vp": "x", "vs": "Z", "vl": ["B"], "vm": 0o7777}, {"vp": "x/a10", "vu": []}, {"vp": "x/a9", "vt": 3, "vd": 2},
    {"vs": "b9", "vn": 1, "vu": ["a", "b"]}, {"vn": 1, "vb": True},
]
NONE = {"vs": "", "vp": "", "vn": 0, "vz": 0, "vt": 0, "vd": 0, "vb": False, "vm": 0, "vl": [],
        "vu": [], "vf": ""}


def path_key(value):
    return "/".join(v.lstrip(".") for v in value.lower().split("/"))


def component_key(name):
    """The parts of a component: numbers count as numbers, and extensions (those that do not begin
       with a digit) come after everything else."""
    extensions = []
    while True:
        match = re.fullmatch(r"(.*[^.].*)\.([^.]+)", name, re.S)
        if not match or match.group(2)[0].isdecimal():
            break
        name = match.group(1)
        extensions.insert(0, match.group(2))
    parts = []
    for number, text in enumerate(re.split(r"(\d+)", name)):
        parts.append(int(text) if number % 2 else text)
    yield parts
    if extensions:
        yield [part for ext in extensions for part in (ext, -1)]


def natural_key(value):
    if not value:
        return []
    return [key for name in os.path.normpath(value).split("/") for key in component_key(name)]


def file_values(root, entry):
    full = os.path.join(root, entry)
    status = os.lstat(full)
    base = os.path.basename(entry)
    stem, ext = os.path.splitext(base)
    link = os.path.islink(full)
    kind = {stat.S_IFREG: "file", stat.S_IFDIR: "directory", stat.S_IFLNK: "symlink",
            stat.S_IFIFO: "fifo"}[stat.S_IFMT(status.st_mode)]
    is_exec = kind not in ("directory", "symlink") and bool(status.st_mode & 0o111)
    return {
        # --json makes the path absolute
        "path": path_key(full), "relpath": path_key(entry), "name": base.lower(), "ext": ext[1:].lower(),
        "dir": path_key(os.path.dirname(full)), "pathx": path_key(os.path.join(os.path.dirname(full), stem)),
        "namex": path_key(stem), "type": kind, "size": status.st_size if kind == "file" else 0,
        "mtime": int(status.st_mtime), "perm": stat.S_IMODE(status.st_mode), "mode": status.st_mode,
        "depth": entry.count("/"), "hide": base.startswith("."), "exec": is_exec,
        "links": status.st_nlink, "inode": status.st_ino,
        "hidden": any(p.startswith(".") for p in full.split("/")),
        "link": path_key(os.readlink(full)) if link else "",
        "target": path_key(os.path.realpath(full)) if link else "",
        "broken": link and not os.path.exists(full),
        "empty": kind == "file" and not status.st_size or kind == "directory" and not os.listdir(full),
    }


def value_values(content):
    result = dict(NONE)
    result.update(content)
    result["vs"] = result["vs"].lower()
    result["vp"] = path_key(result["vp"])
    result["vu"] = sorted(result["vu"])
    return result


def expected_order(entries, fields, reverse):
    """`entries` is a list of (path, {attribute: sort value})."""
    def key(item):
        output = []
        for field in fields:
            name, _, modifier = field.partition(":")
            value = item[1][name.rpartition(".")[2]]
            if modifier == "v" and isinstance(value, str):
                value = natural_key(value)
            output.append(value)
        return output, item[0]
    return [e for e, _ in sorted(entries, key=key, reverse=reverse)]


def judge_order(expected):
    def judge(result):
        try:
            got = [list(r.values())[0] for r in json.loads(result["out"])]
        except ValueError:
            return f"no JSON: {result['out'][:200]!r} status {result['code']} {err(result)[-300:]!r}"
        if got != expected or result["code"]:
            pos = next((i for i, (a, b) in enumerate(zip(got, expected)) if a != b), 0)
            return f"wrong order at {pos}: {got[pos:pos + 4]} instead of {expected[pos:pos + 4]}, " \
                   f"{len(got)} entries of {len(expected)}, status {result['code']}"
        return None
    return judge


def orders(root, entries, attributes, num, prefix=""):
    for count in range(1, num + 1):
        for fields in itertools.product(attributes, repeat=count):
            for reverse in (False, True):
                names = [prefix + f for f in fields]
                argv = ["-j1", "--json", "-o", "relpath", "-S", ",".join(names)] + ["-R"] * reverse
                yield case(" ".join(argv[4:]), argv,
                           judge_order(expected_order(entries, names, reverse)), root)


def natural(check, thorough):
    tokens = ["a", "B", "1", "2", "10", "01", ".", "-", "x"]
    names = {"".join(p) for n in range(1, 4) for p in itertools.product(tokens, repeat=n)} - {".", ".."}
    if thorough:
        names |= {"".join(p) for p in itertools.product(tokens[:8], repeat=4)}
    root = check.tree("natural", [("f", f"{n}") for n in sorted(names)])
    deep = check.tree("natural2", [("f", f"{d}/{n}") for d in ("a1", "a10", "A2", "a2.5", ".b", "b.1", "b.c")
                                   for n in ("1", "10", "2.txt", "02", "a.10", "a.9", ".x1")])
    # names with several extensions
    extensions = ["x", "Y", "b", "1", "2c", "c2", "10"] if thorough else ["x", "Y", "1", "2c", "c2"]
    long = check.tree("natural3", [("f", stem + "".join(f".{e}" for e in combo)) for stem in ("a", "b1") for n in range(4)
                                   for combo in itertools.product(extensions, repeat=n)])
    for where in (root, deep, long):
        entries = [(e, file_values(where, e)) for e in tree.walk(where)]
        for fields in (["name:v"], ["path:v"], ["namex:v"], ["relpath:v"], ["ext:v", "name:v"], ["dir:v", "size:v"],
                       ["name"], ["path"], ["name:n"], ["path:h"]):
            for reverse in (False, True):
                argv = ["-j1", "--json", "-o", "relpath", "-S", ",".join(fields)] + ["-R"] * reverse
                yield case(f"{os.path.basename(where)} {argv[-2:]}", argv,
                           judge_order(expected_order(entries, fields, reverse)), where,
                           options={"max_steps": 10 ** 6})


def laws(check):
    """Independent of how the keys are made: numbers in otherwise equal names are compared as numbers."""
    numbers = [0, 1, 2, 9, 10, 11, 99, 100, 1000]
    cases = []
    for prefix, suffix in itertools.product(["", "a", "a.", "a-", ".", "9a"], ["", "b", ".txt", "-b.c", ".1"]):
        root = check.tree(f"law{len(cases)}", [("f", f"{prefix}{n}{suffix}") for n in numbers])
        for attr in ("name", "path"):
            cases.append(case(f"{prefix}N{suffix} {attr}", ["-j1", "-S", f"{attr}:v"],
                              expect_lines([f"{prefix}{n}{suffix}" for n in numbers], ordered=True), root))
    # every path below a directory follows after it
    nested = check.tree("nested", [("f", p) for p in ("a/b", "a/c/d", "ab/c", "b/a")])
    cases.append(case("parents first", ["-j1", "--sort"], expect_lines(
        ["a", "a/b", "a/c", "a/c/d", "ab", "ab/c", "b", "b/a"], ordered=True), nested))
    cases.append(case("reverse", ["-j1", "-S", "path", "--reverse"], expect_lines(
        ["b/a", "b", "ab/c", "ab", "a/c/d", "a/c", "a/b", "a"], ordered=True), nested))
    for bad in ("nothing", "path:q", "", "path,,name", "path name", ":v", "path:-", "mime.nothing", "path:vv"):
        cases.append(case(f"invalid {bad!r}", ["-j1", f"--sort={bad}"], expect_error(), nested))
    return cases


def schedules(check):
    files = [("f", "a/x", "1"), ("f", "b/X", "1"), ("f", "c", "22"), ("f", "B", "")]
    root = check.tree("schedules", files)
    entries = [(e, file_values(root, e)) for e in tree.walk(root)]
    values = check.tree("schedules2", [("f", f"d{i}/v{i}", json.dumps(v)) for i, v in enumerate(
        [{"vs": "b", "vu": ["x", "y"]}, {"vs": "B", "vu": ["y"]}, {}])])
    content = {f"d{i}/v{i}": v for i, v in enumerate([{"vs": "b", "vu": ["x", "y"]}, {"vs": "B", "vu": ["y"]}, {}])}
    second = [(e, value_values(content.get(e, {}))) for e in tree.walk(values)]
    jobs = []
    for where, items, fields, num in ((root, entries, ["size"], 2), (root, entries, ["type", "name"], 2),
                                      (root, entries, ["name"], 3), (values, second, ["vals.vs"], 2),
                                      (values, second, ["vals.vu", "vals.vs"], 2)):
        for reverse in (False, True):
            argv = ["--no-cache", f"-j{num}", "--json", "-o", "relpath", "-S", ",".join(fields)] + ["-R"] * reverse
            judge = judge_order(expected_order(items, fields, reverse))
            jobs.append((" ".join(argv[1:]), scenario(argv, cwd=where),
                         lambda r, judge=judge: finished(r) or judge(r),
                         2 if check.thorough or fields == ["size"] and not reverse else 1,
                         {"extra_env": PLUGIN_ENV}))
    explore_scenarios(check, jobs, outcome=lambda r: (r["verdict"], r["code"], r["out"]))


def main():
    with Check("C11") as check:
        thorough = check.thorough
        schedules(check)
        root = check.tree("files", FILES)
        entries = [(e, file_values(root, e)) for e in tree.walk(root)]
        attributes = list(entries[0][1])
        run_cases(check, "file attributes", orders(root, entries, attributes, 2))
        run_cases(check, "three attributes", orders(
            root, entries, attributes if thorough else ["type", "size", "name", "ext", "hide", "perm"], 3))
        values = check.tree("values", [("f", f"v{i:02d}", json.dumps(v)) for i, v in enumerate(VALUES)])
        second = [(f"v{i:02d}", value_values(v)) for i, v in enumerate(VALUES)]
        run_cases(check, "all types and missing values",
                  orders(values, second, sorted(NONE) + ["vs:v", "vp:v"], 3 if thorough else 2, "vals."),
                  extra_env=PLUGIN_ENV)
        run_cases(check, "natural order", natural(check, thorough))
        run_cases(check, "laws", laws(check))
        real_runs(check, list(orders(root, entries, ["name", "size"], 1)))
        check.report.assumptions += [
            "strings are compared without case, paths without leading dots of their components, entries "
            "without a value count as the empty or zero value, and ties are broken by the path"]
        return check.report.finish(
            rule="every list of sort attributes up to the bound, in both directions, and every name of up "
                 "to three tokens, against an independent key; all schedules within the bound")


if __name__ == "__main__":
    main()
