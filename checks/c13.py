"""C13: --count counts exactly the matching entries and their values."""

import collections
import itertools
import json

from .common import *
from . import reference

FILES = [
    ("f", "a", "x" * 10), ("f", "b.txt", "x" * 2000, {"mode": 0o755}), ("f", "B.TXT"), ("d", "d"), ("f", "d/a", "1"),
    ("f", "d/.h", "12"), ("d", "d/e"), ("l", "l", "a"), ("l", "d/l", "../a"), ("l", "dead", "none"), ("p", "p"),
    ("f", "x\udcff"), ("f", "new\nline"), ("f", "10", "x"), ("f", "9", "x"), ("f", "d/9", "x"), ("f", "a=1]"),
]

VALUES = [
    {}, {"vs": "a", "vn": 1}, {"vs": "A", "vn": 2, "vz": 5}, {"vs": "a", "vb": False}, {"vs": "b10", "vb": True},
    {"vs": "", "vn": 1}, {"vn": 0, "vz": 2 ** 40}, {"vn": 10, "vz": 0, "vd": 7}, {"vm": 0o644, "vt": 5, "vd": 3600},
    {"vm": 0o644, "vt": 0, "vd": 0}, {"vp": "x/.a", "vf": "file"}, {"vp": "X/b", "vf": "file"}, {"vp": "x/.a"},
    {"vs": "10", "vb": True, "vf": "other"}, {"vs": "9", "vl": ["a"], "vu": ["b"]}, {"vs": "é\udcff", "vn": 16},
]


def split_field(field):
    name, _, modifier = field.partition(":")
    modifier = modifier.lstrip("-0123456789") or None
    return name, name.rpartition(".")[2], modifier


def counted(entries, fields):
    """The reference: {name: total or {text: number}} plus _total."""
    result = {"_total": len(entries)}
    for field in dict.fromkeys(fields):
        full, name, modifier = split_field(field)
        present = [e[name] for e in entries if name in e]
        if not present:
            continue
        if name in reference.TOTALS:
            total = sum(present)
            result[full] = reference.text(name, total, modifier) if modifier else total
        else:
            counter = collections.Counter(reference.text(name, v, modifier) for v in present)
            result[full] = dict(counter)
    return result


def lines_of(counts):
    """The lines in their order."""
    for name, value in sorted(counts.items()):
        if isinstance(value, dict):
            def key(item):
                return (0, int(item[0]), item[0]) if item[0].isdecimal() else (1, 0, item[0])
            for text, number in sorted(value.items(), key=key):
                yield f"{name}[{text}]={number}"
        else:
            yield f"{name}={value}"


def judge_text(counts):
    expected = "".join(l + "\n" for l in lines_of(counts)).encode("utf-8", "surrogateescape")
    escaped = "".join(l + "\n" for l in lines_of(counts)).encode("utf-8", "backslashreplace")

    def judge(result):
        if result["out"] not in (expected, escaped) or result["code"]:
            return f"{result['out'][:400]!r} instead of {expected[:400]!r}, status {result['code']} " \
                   f"{err(result)[-300:]!r}"
        return None
    return judge


def judge_json(counts):
    def judge(result):
        try:
            got = json.loads(result["out"])
        except ValueError:
            return f"no JSON: {result['out'][:200]!r} {err(result)[-300:]!r}"
        if got != counts or result["code"]:
            wrong = [k for k in set(got) | set(counts) if got.get(k) != counts.get(k)]
            return f"wrong counts of {wrong}: {[got.get(k) for k in wrong]!r} instead of " \
                   f"{[counts.get(k) for k in wrong]!r}, status {result['code']}"
        return None
    return judge


def variants(fields, entries, root, key=""):
    counts = counted(entries, fields)
    name = ",".join(fields)
    yield case(f"{key}{name}", ["-j1", "--count", name], judge_text(counts), root)
    yield case(f"{key}{name} json", ["-j1", "--json", "--count", name], judge_json(counts), root)


def main():
    with Check("C13") as check:
        thorough = check.thorough
        root = check.tree("files", FILES)
        paths = tree.walk(root)
        entries = [reference.attributes(root, ".", e) for e in paths]
        # --json makes paths absolute
        absolute = [reference.attributes(root, ".", e, absolute=True) for e in paths]
        plain = ["type", "size", "perm", "depth", "ext", "hide", "exec", "uid", "user", "links", "empty", "broken",
                 "link", "name", "mode", "namex", "hidden", "dir", "path", "mtime", "relpath", "samedev"]
        modified = ["size:h", "size:x", "size:o", "perm:o", "perm:h", "mode:h", "mode:x", "depth:x", "mtime:h", "type:n",
                    "size:n", "perm:10o", "name:v"]
        tests = [[], ["type=f"], ["type=d"], ["name=nothing"], ["type=l"], ["size+0", "OR", "hide=yes"]]

        def files():
            cases = itertools.chain(
                ((f,) for f in plain + modified), itertools.product(plain + modified, repeat=2),
                itertools.product(plain[:8] if not thorough else plain[:14], repeat=3))
            for fields in cases:
                if len({split_field(f)[1] for f in fields}) < len(set(fields)):
                    continue        # the same attribute with different modifiers has only one place
                name = ",".join(fields)
                yield case(name, ["-j1", "--count", name], judge_text(counted(entries, fields)), root)
                yield case(f"{name} json", ["-j1", "--json", "--count", name], judge_json(counted(absolute, fields)), root)

        def selections():
            selectors = [lambda e: True, lambda e: e["type"] == "file", lambda e: e["type"] == "directory",
                         lambda e: False, lambda e: e["type"] == "symlink", lambda e: e["size"] > 0 or e["hide"]]
            for test, func in zip(tests, selectors):
                chosen = [e for e in entries if func(e)]
                for fields in (["type"], ["size"], ["size", "type"], ["link"], ["depth", "ext"]):
                    yield from (case(f"{test} {c[0]}", ["-j1"] + test + c[1]["argv"][2:], c[2], root)
                                for c in variants(fields, chosen, root))
                # without a list: size and type
                yield case(f"{test} default", ["-j1"] + test + ["--count"],
                           judge_text(counted(chosen, ["file.size:h", "file.type"])), root)
                yield case(f"{test} default json", ["-j1", "--json"] + test + ["--count"],
                           judge_json(counted(chosen, ["file.size", "file.type"])), root)
                code = 0 if chosen else 1
                judge = judge_text(counted(chosen, ["type"]))
                yield case(f"{test} --fail", ["-j1", "--fail"] + test + ["--count", "type"],
                           lambda r, judge=judge, code=code: judge(dict(r, code=0)) or
                           (None if r["code"] == code else f"status {r['code']}"), root)
            for name in ("vals.vl", "vals.vu", "size,vals.vl", "nothing", "size,", "size:q"):
                yield case(f"refused {name!r}", ["-j1", f"--count={name}"], expect_error(), root)
            for more in (["-x", "cmd"], ["-X", "cmd"]):
                yield case(f"refused {more}", ["-j1", "--count"] + more, expect_error(), root)

        values = check.tree("values", [("f", f"v{i:02d}", json.dumps(v)) for i, v in enumerate(VALUES)])
        attrs = ["vs", "vp", "vn", "vz", "vt", "vd", "vb", "vm", "vf"]

        def plugins():
            names = ["vals." + a for a in attrs] + ["vals.vz:h", "vals.vm:o", "vals.vn:x", "vals.vd:h", "vals.vt:h"]
            for num in (1, 2, 3) if thorough else (1, 2):
                for fields in itertools.product(names, repeat=num):
                    if len({split_field(f)[1] for f in fields}) < len(set(fields)) or \
                            any(f == "vals.vz:h" for f in fields):
                        continue
                    yield from variants(fields, VALUES, values)

        pool = {"extra_env": PLUGIN_ENV}
        run_cases(check, "file attributes", files(), **pool)
        run_cases(check, "selections", selections(), **pool)
        run_cases(check, "all types and missing values", plugins(), **pool)
        # other encodings
        strict = {"extra_env": dict(PLUGIN_ENV, PYTHONIOENCODING="utf-8:strict")}
        run_cases(check, "strict encoding", [c for f in (["name"], ["path", "size"], ["link"])
                                             for c in variants(f, entries, root) if "--json" not in c[1]["argv"]],
                  **strict)
        # the hour that comes twice
        hours = check.tree("hours", [("f", f"t{i}", "", {"mtime": t}) for i, t in enumerate(
            [1603587600, 1603587600 + 3600, 1603587600 - 3600, 1603591200 + 3600])])

        def judge_hours(result):
            total = sum(int(l.rpartition("=")[2]) for l in lines(result) if l.startswith("mtime["))
            return None if total == 4 and result["code"] == 0 else f"4 entries are counted as {total}: {lines(result)}"
        run_cases(check, "changing the clock", [case("mtime:h", ["-j1", "--count", "mtime:h"], judge_hours, hours,
                                                     env={"TZ": "Europe/Berlin"},
                                                     prelude="import time; time.tzset()")])

        # how the jobs share the entries does not matter
        small = check.tree("schedules", [("f", "a/x", "12"), ("f", "a/y", "1"), ("f", "b/x", "1"), ("l", "c", "b")])
        found = [reference.attributes(small, ".", e) for e in tree.walk(small)]
        many = check.tree("many", tree.files("f", 120, "1") + tree.files("d/g", 120, "22"))
        lots = [reference.attributes(many, ".", e) for e in tree.walk(many)]
        jobs = []
        for where, items, fields, num, bound in (
                (small, found, ["size", "type"], 2, 2), (small, found, ["name", "link"], 2, 1),
                (small, found, ["depth"], 3, 1), (many, lots, ["size", "type", "depth"], 2, 1)):
            judge = judge_text(counted(items, fields))
            jobs.append((f"{os.path.basename(where)} {fields} -j{num}",
                         scenario(["--no-cache", f"-j{num}", "--count", ",".join(fields)], cwd=where),
                         lambda r, judge=judge: finished(r) or judge(r), bound + (thorough and bound < 2), {}))
        explore_scenarios(check, jobs, outcome=lambda r: (r["verdict"], r["code"], r["out"]))
        real_runs(check, list(variants(["type"], entries, root)) + list(variants(["size", "ext"], lots, many)))
        return check.report.finish(
            rule="every list of attributes up to the bound, as text and as JSON, against counts made from the "
                 "directory itself; all schedules within the bound")


if __name__ == "__main__":
    main()
