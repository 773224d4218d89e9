"""C14: JSON output is valid and equals the attribute values."""

import itertools
import json

from .common import *
from . import reference

VALUES = [
    {}, {"vs": "a", "vn": 1}, {"vs": "\"\\\n\r\t\x00\x1f\x7f", "vz": 2 ** 62}, {"vs": "\udcff\udc80é\u2028\U0001f600", "vb": False},
    {"vs": "", "vb": True, "vm": 0o7777, "vt": 0, "vd": 0}, {"vl": [], "vu": []}, {"vl": ["b", "a", "", "\"", "\udcff"]},
    {"vu": ["b", "a", "c", "\n", "Z"]}, {"vp": "a/\"b\"", "vf": "file"}, {"vt": 2 ** 40, "vd": 12345, "vz": 1536, "vm": 0o40755},
    {"vs": "null"}, {"vs": "0", "vn": 0}, {"vn": 2 ** 63}, {"vl": ["null", "a,b"]},
]
ATTRS = ["vs", "vp", "vn", "vz", "vt", "vd", "vb", "vm", "vl", "vu", "vf"]

FILES = [
    ("f", "a", "x" * 10, {"mode": 0o4755, "mtime": 10 ** 9}), ("f", "b.tar.gz", "x" * 2000, {"mode": 0}), ("d", "d"),
    ("f", "d/.h.x", "12"), ("d", "d/e", {"mode": 0o1777}), ("l", "l", "a"), ("l", "d/l", "../a"), ("l", "dead", "no\"ne"),
    ("l", "dir", "d"), ("p", "p"), ("s", "s"), ("f", "x\udcff"), ("f", "new\nline"), ("f", "q\"u"), ("l", "z", "\udcfe"),
    ("f", "\u2028"), ("f", "\ufeff"), ("f", "back\\slash"), ("f", "d/\udcff/\udcfe"), ("f", "\ud7ff"), ("f", "\U0010ffff"),
]

PLAIN = ["path", "root", "relpath", "dir", "name", "ext", "pathx", "namex", "mode", "type", "device", "inode", "samedev",
         "depth", "exec", "size", "mtime", "ctime", "atime", "time", "perm", "links", "uid", "gid", "user", "group",
         "hide", "hidden", "empty", "link", "target", "broken"]


def strict(text):
    """Parse JSON; duplicate keys and constants like NaN are refused."""
    def pairs(items):
        if len({k for k, _ in items}) != len(items):
            raise ValueError("duplicate keys")
        return dict(items)

    def constant(name):
        raise ValueError(name)
    return json.loads(text, object_pairs_hook=pairs, parse_constant=constant)


def parse(result, jsonl):
    out = result["out"].decode("utf-8")
    if jsonl:
        if out and not out.endswith("\n"):
            raise ValueError("incomplete line")
        records = [strict(line) for line in out.split("\n")[:-1]]
    else:
        if not out.endswith("\n"):
            raise ValueError("no newline at the end")
        records = strict(out)
        if not isinstance(records, list):
            raise ValueError("no list")
    if not all(isinstance(r, dict) for r in records):
        raise ValueError("no object")
    return records


def judge(expected, fields, jsonl=False, code=0, ordered=False):
    """`expected` are the values of the entries, `fields` is a list of (key, attribute, modifier)."""
    wanted = []
    for values in expected:
        record = {}
        for key, name, modifier in fields:
            value = values.get(name)
            if isinstance(value, (list, set)):
                value = sorted(value) if name == "vu" else list(value)
            if modifier == "h" and value is not None:
                value = reference.text(name, value, "h")
            record[key] = value
        wanted.append(record)

    def sortable(record):
        return json.dumps(record, sort_keys=True)

    def judgement(result):
        try:
            got = parse(result, jsonl)
        except (ValueError, UnicodeDecodeError) as exc:
            return f"invalid JSON ({exc}): {result['out'][:300]!r} {err(result)[-200:]!r}"
        if result["code"] != code:
            return f"status {result['code']} {err(result)[-200:]!r}"
        if not ordered:
            got.sort(key=sortable)
            wanted.sort(key=sortable)
        if got != wanted or [list(r) for r in got] != [list(r) for r in wanted] or \
                [[type(v) for v in r.values()] for r in got] != [[type(v) for v in r.values()] for r in wanted]:
            wrong = next(((g, w) for g, w in zip(got, wanted) if g != w or list(g) != list(w)), (len(got), len(wanted)))
            return f"{wrong[0]!r} instead of {wrong[1]!r}"
        return None
    return judgement


def fields_of(names):
    return [(n.partition(":")[0], n.partition(":")[0].rpartition(".")[2], n.partition(":")[2].lstrip("-0123456789"))
            for n in dict.fromkeys(names)]


def special_names(thorough):
    single = [bytes([b]) for b in range(1, 256) if b != 0x2f and b != 0x2e]
    alphabet = [b'"', b"\\", b"\n", b"\t", b"\x1f", b"\x7f", b"a", b"\xff", b"\xc3", b"\xa4", b"\xc3\xa4", b"{", b",", b"'",
                b"\xed\xa0\x80", b"\xed\xb3\xbf", b"\xf0\x9f\x98\x80", b"\xe2\x80\xa8", b"\xef\xbf\xbf", b"\xc2\x85", b" ", b"u0041",
                b"\x00"[:0] + b"%"]
    return single + [b"".join(p) for p in itertools.product(alphabet, repeat=2)] + \
        ([b"".join(p) for p in itertools.product(alphabet[:12], repeat=3)] if thorough else [])


def main():
    with Check("C14") as check:
        thorough = check.thorough
        root = check.tree("files", FILES)
        paths = tree.walk(root)
        entries = [reference.attributes(root, ".", e, absolute=True) for e in paths]
        relative = [reference.attributes(root, ".", e, absolute=True) for e in paths]
        del relative

        def files():
            lists = itertools.chain(
                ([p] for p in PLAIN), itertools.product(PLAIN, repeat=2) if thorough else
                itertools.combinations(PLAIN, 2), [PLAIN, PLAIN[::-1], ["name", "link", "size"]],
                ([p + m] for p in ("size", "mtime", "mode", "perm", "name", "link", "exec", "links")
                 for m in (":h", ":x", ":o", ":n", ":10", ":-5h")))
            for names in lists:
                names = [n if n.partition(":")[0] else n for n in names]
                for option in ("--json", "--jsonl"):
                    yield case(f"{','.join(names)} {option}", ["-j1", option, "-o", ",".join(names)],
                               judge(entries, fields_of(names), option == "--jsonl"), root)

        def values():
            where = check.tree("values", [("f", f"v{i:02d}", json.dumps(v)) for i, v in enumerate(VALUES)])
            content = [dict(v, name=f"v{i:02d}") for i, v in enumerate(VALUES)]
            names = ["vals." + a for a in ATTRS] + ["vals.vt:h", "vals.vd:h", "vals.vm:h"]
            for num in (1, 2, 3) if thorough else (1, 2):
                for fields in itertools.product(["name"] + names, repeat=num):
                    if len({f.partition(":")[0] for f in fields}) < len(set(fields)):
                        continue
                    for option in ("--json", "--ndjson"):
                        yield case(f"{','.join(fields)} {option}", ["-j1", option, "-o", ",".join(fields)],
                                   judge([{k: v for k, v in c.items()} for c in content], fields_of(fields),
                                         option == "--ndjson"), where)

        def names():
            texts = [os.fsdecode(n) for n in special_names(thorough)]
            where = check.tree("names", [("f", f"{t}") for t in dict.fromkeys(texts)])
            found = [reference.attributes(where, ".", e, absolute=True) for e in tree.walk(where)]
            links = check.tree("links", [("l", f"l{i:04d}", t) for i, t in enumerate(texts)])
            others = [reference.attributes(links, ".", e, absolute=True) for e in tree.walk(links)]
            for option in ("--json", "--jsonl"):
                for fields in (["name"], ["path", "name", "ext", "namex"], ["relpath", "pathx", "type"]):
                    yield case(f"names {option} {fields}", ["-j1", option, "-o", ",".join(fields)],
                               judge(found, fields_of(fields), option == "--jsonl"), where,
                               options={"max_steps": 10 ** 6})
                yield case(f"links {option}", ["-j1", option, "-o", "name,link,broken"],
                           judge(others, fields_of(["name", "link", "broken"]), option == "--jsonl"), links,
                           options={"max_steps": 10 ** 6})

        def selections():
            order = sorted(entries, key=lambda e: (e["size"], e["path"]))
            for option in ("--json", "--jsonl"):
                jsonl = option == "--jsonl"
                chosen = fields_of(["name", "size"])
                base = ["-j1", option, "-o", "name,size"]
                yield case(f"sorted {option}", base + ["-S", "size"], judge(order, chosen, jsonl, ordered=True), root)
                yield case(f"reverse {option}", base + ["-S", "size", "-R"],
                           judge(order[::-1], chosen, jsonl, ordered=True), root)
                yield case(f"nothing {option}", base + ["name=nothing"], judge([], chosen, jsonl), root, False)
                yield case(f"nothing --fail {option}", base + ["name=nothing", "--fail"],
                           judge([], chosen, jsonl, code=1), root, False)
                yield case(f"one {option}", base + ["name=a"],
                           judge([e for e in entries if e["name"] == "a"], chosen, jsonl), root)
                yield case(f"--all {option}", base + ["--all"], judge(entries, chosen, jsonl), root)
                yield case(f"color {option}", base + ["--color=always"], judge(entries, chosen, jsonl), root,
                           env={"LS_COLORS": "di=1:ex=2:*.gz=3"})
                yield case(f"print0 sep {option}", base + ["-0", "--sep", "x"], judge(entries, chosen, jsonl), root)
                for where in ("d", "./d", root + "/d"):
                    below = [reference.attributes(root, os.path.normpath(where), e, absolute=True)
                             for e in tree.walk(os.path.join(root, "d"))]
                    yield case(f"directory {where} {option}", ["-j1", option, "-o", "path,relpath,root,dir", "-D", where],
                               judge(below, fields_of(["path", "relpath", "root", "dir"]), jsonl), root)
                yield case(f"default {option}", ["-j1", option], judge(entries, fields_of(["path"]), jsonl), root)

        pool = {"extra_env": PLUGIN_ENV}
        run_cases(check, "file attributes", files(), **pool)
        run_cases(check, "all types and missing values", values(), **pool)
        every = list(names())
        for env in ({}, {"PYTHONIOENCODING": "ascii:strict"}, {"LC_ALL": "C"}, {"PYTHONIOENCODING": "latin-1"}):
            run_cases(check, f"names {env}", every, extra_env={**PLUGIN_ENV, **env})
        run_cases(check, "selections", selections(), **pool)

        small = check.tree("schedules", [("f", "a/\"x", "12"), ("f", "a/y\udcff", "1"), ("l", "c", "b")])
        found = [reference.attributes(small, ".", e, absolute=True) for e in tree.walk(small)]
        many = check.tree("many", [("f", f"{d}/f{i:03d}") for d in "ab" for i in range(15)])
        lots = [reference.attributes(many, ".", e, absolute=True) for e in tree.walk(many)]
        jobs = []
        for where, items, option, num, bound in (
                (small, found, "--jsonl", 2, 1), (small, found, "--json", 2, 1), (many, lots, "--jsonl", 2, 1 if thorough else 0),
                (many, lots, "--json", 2, 1 if thorough else 0)):
            judgement = judge(items, fields_of(["path", "link"]), option == "--jsonl")
            jobs.append((f"{os.path.basename(where)} {option} -j{num}",
                         scenario(["--no-cache", f"-j{num}", option, "-o", "path,link"], cwd=where),
                         lambda r, j=judgement: finished(r) or j(r), bound + thorough, {}))
        explore_scenarios(check, jobs)
        real_runs(check, list(selections())[:8])
        return check.report.finish(
            rule="every list of attributes up to the bound, all attribute types, every byte in a name, and all pairs of "
                 "special ones, parsed strictly and compared with the values from the operating system")


if __name__ == "__main__":
    main()
