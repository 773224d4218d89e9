"""C26: the output has the requested fields, format, separators and colours."""

import itertools
import json
import pty
import re
import select
import subprocess

from .common import *
from . import reference
from .c25 import entries_of, NAMES, VALUES

T = 1500000000
TREE = [
    ("f", "a/f1", "12345", {"mtime": T + 5}), ("f", "a/b/F1.tar.gz", "x" * 2000, {"mtime": T, "mode": 0o755}),
    ("f", "a/b/f.TXT", "", {"mtime": T + 99, "mode": 0o600}), ("d", "c.gz", {"mtime": T}), ("f", ".h/x.txt", "1"),
    ("f", ".prof", "1"), ("f", "x..y", "1"), ("f", "end.", "1"), ("f", "..z", "1"), ("l", "ln.txt", "a/f1"), ("l", "ld", "a/b"),
    ("l", "dead.gz", "none"), ("p", "pipe"), ("f", "a b", "5"), ("f", "ü.txt", "yz" * 6000), ("f", "\udcff.t", "ff" * 40),
    ("f", "nl\nx", ""), ("f", "e\x1b[1mx", ""), ("f", "v1", json.dumps(
        {"vs": "a b\n{}c", "vp": "a/f1", "vn": 5, "vz": 3000, "vt": T, "vd": 3661, "vb": True, "vm": 0o644,
         "vl": ["a", "b c"], "vu": ["y", "x"], "vf": "file"})),
    ("f", "v2", json.dumps({"vs": "", "vn": 0, "vz": 0, "vt": 0, "vd": 0, "vb": False, "vm": 0, "vl": [], "vu": []})),
    ("f", "a/vx.txt", json.dumps({"vs": "\t\\|", "vn": 10 ** 9, "vl": ["|"], "vf": "symlink"}), {"mode": 0o755}),
]
ESCAPE = re.compile(r"\x1b\[[0-9;]*m")
RAW = {"PYTHONIOENCODING": "utf-8:surrogateescape"}
COLORS = "rs=0:di=01;34:ln=01;36:or=40;31:ex=01;32:*.txt=00;33:*.gz=91"
FIELD = re.compile(r"^(?:file\.)?([a-z.]+)(?::(-?\d+)?([hoxnv])?)?$")


def cell(field, entry, si=False):
    """The text of one field or None."""
    name, width, modifier = FIELD.match(field.strip()).groups()
    value = entry.get(name)
    if value is None:
        return "" if modifier == "n" else None
    if name == "path" and modifier == "h" and entry.get("link") is not None:
        text = f"{value} -> {entry['link']}"
    else:
        text = reference.text(name.rpartition(".")[2], value, modifier, si)
    if width is not None:
        text = text.ljust(-int(width)) if width.startswith("-") else text.rjust(int(width))
    return text


def line(fields, entry, sep=" ", everything=False, si=False):
    """The record for an entry or None."""
    cells = [cell(f, entry, si) for f in fields]
    if everything:
        cells = [c or "" for c in cells]
    return None if None in cells else sep.join(cells)


def padded(field):
    """Missing values and widths: whether they are padded is nowhere said."""
    return ":" in field and any(c.isdigit() for c in field)


def judge_records(expected, end="\0", ordered=False, strip=False):
    text = "".join(e + end for e in (expected if ordered else sorted(expected)))

    def judge(result):
        out = result["out"].decode("utf-8", "surrogateescape")
        if strip:
            out = ESCAPE.sub("", out)
        if ordered or end == "\n":
            same = out == text or not ordered and sorted(out.split("\n")) == sorted(text.split("\n"))
        else:
            same = out.endswith(end) == bool(expected) and sorted(out.split(end)[:-1]) == sorted(expected)
        if not same or result["code"] or has_traceback(result):
            got, want = out.split(end), text.split(end)
            return f"status {result['code']}, missing {[e for e in want if e not in got][:3]!r}, superfluous " \
                   f"{[g for g in got if g not in want][:3]!r} {err(result)[-200:]!r}"
        return None
    return judge


def make(key, root, fields, entries, args=(), sep=" ", everything=False, si=False, strip=False, end="\0", given=None):
    text = ESCAPE.sub if strip else None
    expected = [l for l in (line(fields, e, sep, everything, si) for e in entries) if l is not None]
    if text:
        expected = [text("", l) for l in expected]
    args = list(args) + ([] if end == "\n" else ["-0"])
    return case(f"{key} {' '.join(map(repr, args))} {fields}", ["-j1", *args, "-o", given or ",".join(fields)],
                judge_records(expected, end, strip=strip), root, bool(expected))


FIELDS = ["path", "name", "dir", "size", "size:h", "link", "ext", "name:8", "name:-8", "size:6h", "perm:o", "link:n", "vals.vs",
          "vals.vl", "type", "mode:h", "path:h"]


def lists(check, root, entries):
    for length in (1, 2, 3):
        for fields in itertools.product(FIELDS, repeat=length):
            if length == 3 and not check.thorough and not {"link", "vals.vs", "name:-8"} & set(fields):
                continue
            yield make("list", root, fields, entries)
            if "link" in fields or "vals.vs" in fields:
                yield make("list", root, fields, entries, ["--all"], everything=True)


def attributes(root, entries):
    names = NAMES + ["vals." + n for n in VALUES]
    for name in names:
        for full in [name] + (["file." + name] if name in NAMES else []):
            for width in ("", "0", "1", "7", "-7", "30", "-30", "-1", "-0", "007"):
                for modifier in ("", "h", "o", "x", "n", "v"):
                    field = f"{full}:{width}{modifier}" if width or modifier else full
                    if width and modifier == "n" and any(e.get(name) is None for e in entries):
                        continue
                    yield make("attribute", root, [field], entries)
                    if modifier == "h":
                        yield make("attribute", root, [field, "path"], entries, ["--si"], si=True)
            yield make("attribute", root, [full, "path"], entries, ["--all"], everything=True)
    for fields, given in ((["name", "size"], "name, size"), (["name", "size"], " name,size "), (["name", "size:h"], "name , size:h"),
                          (["name", "name"], "name,name"), (["name", "name:9", "file.name"], "name,name:9,file.name")):
        yield make("spelling", root, fields, entries, given=given)
    for given in ("", ",", "name,", ",name", "name,,size", "zz", "name:", "name:q", "name:5hh", "name:h5", "name size", "na-me", "zz.name",
                  "{}", "name:--5", "name:+5", "*", "file.", ".name", "file.zz", "name;size"):
        if given == "name:":
            continue
        yield case(f"refused {given!r}", ["-j1", "-o", given], expect_error((2, 11)), root)
        yield case(f"refused --all {given!r}", ["-j1", "--all", "-o", given], expect_error((2, 11)), root)


def separators(root, entries):
    texts = ["", ",", "  ", "ab", "é", "%s", "{}", "\t", "\n", "\\", "|", " - ", "\x1b", "'", "$x", "-", "--", "=", "\udcff", "*"]
    texts = [(t, t) for t in texts] + [("\\t", "\t"), ("\\n", "\n"), ("a\\tb", "a\tb"), ("\\n\\n", "\n\n"), (" \\t", " \t"), ("\\x", "\\x")]
    for given, sep in texts:
        for fields in (["path"], ["name", "size"], ["link", "name"], ["name:-9", "type", "link:n"], ["dir", "ext", "name"],
                       ["vals.vs", "vals.vl"]):
            for everything in (False, True):
                if everything and any(map(padded, fields)):
                    continue
                opts = ["--all"] if everything else []
                yield make("separator", root, fields, entries, [*opts, f"--sep={given}"], sep, everything)
                yield make("terminator", root, fields, entries, [*opts, f"--sep={given}"], sep, everything, end="\n")
                if not given.startswith("-"):
                    yield make("separator", root, fields, entries, [*opts, "--sep", given], sep, everything)
    # both escapes, in any order and number
    for num in (2, 3, 4):
        for parts in itertools.product(["\\t", "\\n", "\\", "n"][:4 if num < 4 else 2], repeat=num):
            given = "".join(parts)
            sep = given.replace("\\t", "\t").replace("\\n", "\n")
            yield make("escapes", root, ["name", "size", "link:n"], entries, [f"--sep={given}"], sep)
    # below the root directory
    for opts in ([], ["-a"], ["-C", "always"]):
        for fields in (["path"], ["path:h"]):
            def judge(result, fields=fields):
                names = os.listdir("/")
                got = ESCAPE.sub("", result["out"].decode("utf-8", "surrogateescape")).split("\0")[:-1]
                expected = ["/" + n + (" -> " + os.readlink("/" + n) if fields == ["path:h"] and os.path.islink("/" + n) else "") for n in names]
                return None if sorted(got) == sorted(expected) and not result["code"] else f"{sorted(set(got) ^ set(expected))[:3]} status {result['code']}"
            yield case(f"root directory {opts} {fields}", ["-j1", "-0", "-D", "/", "-d0", *opts, "-o", ",".join(fields)], judge, root,
                       env={"LS_COLORS": COLORS})


def combinations(root, entries):
    """Options that leave the fields alone or replace each other."""
    by_inode = sorted(entries, key=lambda e: (e["inode"], e["path"]))
    for fields in (["path"], ["name", "size:h"], ["inode:12", "link", "path"], ["link:n", "name"]):
        rows = [line(fields, e) for e in by_inode]
        rows = [r for r in rows if r is not None]
        argument = ["-0", "-o", ",".join(fields)]
        present = [e for e in by_inode if line(fields, e) is not None]
        for opts, expected in ((["--sort=inode"], rows), (["--sort=inode", "-R"], rows[::-1]),
                               (["--sort=inode", "type=l"], [line(fields, e) for e in present if e["type"] == "symlink"]),
                               (["--sort=inode", "size+1000"], [line(fields, e) for e in present if e["size"] > 1000])):
            yield case(f"{opts} {fields}", ["-j1"] + opts[1:] + opts[:1] + argument, judge_records(expected, ordered=True), root)
        yield make("last", root, fields, entries, ["-o", "ext,perm"])
        yield make("last", root, fields, entries, ["-v"])
        yield make("jobs", root, fields, entries, ["-j3"])
    verbose = ["mode:h", "links", "user:h", "group:h", "size:5h", "time:h", "path:h"]
    rows = [line(verbose, e) for e in entries]
    yield case("-v", ["-j1", "-0", "-v"], judge_records(rows), root)
    yield case("-v --sort", ["-j1", "-0", "-v", "--sort=inode"], judge_records([line(verbose, e) for e in by_inode], ordered=True), root)
    yield case("-o -v", ["-j1", "-0", "-o", "size", "-v"], judge_records(rows), root)
    yield case("-v --si", ["-j1", "-0", "-v", "--si"], judge_records([line(verbose, e, si=True) for e in entries]), root)
    yield case("-v newline", ["-j1", "-v"], judge_records(rows, "\n"), root)
    yield case("default", ["-j1"], judge_records([e["path"] for e in entries], "\n"), root)
    for args, start, follow, absolute in ((["-a"], ".", False, True), (["-L"], ".", True, False), (["-D", "a"], "a", False, False),
                                          (["-D", root], root, False, False), (["./a"], "a", False, False)):
        others = entries_of(root, start, follow, absolute)
        for fields in (["path"], ["path:h"], ["root", "relpath", "name:20"], ["dir", "name"], ["link", "path"], ["target:n", "depth"]):
            if fields == ["path:h"] and follow:
                continue
            yield make("start", root, fields, others, args)
        yield case(f"-v {args}", ["-j1", "-0", "-v", *args], judge_records([line(verbose, e) for e in others]), root)


def judge_colors(fields, entries, colors, end, sep):
    """The text is that without colours; each colour ends before the record; pathnames have their colours."""
    expected = {}
    for entry in entries:
        text = line(fields, entry, sep)
        if text is not None:
            expected.setdefault(ESCAPE.sub("", text), []).append(entry)
    rules = dict(c.split("=", 1) for c in colors.split(":") if "=" in c)

    def rule(entry):
        if entry["type"] == "symlink":
            return rules.get("or" if entry["broken"] else "ln")
        if entry["type"] == "directory":
            return rules.get("di")
        if entry["exec"]:
            return rules.get("ex")
        return rules.get("*." + entry["ext"]) if entry["ext"] else None

    plain = judge_records([ESCAPE.sub("", t) for t, es in expected.items() for _ in es], end, strip=True)

    def judge(result):
        message = plain(result)
        if message:
            return message
        for record in result["out"].decode("utf-8", "surrogateescape").split(end)[:-1]:
            codes = ESCAPE.findall(record)
            if "\x1b[1mx" in record:
                continue
            if len(codes) % 2 or any(c != "\x1b[0m" for c in codes[1::2]):
                return f"colours are not reset: {record!r}"
            if fields == ["path"]:
                entry, = expected[ESCAPE.sub("", record)]
                wanted = rule(entry)
                last = f"\x1b[{wanted}m" if wanted else None
                name = entry["path"] if entry["type"] == "directory" else entry["name"]
                if last and not record.endswith(last + name + "\x1b[0m") or not last and not record.endswith(name):
                    return f"wrong colour: {record!r}, {wanted} expected"
        return None
    return judge


def colors(root, entries):
    variants = [COLORS, "di=1:ex=2:ln=3:or=4", "di=34", "*.txt=33:*.gz=91;4", "rs=0:ln=36", "xx=1:di=1:y:=:z=", "fi=0:or=31:*.t=7", ":::",
                "di=:ln=36", "*.TXT=1:*.y=2:*.=3:*x=4"]
    for value in variants:
        for fields in (["path"], ["name"], ["dir"], ["path:h"], ["path", "name", "dir"], ["size", "path:20", "link:n"], ["name:-20", "path:-30"],
                       ["link", "path"], ["pathx", "root"], ["dir:10", "name:3"]):
            for end, opts in (("\0", ["-0"]), ("\0", ["-0", "-S"]), ("\0", ["-0", "--sep", "|"])):
                sep = "|" if "--sep" in opts else " "
                usual = value if value.startswith(("rs", "di=1:", "di=34", "*.txt")) else None
                judge = judge_colors(fields, entries, value, end, sep) if usual else judge_records(
                    [ESCAPE.sub("", l) for l in (line(fields, e, sep) for e in entries) if l is not None], end, strip=True)
                yield case(f"colours {value} {fields} {opts}", ["-j1", "-C", "always", *opts, "-o", ",".join(fields)], judge, root,
                           env={"LS_COLORS": value})
        for how, env in ((["-C", "never"], {}), (["--color=auto"], {}), ([], {}), ([], {"NO_COLOR": "1"}), (["-C", "never"], {"NO_COLOR": ""}),
                         (["-C", "auto"], {"NO_COLOR": ""})):
            for fields in (["path"], ["path:h", "name"]):
                rows = [l for l in (line(fields, e) for e in entries) if l is not None]
                yield case(f"no colours {value} {how} {env} {fields}", ["-j1", "-0", *how, "-o", ",".join(fields)], judge_records(rows), root,
                           env={"LS_COLORS": value, **env})
    for value in ("di=1:ex=2:ln=3:or=4", COLORS):
        judge = judge_colors(["path"], entries, value, "\0", " ")
        for how, env in ((["-C", "always"], {"NO_COLOR": "1"}), (["-C", "never", "-C", "always"], {})):
            yield case(f"colours {value} {how} {env}", ["-j1", "-0", *how], judge, root, env={"LS_COLORS": value, **env})
    for opts in (["--json"], ["--jsonl"], ["--count"], ["--count=type,size"], ["-x", "cmd"]):
        def judge(result):
            return f"escape sequences: {result['out'][:200]!r}" if b"\x1b" in result["out"] or result["code"] else None
        if opts[0] != "-x":
            yield case(f"always {opts}", ["-j1", "-C", "always", *opts], judge, root, env={"LS_COLORS": COLORS})


def file_fields(check, root):
    """-o file: all attributes of an entry; the values are those of the JSON output."""
    pool = check.pool(extra_env={**PLUGIN_ENV, **RAW})
    for output in ("file", "file,vals.vs", "vals.vn,file,name", "vals.vs, file", " file ,vals.vn"):
        for args in ([], ["-L"], ["-D", "a"]):
            scens = [scenario(["--no-cache", "-j1", "--sort=inode", "-0", "--all", "--sep=|x|", "-a", *args, "-o", output, *more], cwd=root)
                     for more in ([], ["--jsonl"])]
            plain, jsonl = need(pool.map([{"scenario": s} for s in scens]))
            check.report.case(("file", output, *args), True)
            check.report.count("states")
            check.report.count("transitions", plain["steps"] + jsonl["steps"])
            rows = plain["out"].decode("utf-8", "surrogateescape").split("\0")[:-1]
            records = [json.loads(l) for l in jsonl["out"].decode().split("\n")[:-1]]
            fields = [f.strip() for f in output.replace("file", "\0").split(",")]
            wanted = []
            for record in records:
                keys = list(record)
                order = [k for k in keys if k.startswith("file.") or "." not in k]
                names = []
                for field in fields:
                    names += order if field == "\0" else [field if field in record else "file." + field]
                texts = ["" if record[k] is None else reference.text(k.rpartition(".")[2], record[k]) for k in names]
                wanted.append("|x|".join(texts))
            missing = [n for n in NAMES if records and not {n, "file." + n} & set(records[0])]
            if finished(plain) or finished(jsonl) or rows != wanted or missing or not rows:
                check.report.violation(f"-o {output} {args}: status {plain['code']}, missing {missing}, "
                                       f"{[(r, w) for r, w in zip(rows, wanted) if r != w][:2]!r}", {"err": err(plain)[-500:]})


def terminal(check, root, entries):
    """With a terminal there are colours unless they are switched off."""
    for args, env, colored in (([], {}, True), (["-C", "never"], {}, False), ([], {"NO_COLOR": "1"}, False), ([], {"NO_COLOR": "0"}, False), ([], {"NO_COLOR": "no"}, False), (["-C", "auto"], {"NO_COLOR": "1"}, True),
                               (["--json"], {}, False), (["--count"], {}, False), (["-C", "always"], {}, True)):
        if args == ["-C", "auto"]:
            continue  # what wins is nowhere said
        main, sub = pty.openpty()
        base = clean_env(check.scratch.home, {"PYTHONPATH": REPO, "LS_COLORS": COLORS, "TERM": "xterm", **RAW, **env})
        proc = subprocess.Popen([PYTHON, "-m", "ff", "--no-cache", *args], cwd=root, env=base, stdin=subprocess.DEVNULL, stdout=sub,
                                stderr=subprocess.PIPE)
        os.close(sub)
        out = b""
        while True:
            if not select.select([main], [], [], 60)[0]:
                break
            try:
                data = os.read(main, 65536)
            except OSError:
                break
            if not data:
                break
            out += data
        os.close(main)
        proc.kill() if proc.poll() is None and not out else None
        proc.communicate()
        text = out.decode("utf-8", "surrogateescape").replace("\r\n", "\n").replace("e\x1b[1mx", "ex")
        check.report.case(("terminal", *args, *env), True)
        check.report.count("real_runs")
        if bool(ESCAPE.search(text)) != colored or proc.returncode:
            check.report.violation(f"terminal {args} {env}: {'no ' if colored else ''}colours, status {proc.returncode} {text[:200]!r}", {})
        elif "--json" not in args and "--count" not in args and sorted(ESCAPE.sub("", text).split("\n")) != sorted(
                "".join(e["path"].replace("e\x1b[1mx", "ex") + "\n" for e in entries).split("\n")):
            check.report.violation(f"terminal {args} {env}: {text!r}", {})


def main():
    with Check("C26") as check:
        root = check.tree("tree", TREE)
        entries = entries_of(root)
        pool = {"extra_env": {**PLUGIN_ENV, **RAW}}
        run_cases(check, "lists", lists(check, root, entries), **pool)
        run_cases(check, "attributes", attributes(root, entries), **pool)
        run_cases(check, "separators", separators(root, entries), **pool)
        run_cases(check, "combinations", combinations(root, entries), **pool)
        run_cases(check, "colours", colors(root, entries), **pool)
        file_fields(check, root)
        terminal(check, root, entries)
        sample = list(colors(root, entries)) + list(separators(root, entries))
        real_runs(check, sample[::len(sample) // (100 if check.thorough else 10)], {**RAW, **PLUGIN_ENV})
        return check.report.finish(
            rule="a case is one search with one list of fields, separator, terminator, colour setting; nontrivial: there is output")
