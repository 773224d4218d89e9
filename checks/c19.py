"""C19: any command line leads to a documented result, options mean the same in all spellings."""

import itertools
import re
import shlex

from .common import *

ALPHABET = [
    "-H", "-I", "-L", "-a", "-0", "-v", "-R", "-1", "--all", "--json", "--jsonl", "--ndjson", "--si", "--fail", "--no-parent-ignore", "--one-file-system",
    "--mount", "-S", "-Ssize", "--sort=size", "--sort=", "--sort=,", "--count", "--count=type", "--count=", "--count=name", "-l", "1:2", "-l:1", "-l-1:", "--limit=2,0",
    "--limit=", "--limit=x", "--limit=:", "--limit=,", "-l-", "-o", "path", "-osize", "--output=", "--output=name:20h", "--output=x", "-ofile", "--sep=", "--sep=x",
    "-d1", "-d", "0-", "-d=", "--depth=-", "--depth=2-1", "--depth=1,", "--depth=x", "--depth=", "-e", "name=a", "--exclude=", "--exclude=size=x", "-c",
    "ignore", "-csmart", "--case=", "--case=bad", "-C", "always", "--color=never", "-D", "d", "-Dnone", "--directory=", "--directory=./d", "-j", "2", "-j0",
    "-j-1", "--jobs=x", "--jobs=", "-x", "-X", "echo", "{}", "{x", "--halt=now", "--halt=", "--ignore-files=", "--ignore-files=.x", "--cache=d",
    "--cache=/nonexistent/x", "--cache=", "--no-cache", "--clean-cache", "--debug=", "--debug=all", "--profile", "-h", "-hgrep", "--help=nonsense",
    "--version", "--help-full", "--help-attributes", "--help-types", "--help-plugins", "-", "--", "---", "--=", "-=", "--x", "-z", "-Hz", "-HaR0", "-HR1S",
    "-SR", "-l5", "-xls", "", " ", "name", "=", "name=", "nonsense=x", "size+1", "size+1k", "./d", "d/", "/nonexistent/", "not", "and", "or", "(", ")", "{{",
    "}}", "()", "é=1", "\udcff", "\n", "-é", "--é=1", "-o\udcff", "name={}", "--no-cache=1", "-H=1", "--json=1", "--hide=yes", "name=\udcff", "-D\udcff",
    "--sep=\udcff", "--debug=\udcff", "-e\udcff", "--si=", "size=" + "9" * 30, "-j" + "9" * 30, "-l" + "9" * 30 + ":", "-d" + "9" * 30, "time=" + "9" * 30,
    "size=" + "9" * 5000, "-l" + "9" * 5000 + ":", "name%[", "name%(*", "name~*", "name=" + "x" * 5000, "mtime=1d", "perm=x", "type=", "type=x",
]

TRIPLES = ["-H", "-S", "-R", "-1", "--count", "-l", "1:", "-o", "path", "-x", "-D", "d", "-d", "0-", "-e", "name=a", "not", "(", ")", "or", "--json", "-j2", "",
           "--", "-h", "-X", "{}", "-c", "smart", "./d", "--profile", "-a"]

STATES = (0, 1, 2, 3, 11, 12)


def robust(argv):
    """Judge: a documented status and nothing but results on standard output."""
    helps = [a for a in argv if a.startswith(("-h", "--help", "--version", "--clean"))]

    def judge(result):
        text = err(result)
        if has_traceback(result) or "Error:" in text.replace("ff: error:", "").replace("ERROR:", "") and "WARNING" not in text and "--profile" not in argv and \
                "--debug=all" not in argv:
            return f"traceback {text[-400:]!r}"
        code = result["code"]
        if code not in STATES:
            return f"status {code} {text[-300:]!r}"
        refused = re.search(r"^(ERROR: |ff: error: )", text, re.M)
        if code in (2, 11, 12):
            if not refused:
                return f"status {code} without a message {text[-200:]!r}"
            if result["out"]:
                return f"refused with output {result['out'][:100]!r}"
            if result["calls"]:
                return f"refused with a command {result['calls'][:1]}"
        if code == 0 and refused:
            return f"status 0 with an error {text[-200:]!r}"
        if code == 1 and "--fail" not in argv and not helps:
            return f"status 1 {text[-200:]!r}"
        if code == 1 and result["out"] and not any(a.startswith(("--json", "--count")) for a in argv):
            return "no result and output"
        if code == 3 and not refused:
            return "status 3 without a message"
        return None
    return judge


def anything(check, cwd):
    for arg in ALPHABET:
        yield case(f"{arg!r}", [arg], robust([arg]), cwd)
    for pos, combo in enumerate(itertools.product(ALPHABET, repeat=2)):
        if check.thorough or pos % 6 == check.report.seed % 6 or combo[0] in TRIPLES:
            yield case(f"{combo!r}"[:300], list(combo), robust(combo), cwd)
    for combo in itertools.product(TRIPLES if check.thorough else TRIPLES[:23], repeat=3):
        yield case(f"{combo!r}", list(combo), robust(combo), cwd)


# Options with all their spellings; the first one is the reference.
def value(long, short, val, optional=False):
    """All spellings of an option with a value."""
    out = [[f"{long}={val}"]]
    if not optional or not val.startswith("-"):
        out.append([long, val])
    if short:
        if val:
            out.append([short + val])
        if not optional or not val.startswith("-"):
            out.append([short, val])
    return out


def flag(long, short=None):
    return [[long]] + ([[short]] if short else [])


OPTIONS = {
    "hide": flag("--hide", "-H"), "ignore": flag("--ignore", "-I"), "follow": flag("--follow", "-L"), "absolute": flag("--absolute-path", "-a"),
    "print0": flag("--print0", "-0"), "reverse": flag("--reverse", "-R"), "sort": flag("--sort", "-S"), "first": [["--limit=0:1"], ["-1"], ["--limit", ":1"], ["-l1,0"]],
    "all": flag("--all"), "json": flag("--json"), "jsonl": [["--jsonl"], ["--ndjson"]], "si": flag("--si"), "fail": flag("--fail"),
    "npi": flag("--no-parent-ignore"), "ofs": [["--one-file-system"], ["--mount"], ["--xdev"]], "count": flag("--count"),
    "sort by": value("--sort", "-S", "size,name", True), "count by": [["--count=type"], ["--count", "type"]],
    "limit": value("--limit", "-l", "1:3"), "limit end": value("--limit", "-l", "-2:"), "output": value("--output", "-o", "size,path"),
    "sep": [["--sep=|"], ["--sep", "|"]], "depth": value("--depth", "-d", "1"), "depth range": value("--depth", "-d", "-1"),
    "exclude": value("--exclude", "-e", "name=b"), "exclude 2": value("--exclude", "-e", "type=d"), "case": value("--case", "-c", "sensitive"),
    "color": value("--color", "-C", "always"), "dir": value("--directory", "-D", "d"), "dir 2": value("--directory", "-D", "e"),
    "jobs": value("--jobs", "-j", "2"), "halt": [["--halt=now"], ["--halt", "now"], ["--halt-on-error=now"], ["--halt-on-error", "now"]],
    "ignore files": [["--ignore-files=.x"], ["--ignore-files", ".x"]], "verbose": flag("--verbose", "-v"), "output =": value("--output", "-o", "path:5"),
    "exclude =": value("--exclude", "-e", "name~[ab]=?"),
}
# what cannot be told from each other
SAME = [{"sort", "sort by"}, {"first", "limit", "limit end"}, {"count", "count by"}, {"depth", "depth range"}, {"json", "jsonl"}, {"output", "verbose", "output ="}]
TESTS = [[], ["type=f"], ["name=A"]]


def fine(combo):
    return not any(len(group & set(combo)) > 1 for group in SAME)


def bundle(parts):
    """Join all neighbouring short options."""
    out = []
    closed = True
    for part in parts:
        short = len(part[0]) >= 2 and part[0][0] == "-" and part[0][1] != "-"
        if short and not closed:
            out[-1] += part[0][1:]
        else:
            out.append(part[0])
        flagged = short and len(part[0]) == 2 and len(part) == 1
        closed = not (flagged and part[0] != "-S")
        if len(part) > 1:
            out += part[1:]
            closed = True
    return out


def spellings(combo, number, everything):
    """(argv, FF_OPTIONS, what) for the spellings of a set of options."""
    lists = [OPTIONS[name] for name in combo]
    choices = list(itertools.product(*lists))
    orders = list(itertools.permutations(range(len(combo))))
    seen = set()
    for pos, parts in enumerate(choices):
        for place, order in enumerate(orders):
            if not everything and (pos + place + number) % 11:
                continue
            row = [parts[i] for i in order]
            flat = [a for part in row for a in part]
            # an optional argument would take a test
            ends = flat and flat[-1] in ("--sort", "-S", "--count")
            cut = (pos + place) % (len(row) + 1)
            first, rest = [a for p in row[:cut] for a in p], [a for p in row[cut:] for a in p]
            optional = lambda args: bool(args) and args[-1] in ("--sort", "-S", "--count")
            kinds = {"after": ("tests", flat, None), "before": (flat, "tests", None), "bundled": ("tests", bundle(row), None),
                     "bundled before": (bundle(row), "tests", None), "around": (first, "tests", rest), "environment": (None, "tests", flat),
                     "environment and after": ("tests", rest, first)}
            for kind, args in kinds.items():
                if kind in ("before", "bundled before") and ends or kind == "around" and optional(first) or \
                        kind == "environment" and ends:
                    continue
                key = (kind, str(args))
                if key in seen:
                    continue
                seen.add(key)
                yield kind, args


def build(kind, args, tests):
    if kind == "environment":
        return tests, " ".join(shlex.quote(a) for a in args[2])
    if kind == "environment and after":
        return tests + args[1], " ".join(shlex.quote(a) for a in args[2])
    return [a for part in args if part for a in (tests if part == "tests" else part)], None


def outcome(result):
    return sorted(result["out"].split(b"\n")), result["code"], sorted(result["err"].split(b"\n"))


def ordered(result):
    return result["out"], result["code"], sorted(result["err"].split(b"\n"))


def equal_spellings(check, cwd):
    """Sets of up to three options: all spellings, orders and places against the long form."""
    names = list(OPTIONS)
    todo = []
    for count in (1, 2, 3):
        for number, combo in enumerate(itertools.combinations(names, count)):
            if not fine(combo):
                continue
            if count == 3 and not check.thorough and number % 89 != check.report.seed % 89:
                continue
            todo.append((number, combo))
    pool = check.pool(install={"subprocess": True})
    reference = {}
    keys = [(combo, t) for n, combo in todo for t in range(len(TESTS)) if len(combo) < 3 or t == n % len(TESTS)]

    def canonical(combo, tests):
        return ["-j1", *tests, *[a for name in combo for a in OPTIONS[name][0]]]
    for start in range(0, len(keys), 4096):
        part = keys[start:start + 4096]
        results = need(pool.map([{"scenario": case("", canonical(c, TESTS[t]), None, cwd)[1]} for c, t in part]))
        for key, result in zip(part, results):
            reference[key] = result
    for number, combo in todo:
        for t, tests in enumerate(TESTS):
            expected = reference.get((combo, t))
            if expected is None:
                continue
            message = finished(expected) or robust(canonical(combo, tests))(expected)
            if message:
                check.report.violation(f"{canonical(combo, tests)}: {message}")
                continue
            # a set order of the result is kept
            kind_of = ordered if "sort by" in combo or "sort" in combo else outcome
            if ("count" in combo or "count by" in combo) and "json" not in combo:
                kind_of = outcome
            if "jobs" in combo and kind_of is ordered and not ("sort" in combo or "sort by" in combo):
                kind_of = outcome
            want = kind_of(expected)
            if ("first" in combo or "limit" in combo or "limit end" in combo) and not ("sort" in combo or "sort by" in combo) and "jobs" in combo:
                continue  # which ones is open
            for kind, args in spellings(combo, number + t, len(combo) < 2 or check.thorough and len(combo) < 3):
                argv, options = build(kind, args, list(tests))

                def judge(result, want=want, kind_of=kind_of, expected=expected):
                    got = kind_of(result)
                    return None if got == want else f"{got} instead of {want}"
                jobs = [] if "jobs" in combo else ["-j1"]
                yield case(f"{kind} {options!r} {argv}", jobs + argv if kind != "environment" else jobs + argv, judge, cwd,
                           env={"FF_OPTIONS": options} if options is not None else None)


def environment(check, cwd):
    """FF_OPTIONS is split like the shell does it."""
    files = ["a", "B", "b", "d", "d/a", "d/B", "e", "e/c", ".h", ".x"]
    for text, argv, want in (
            ("", [], files), ("  ", [], files), ("-H", [], [f for f in files if f[0] != "."]), ("'-H'", [], [f for f in files if f[0] != "."]),
            ("-H  \n -d0", [], ["a", "B", "b", "d", "e"]), ("name=c", [], ["e/c"]), ("'name=c'", [], ["e/c"]), ("name=\\c", [], ["e/c"]),
            ("name='c'", [], ["e/c"]), ('name="c"', [], ["e/c"]), ("-o name:", ["name=c"], ["c"]), ("--sep '-'", ["name=c", "-opath,name"], ["e/c-c"]),
            ("--sep=' - '", ["name=c", "-opath,name"], ["e/c - c"]), ("--sep=", ["name=c", "-opath,name"], ["e/cc"]),
            ("-o path", ["name=c", "-oname"], ["c"]), ("-e name=c", ["-e", "name=a", "-e", "hidden=yes"], ["B", "b", "d", "d/B", "e"]),
            ("-D d", ["-D", "e"], ["d/a", "d/B", "e/c"]), ("-cignore", ["-csensitive", "name=b"], ["b"]), ("name=c", ["or", "path=a"], ["a", "e/c"]),
            ("name=c or", ["path=a"], ["a", "e/c"]), ("-d1", ["-d0", "type=d"], ["d", "e"])):
        yield f"FF_OPTIONS={text!r} {argv}", scenario(argv, cwd=cwd, env={"FF_OPTIONS": text}), expect_lines(want), True
    for text in ("'", '"', "-o '", "\\", "name='c", 'a"b', "'\"", "-H \\"):
        yield case(f"FF_OPTIONS={text!r}", [], expect_error((2,)), cwd, env={"FF_OPTIONS": text})
    # tests may not be mixed with options
    for count in (1, 2):
        for option in (["-H"], ["-d1"], ["--sep", "x"], ["-d", "1"], ["--case=smart"]):
            yield case(f"mixed {count} {option}", ["name=a"] * count + option + ["name=b"], expect_error((2,)), cwd)
            yield case(f"FF_OPTIONS mixed {count} {option}", option + ["name=b"], expect_error((2,)), cwd, env={"FF_OPTIONS": " ".join(["name=a"] * count)})
    # --exec takes everything that follows
    for text, argv, calls in (("-x cmd", [], [["cmd", f] for f in files]), ("", ["-Hx", "cmd", "{}"], None), ("", ["-xcmd"], [["cmd", f] for f in files]),
                              ("", ["-Hxcmd"], None), ("-x cmd", ["-H"], [["cmd", "-H", f] for f in files]), ("", ["-H", "-x", "cmd"], None),
                              ("-H", ["-x", "cmd", "-a"], [["cmd", "-a", f] for f in files if f[0] != "."]),
                              ("", ["-x", "cmd", "--", "{}", "--", "-x", "-X"], [["cmd", "--", f, "--", "-x", "-X"] for f in files]), ("", ["-x", "--", "{}"], [["--", f] for f in files]),
                              ("", ["-xcmd", "-H", "{}"], [["cmd", "-H", f] for f in files])):
        want = calls if calls is not None else [["cmd", f] for f in files if f[0] != "."]

        def judge(result, want=want):
            got = sorted(c["args"] for c in result["calls"])
            return None if got == sorted(want) and not result["code"] else f"commands {got[:3]} instead of {want[:3]} status {result['code']} {err(result)[-100:]!r}"
        yield f"exec {text!r} {argv}", scenario(argv, cwd=cwd, env={"FF_OPTIONS": text}), judge, True


def words(text):
    """Split a text like the shell does it without expansions; None if it is malformed."""
    out, word, quote, pos = [], None, None, 0
    while pos < len(text):
        char = text[pos]
        pos += 1
        if quote == "'":
            if char == "'":
                quote = None
            else:
                word += char
        elif char == "\\" and quote is None or char == "\\" and text[pos:pos + 1] in ('"', "\\"):
            if pos == len(text):
                return None
            word = (word or "") + text[pos]
            pos += 1
        elif quote == '"':
            if char == '"':
                quote = None
            else:
                word += char
        elif char in "'\"":
            quote = char
            word = word or ""
        elif char in " \t\n":
            if word is not None:
                out.append(word)
            word = None
        else:
            word = (word or "") + char
    if quote:
        return None
    return out + ([word] if word is not None else [])


def quoting(check, cwd):
    """All sequences of characters with a meaning for the shell in FF_OPTIONS."""
    for length in range(1, 7 if check.thorough else 5):
        for chars in itertools.product(" '\"\\#x", repeat=length):
            text = "".join(chars)
            args = words(text)
            if args is None:
                yield case(f"FF_OPTIONS=-x cmd {text!r}", [], expect_error((2,)), cwd + "/e", env={"FF_OPTIONS": "-x cmd " + text})
                continue

            def judge(result, args=args):
                got = [c["args"] for c in result["calls"]]
                want = [["cmd", *args, "c"]]
                return None if got == want and not result["code"] else f"commands {got[:3]} instead of {want} status {result['code']} {err(result)[-100:]!r}"
            yield f"FF_OPTIONS=-x cmd {text!r}", scenario([], cwd=cwd + "/e", env={"FF_OPTIONS": "--no-cache -j1 -x cmd " + text}), judge, True
    for chars in itertools.product("#;&|$*?~`!(){}<>=-", repeat=2):
        text = "".join(chars)

        def judge(result, text=text):
            return None if result["out"] == f"a{text}0\n".encode() else f"output {result['out']!r} status {result['code']} {err(result)[-100:]!r}"
        yield case(f"FF_OPTIONS=--sep {text!r}", ["name=a", "depth=0", "-oname,depth"], judge, cwd, env={"FF_OPTIONS": "--sep " + text})


ENDS = [[], ["-S"], ["-d", "0"], ["-x", "cmd"], ["-x", "cmd", "{}", "-H"], ["-X", "cmd"], ["-j", "2"], ["-o", "name"], ["-e", "name=a"], ["-D", "d"], ["-l", "1:"]]


def bundles(check, cwd):
    """All sequences of flags in one argument, the last of them with a value of its own or the next argument."""
    pool = check.pool(install={"subprocess": True})
    todo = []
    for length in range(1, 5 if check.thorough else 4):
        for flags in itertools.product("HILaR0" if length < 4 else "HLa0", repeat=length):
            if not check.thorough and length == 3 and len(set(flags)) < 3:
                continue
            for end in ENDS:
                todo.append(([f"-{f}" for f in flags], end))
    argvs = []
    for flags, end in todo:
        joined = "-" + "".join(f[1] for f in flags)
        argvs.append([["-j1", *flags, *end], ["-j1", joined + (end[0][1:] if end else ""), *end[1:]]] +
                     ([["-j1", joined + end[0][1:] + end[1], *end[2:]]] if len(end) > 1 else []))
    results = need(pool.map([{"scenario": case("", argv, None, cwd)[1]} for group in argvs for argv in group]))
    results = iter(results)
    for group in argvs:
        key = lambda r: ((ordered if "-S" in group[0] else outcome)(r), sorted(map(repr, (c["args"] for c in r["calls"]))))
        first = next(results)
        check.report.case(("bundle", *group[0]), bool(first["out"] or first["calls"]))
        for argv in group[1:]:
            result = next(results)
            check.report.case(("bundle", *argv), bool(result["out"] or result["calls"]))
            check.report.count("states")
            check.report.count("transitions", result["steps"])
            if finished(result) or key(result) != key(first):
                check.report.violation(f"{argv}: {key(result)} instead of {key(first)} for {group[0]}")


def attached(check, cwd):
    """A value in the same argument as a short option is taken as it is."""
    for text in ("=d", "=", "==d", " d", "-d", "d=", "'d'", '"d"', "\\d"):
        base = check.tree("attached" + text.encode().hex(), [("f", text + "/f"), ("f", "d/g" if text != "d" else "g")])
        for argv in (["-D" + text], ["-D", text], ["--directory=" + text], ["-HD" + text], ["-HaD" + text]):
            full = base + "/" if "a" in argv[0][:3] and argv[0].startswith("-Ha") else ""
            yield case(f"attached {argv}", ["-j1", *argv], expect_lines([full + text + "/f"]), base)


def main():
    with Check("C19") as check:
        cwd = check.tree("tree", [("f", "a", "xxx"), ("f", "b", "x"), ("f", "B", "xx"), ("f", "d/a", "x" * 1000), ("f", "d/B", ""), ("f", "e/c", "yy"),
                                  ("f", ".h", "b\n"), ("f", ".x", "a\n")])
        pool = {"install": {"subprocess": True}}
        run_cases(check, "environment", environment(check, cwd), **pool)
        run_cases(check, "quoting", quoting(check, cwd), **pool)
        bundles(check, cwd)
        run_cases(check, "attached values", attached(check, cwd), **pool)
        run_cases(check, "spellings", equal_spellings(check, cwd), **pool)
        run_cases(check, "anything", anything(check, cwd), **pool)
        cases = list(itertools.islice((c for c in environment(check, cwd) if "exec" not in c[0]), 40))
        real_runs(check, cases)
        return check.report.finish(rule="a case is one command line (and one FF_OPTIONS)")
