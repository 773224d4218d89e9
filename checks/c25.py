"""C25: the templates of --exec and --exec-batch expand to exactly the documented arguments."""

import itertools
import json

from .common import *
from . import reference

T = 1500000000
TREE = [
    ("f", "a/f1", "12345", {"mtime": T + 5}), ("f", "a/b/F1.tar.gz", "x" * 2000, {"mtime": T, "mode": 0o755}),
    ("f", "a/b/f.TXT", "", {"mtime": T + 99, "mode": 0o600}), ("d", "c.d", {"mtime": T}), ("f", ".h/x", "1"),
    ("f", ".prof", "1"), ("f", "x..y", "1"), ("f", "end.", "1"), ("f", "..z", "1"), ("l", "ln", "a/f1"), ("l", "ld", "a/b"),
    ("l", "dead.l", "none"), ("p", "pipe"), ("f", "a b", "5"), ("f", "x{y}.z", "yz"), ("f", "\udcff.t", "ff" * 40),
    ("f", "[ab]", "q"), ("f", "nl\nx", ""), ("f", "{}", "e"), ("f", "-n"), ("f", "{name}"), ("f", "{{x}}"), ("f", "$(x)"),
    ("f", "v1", json.dumps({"vs": "a b\n{}c", "vp": "a/f1", "vn": 5, "vz": 3000, "vt": T, "vd": 3661, "vb": True, "vm": 0o644,
                            "vl": ["a", "b c"], "vu": ["y", "x"], "vf": "file"})),
    ("f", "v2", json.dumps({"vs": "", "vn": 0, "vz": 0, "vt": 0, "vd": 0, "vb": False, "vm": 0, "vl": [], "vu": []})),
]
SMALL = [("f", "f.x", "12"), ("f", "d/g", ""), ("l", "ln", "f.x")]
VALUES = ["vs", "vp", "vn", "vz", "vt", "vd", "vb", "vm", "vl", "vu", "vf"]
ALIASES = {"": "path", "/": "name", "//": "dir", ".": "pathx", "/.": "namex", "..": "ext"}
NAMES = ["path", "root", "relpath", "dir", "name", "ext", "pathx", "namex", "mode", "type", "device", "inode", "samedev",
         "depth", "exec", "size", "mtime", "ctime", "time", "perm", "links", "uid", "gid", "user", "group", "hide", "hidden",
         "empty", "link", "target", "broken"]


class P(str):
    """A placeholder; everything else is literal text."""


def entries_of(root, start=".", follow=False, absolute=False):
    result = []
    top = os.path.join(root, start)
    for base, dirs, files in os.walk(top, followlinks=follow):
        for name in dirs + files:
            rel = os.path.relpath(os.path.join(base, name), top)
            if follow and not os.path.exists(os.path.join(base, name)):
                continue
            values = reference.attributes(root, start, rel, follow, absolute)
            if name.startswith("v") and values["type"] == "file":
                with open(os.path.join(base, name), encoding="utf-8") as fobj:
                    values.update({"vals." + k: set(v) if k == "vu" else v for k, v in json.load(fobj).items()})
            result.append(values)
    return result


def value_of(spec, entry, everything=False):
    """The text for a placeholder or None."""
    name, colon, modifier = ALIASES.get(spec, spec).strip().partition(":")
    del colon
    if name.startswith("file."):
        name = name[5:]
    value = entry.get(name)
    if value is None:
        return "" if everything or modifier == "n" else None
    return reference.text(name.rpartition(".")[2], value, modifier or None)


def argument(template):
    """The template as it is given on the command line."""
    return "".join("{" + p + "}" if isinstance(p, P) else p.replace("{", "{{").replace("}", "}}") for p in template)


def expand(template, entry, everything=False):
    parts = [value_of(p, entry, everything) if isinstance(p, P) else p for p in template]
    return None if None in parts else "".join(parts)


def has_placeholder(template):
    return any(isinstance(p, P) for p in template)


def with_default(templates):
    return list(templates) if any(map(has_placeholder, templates)) else list(templates) + [[P("")]]


def commands(templates, entries, everything=False):
    """The expected calls of --exec: lists of arguments."""
    calls = []
    for entry in entries:
        call = [expand(t, entry, everything) for t in with_default(templates)]
        if None not in call:
            calls.append(call)
    return sorted(calls)


def batch(templates, entries, everything=False):
    call = []
    for template in with_default(templates):
        if has_placeholder(template):
            for entry in entries:
                text = expand(template, entry, everything)
                if text is not None:
                    call.append(text)
        else:
            call.append("".join(template))
    return [call]


def judge_calls(expected, command=("cmd",)):
    expected = [list(command) + c for c in expected]

    def judge(result):
        got = sorted(c["args"] for c in result["calls"])
        if got != sorted(expected) or result["code"] or has_traceback(result):
            return f"status {result['code']}, missing {[e for e in expected if e not in got][:3]!r}, superfluous " \
                   f"{[g for g in got if g not in expected][:3]!r} {err(result)[-200:]!r}"
        return None
    return judge


def judge_refused(result):
    message = expect_error((2, 11))(result)
    return message or (f"commands {result['calls']}" if result["calls"] else None)


def make(key, root, option, templates, judge, options=(), command="cmd", nontrivial=True):
    return case(f"{key} {option} {' '.join(options)} {templates!r}",
                ["-j1", *options, option, command] + [argument(t) for t in templates], judge, root, nontrivial)


def by_inode(entries):
    return sorted(entries, key=lambda e: (e["inode"], e["path"]))


def both(key, root, templates, entries, options=(), everything=False):
    """One search with --exec and one with --exec-batch."""
    yield make(key, root, "-x", templates, judge_calls(commands(templates, entries, everything)), options)
    yield make(key, root, "-X", templates, judge_calls(batch(templates, by_inode(entries), everything)), ["--sort=inode", *options])


TOKENS = [[P("")], [P("/")], [P("/.")], [P("..")], [P("size:x")], ["{"], ["}"], ["x"], [" "], [P("link")]]
MORE = [[P("//")], [P(".")], [P("link:n")], ["\n"], ["\\"], ["%s"], ["$x"], ["'"], [":"], ["/"], ["."]]
ARGUMENTS = [[], ["x"], ["a b"], [P("")], ["{", "}"], [P("link")], ["-", P("/."), "=", P("size")], [P(""), P("")], ["--"],
             [P("..")]]


def sequences(check, root):
    entries = entries_of(root)
    for length in range(0, 5 if check.thorough else 4):
        for combo in itertools.product(TOKENS, repeat=length):
            template = [t[0] for t in combo]
            yield from both("sequence", root, [template], entries)
    for length in (1, 2, 3) if check.thorough else (1, 2):
        for combo in itertools.product(TOKENS + MORE, repeat=length):
            if any(t in MORE for t in combo):
                yield from both("sequence", root, [[t[0] for t in combo]], entries)


def lists(check, root):
    entries = entries_of(root)
    for length in range(0, 4):
        for combo in itertools.product(ARGUMENTS, repeat=length):
            if length == 3 and not check.thorough and ([] not in combo and [P("link")] not in combo):
                continue
            yield from both("list", root, list(combo), entries)
            if [P("link")] in combo:
                yield from both("list", root, list(combo), entries, ["--all"], True)
            if length < 3:
                yield make("list", root, "-x", list(combo), judge_calls(commands(list(combo), entries)), ["-S"])


def placeholders(check, root):
    entries = entries_of(root)
    specs = [P(n) for n in list(ALIASES) + NAMES] + [P("vals." + n) for n in VALUES]
    specs += [P("file." + n) for n in NAMES] + [P(f"{n}:{m}") for n in NAMES + ["vals." + n for n in VALUES] for m in "hoxn"]
    specs += [P(" name"), P("name "), P(" file.size:x ")]
    for spec in specs:
        for everything in (False, True):
            yield from both("placeholder", root, [[spec]], entries, ["--all"] if everything else [], everything)
        yield from both("placeholder", root, [["<", spec, ">"], [P("")]], entries)
    for one in specs[:6] + [P("link"), P("size:x"), P("vals.vs"), P("vals.vl")]:
        for two in specs:
            if check.thorough or ":" not in two:
                yield from both("two", root, [[one, two]], entries)


def options(check, root):
    for opts, start, follow, absolute in ((["-a"], ".", False, True), (["-L"], ".", True, False), (["-D", "a"], "a", False, False),
                                          (["-D", root], root, False, False), (["-a", "-D", "a"], "a", False, True),
                                          (["./a/"], "a", False, False), (["-j3"], ".", False, False), (["-0"], ".", False, False),
                                          (["--json"], ".", False, True), (["-o", "size"], ".", False, False),
                                          (["-C", "always"], ".", False, False), (["--sep", "x"], ".", False, False)):
        entries = entries_of(root, start, follow, absolute)
        for templates in ([], [[P("")]], [[P("/")]], [[P("//"), "+", P(".")]], [[P("root"), " ", P("relpath")]],
                          [[P("..")], [P("/.")]], [[P("link")], [P("depth")]]):
            yield from both("options", root, templates, entries, opts)


def malformed(root):
    bad = ["zz", "zz.name", "file.zz", "name:q", "name:zz", " ", "1", "-", "///", "...", "name.", ".name", "name name", "name,size",
           "name:x:h", "name:h5", ":h", "a/b", "*", "file.", "ä", "file.name.x", "\n", "name{", "$", "./", "/..", "~"]
    for spec in bad:
        text = "{" + spec + "}"
        for option in ("-x", "-X"):
            for args in ([text], ["x" + text], [text + "y"], ["{}", text], [text, "{}"], ["{}" + text], ["{{", text, "}}"]):
                for opts in ([], ["-S"], ["--all"]):
                    yield case(f"malformed {option} {args} {opts}", ["-j1", *opts, option, "cmd"] + args, judge_refused, root)
            yield case(f"malformed in command {option} {spec}", ["-j1", option, text, "{}"], judge_refused, root)
    for spec in ("", "/", "//", ".", "/.", "..", "name", "zz", "size:x"):
        for text in ("{" + spec + "}", "c{" + spec + "}", "{{{" + spec + "}}}"):
            for rest in ([], ["{}"], ["x"]):
                yield case(f"placeholder in batch command {text} {rest}", ["-j1", "-X", text] + rest, judge_refused, root)
    for option in ("-x", "-X"):
        yield case(f"{option} without command", ["-j1", option], judge_refused, root)


def command(root):
    entries = entries_of(root)
    for text in (["cmd"], ["a b"], ["{", "}"], ["{", "x", "}"], ["./c"], ["-x"], ["--all"], ["ä"]):
        for templates in ([], [[P("")]], [["a"], [P("/")]], [[]]):
            for option, expected in (("-x", commands(templates, entries)), ("-X", batch(templates, by_inode(entries)))):
                yield case(f"command {option} {text} {templates}", ["-j1", "--sort=inode", option, argument(text)] +
                           [argument(t) for t in templates], judge_calls(expected, ["".join(text)]), root)
    for text in ([P("//"), "/c"], [P("/")], ["c", P("..")], [P("link")], ["{", P("/"), "}"]):
        for templates in ([[P("")]], [["a"], [P("/")]], [[P("link")]], [], [["a"]], [["{", "}"]]):
            # a placeholder in the command itself does not stand for the missing argument
            expected = [c for c in commands([text] + with_default(templates), entries)]
            yield case(f"command {text} {templates}", ["-j1", "-x", argument(text)] + [argument(t) for t in templates],
                       judge_calls(expected, []), root)
    # what follows the command belongs to it
    for rest in (["-S"], ["--all"], ["-x", "y"], ["-X", "y"], ["--"], ["-D", "a"], ["type=f"], ["--help"], ["-j1"], ["-0", "-1"],
                 ["{}", "-e", "name=x"], ["--exec=a"], ["-o", "size"], ["--version"], ["-H"]):
        templates = [[P("")] if r == "{}" else [r] for r in rest]
        yield from both("options of the command", root, templates, entries)
    for separator in (["-x", "cmd"], ["--exec", "cmd"]):
        yield case(f"spelling {separator}", ["-j1"] + separator + ["{/}"], judge_calls(commands([[P("/")]], entries)), root)


def shapes(check):
    """Names of all shapes."""
    alphabet = ["a", ".", " ", "{", "}", "\n", "-", "'", "\\", "\udc80", "é", "%", "*", "~", "\x1b"]
    names = ["".join(c) for n in range(1, 4 if check.thorough else 3) for c in itertools.product(alphabet, repeat=n)]
    names = [n for n in names if n not in (".", "..")]
    root = check.tree("shapes", [("f", n, "") for n in names])
    sub = check.tree("shapes2", [("f", f"{n}/{n}", "") for n in names if len(n) < 3])
    for where in (root, sub):
        entries = entries_of(where)
        for templates in ([], [[P("")]], [["x", P("/"), "y"]], [[P(".")], [P("..")]], [[P("/."), ".", P("..")]],
                          [[P("//"), "/", P("/")]], [[P("pathx")], [P("namex")], [P("ext")]], [["{", P(""), "}"]]):
            yield from both("shapes" if where == root else "shapes below", where, templates, entries)


def impossible(check):
    """Values that cannot be passed to a program cost only their own command, and do not go unnoticed."""
    for number, text in enumerate(("a\\u0000b", "\\ud800", "x\\u0000", "\\udfff\\u0000")):
        for names in itertools.product("vw", repeat=4):
            names = [f"{n if n == 'v' else 'v-good'}{i}" for i, n in enumerate(names)]
            bad = [n for n in names if not n.startswith("v-")]
            root = check.tree(f"impossible{number}{len(bad)}{names}", [
                ("f", n, '{"vs": "%s"}' % (text if n in bad else n)) for n in names])
            good = [["cmd", n] for n in names if n not in bad]

            def judge(result, good=good, bad=bad):
                got = sorted(c["args"] for c in result["calls"])
                if got != sorted(good) or result["code"] != (3 if bad else 0) or has_traceback(result) or \
                        bad and not err(result).strip():
                    return f"status {result['code']}, commands {got} instead of {good} {err(result)[-200:]!r}"
                return None

            def judge_batch(result, bad=bad, names=names):
                got = [c["args"] for c in result["calls"]]
                if bad:
                    return f"status {result['code']}, commands {got} {err(result)[-200:]!r}" if result["code"] != 3 or got or \
                        has_traceback(result) or not err(result).strip() else None
                return None if got == [["cmd"] + names] else f"commands {got}"
            cases = [case(f"{text} {names} {opts}", [*opts, "-x", "cmd", "{vals.vs}"], judge, root)
                     for opts in (["-j1"], ["-j1", "-S"], ["-j2", "-S"], ["-j2"])]
            cases.append(case(f"{text} {names} batch", ["-j1", "-S", "-X", "cmd", "{vals.vs}"], judge_batch, root))
            yield from cases


def main():
    with Check("C25") as check:
        pool = {"extra_env": {**PLUGIN_ENV}, "install": {"subprocess": True}}
        small, root = check.tree("small", SMALL), check.tree("tree", TREE)
        run_cases(check, "sequences", sequences(check, small), **pool)
        run_cases(check, "lists", lists(check, small), **pool)
        run_cases(check, "placeholders", placeholders(check, root), **pool)
        run_cases(check, "options", options(check, root), **pool)
        run_cases(check, "malformed", malformed(small), **pool)
        run_cases(check, "command", command(small), **pool)
        run_cases(check, "shapes", shapes(check), **pool)
        run_cases(check, "impossible", impossible(check), **pool)
        real(check, root)
        return check.report.finish(
            rule="a case is one search with one command template (placeholders, literal text, arguments, options, --exec or "
                 "--exec-batch); nontrivial: at least one command is expected or the template is malformed")


def real(check, root):
    """Real commands get what the stand-in records."""
    script = os.path.join(check.scratch.path, "show.py")
    with open(script, "w", encoding="utf-8") as fobj:
        fobj.write("import json, os, sys\nopen(os.path.join(sys.argv[1], str(os.getpid())), 'w').write(json.dumps(sys.argv[2:]))\n")
    entries, cases = entries_of(root), []
    for number, templates in enumerate(([], [[P("")], ["", ""]], [["{", P("/"), "} $x '"], []], [[P("//"), "\n", P("..")]],
                                        [["*"], [P("link")], ["-", P("size:x")]], [[], [P("vals.vs")]])):
        for option in ("-x", "-X"):
            out = os.path.join(check.scratch.path, f"out{number}{option}")
            os.mkdir(out)
            expected = commands(templates, entries) if option == "-x" else batch(templates, by_inode(entries))
            cases.append(case(f"{option} {templates}", ["--sort=inode", option, PYTHON, script, out] + [argument(t) for t in templates],
                              judge_files(out, expected), root))
    real_runs(check, cases, PLUGIN_ENV)


def judge_files(out, expected):
    def judge(result):
        got = []
        for name in os.listdir(out):
            with open(os.path.join(out, name), encoding="utf-8") as fobj:
                got.append(json.load(fobj))
        if sorted(got) != sorted(expected) or result["code"]:
            return f"status {result['code']}, missing {[e for e in expected if e not in got][:3]!r}, superfluous " \
                   f"{[g for g in got if g not in expected][:3]!r} {err(result)[-200:]!r}"
        return None
    return judge
