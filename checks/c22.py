"""C22: optimized, debugging and profiling runs have the same result as a normal one."""

import itertools

from .common import *

TREE = [
    ("f", "a/.h", "x"), ("f", "a/b/c/f.x", "12345"), ("f", "a/b/y.x", "a\nb\n"), ("f", ".hid/f1"),
    ("f", "f10", "q" * 2000), ("f", "f9", "q" * 1000), ("d", "z/.e/b"), ("f", "z/a", "", {"mode": 0o755}),
    ("l", "ld", "a"), ("l", "z/dead", "none"), ("p", "z/pipe"), ("f", "\udcff\n"),
    ("f", ".gitignore", "*.x\n!y.x\n"), ("f", "a/b/.ignore", "c\n"), ("f", "V1", json.dumps({})),
    ("f", "v1", json.dumps({"vs": "a", "vn": 3, "vl": ["x", "y"]})),
    ("f", "v2", json.dumps({"vs": "B", "vz": 4, "vb": True, "vt": 7, "vd": 100})),
    ("f", "boom1"),
]

SEARCH = [
    [], ["type=f"], ["name%f*"], ["size+1k", "or", "type=d"], ["not", "type=l"], ["{{", "ext=x", "or", "hide=yes", "}}"],
    ["-d", "1-2"], ["-e", "type=d"], ["-e", "ext=x", "-H"], ["-L"], ["--ignore"], ["--ignore", "--no-parent-ignore", "-D", "a"],
    ["-a"], ["a/", "z/"], ["--one-file-system"], ["--case", "ignore", "name=F9"], ["vals.vs=b", "-c", "sensitive"],
    ["vals.vn+1", "or", "vals.vz+=1K"], ["vals.vl=x"], ["grep.lines~a"], ["broken=yes"], ["none=1"], ["name="], ["(", "type=f"],
    ["size+{}f9"], ["type=f", "and"], ["name=nothing"], ["--ignore-files", ".ignore", "-I"], ["D=1"], ["-D", "missing"],
    ["time+2000-01-01"], ["boom.num=1"], ["mode%+x"], ["ignored=no"],
]
OUTPUT = [
    [], ["-o", "path,size:h,vals.vs"], ["-o", "vals.vs,vals.vn", "--all"], ["-v"], ["--json"], ["--jsonl", "-o", "path,type,vals.vl"], ["-S"],
    ["-S", "size", "-R"], ["-S", "vals.vs,vals.vn"], ["-S", "-l", "1:4"], ["-1", "-S"], ["--count"], ["--count", "type,vals.vs"],
    ["--count", "--json"], ["--fail"], ["-0"], ["--sep", "\\t", "-o", "name,dir"], ["-C", "always", "-o", "path,type"],
    ["-o", "file"], ["-S", "-x", "echo", "{/}"], ["-X", "echo", "{}", "{.}x"], ["-x", "false"],
    ["--halt", "soon", "-S", "-x", "false"], ["--count", "none"], ["-l", "x"], ["-o", "boom.num"], ["--si", "-o", "size:h"],
]


def signature(result, ordered):
    out = result["out"]
    if not ordered:
        out = sorted(out.split(b"\n"))
    return result["code"], out


def commands():
    for search in SEARCH:
        for output in OUTPUT:
            yield search, output


def build(search, output, extra=()):
    # the options that swallow an argument have to stand behind the tests
    return ["-j1"] + list(extra) + search + output


def is_sub(argv):
    return "-x" in argv or "-X" in argv


def variants(check, root):
    report = check.report
    env = {"FF_PLUGIN_DIRS": PLUGIN_DIR}
    todo = [build(s, o) for s, o in commands()]
    modes = {
        "-O": dict(optimize=True), "-OO": dict(optimize=2), "--debug all": {}, "--profile": {},
    }
    options = {"max_steps": 20000}

    def run(argv_list, **pool):
        pool = check.pool(extra_env=env, install={"subprocess": True}, **pool)
        return need(pool.map([{"scenario": scenario(["--no-cache"] + argv, cwd=root, options=options)}
                              for argv in argv_list]))
    normal = run(todo)
    report.count("traces_validated_against_impl", len(todo))
    for argv, result in zip(todo, normal):
        message = finished(result)
        if message:
            report.violation(f"normal {argv}: {message}", {"argv": argv})
    deep = [(f"--debug {c}", c) for c in ("info", "mp", "walk", "cache", "none", "info,walk")]
    for mode, pool in list(modes.items()) + [(m, {}) for m, _ in deep]:
        extra = mode.split(" ") if mode.startswith("--") else []
        if mode not in modes and not check.thorough:
            # one category at a time
            subset = [i for i, (s, o) in enumerate(commands()) if not s or not o]
        else:
            subset = range(len(todo))
        subset = [i for i in subset if not (mode == "--profile" and is_sub(todo[i]))]
        results = run([todo[i][:1] + extra + todo[i][1:] for i in subset], **pool)
        for i, other in zip(subset, results):
            argv, first = todo[i], normal[i]
            report.case((mode, tuple(argv)), bool(first["out"]) or first["code"] != 0)
            report.count("states")
            report.count("transitions", other["steps"])
            message = finished(other)
            ordered = "-S" in argv or "--count" in argv
            if not message and mode == "--profile":
                if other["code"] != first["code"]:
                    message = f"status {other['code']} instead of {first['code']}"
                elif "--count" in argv and other["out"] != first["out"]:
                    message = f"{other['out'][:300]!r} instead of {first['out'][:300]!r}"
            elif not message and signature(first, ordered) != signature(other, ordered):
                message = f"status {other['code']}, {other['out'][:300]!r} instead of " \
                          f"status {first['code']}, {first['out'][:300]!r}; {err(other)[-300:]!r}"
            elif not message and [c["args"] for c in first["calls"]] != [c["args"] for c in other["calls"]] \
                    and sorted(map(str, (c["args"] for c in first["calls"]))) != \
                    sorted(map(str, (c["args"] for c in other["calls"]))):
                message = "different commands are started"
            elif not message and not mode.startswith("--") and first["code"] == 2 and \
                    not same_message(err(first), err(other)):
                message = f"message {err(other)!r} instead of {err(first)!r}"
            if message:
                report.violation(f"{mode} {' '.join(argv)}: {message}",
                                 {"argv": argv, "mode": mode, "err": err(other)[-2000:]})
        report.part(mode, {"runs": len(results)})


def same_message(first, second):
    return sorted(first.split("\n")) == sorted(second.split("\n"))


def cached(check, root):
    """All histories of three cached searches in normal, optimized and debugging mode."""
    report = check.report
    env = {"FF_PLUGIN_DIRS": PLUGIN_DIR}
    argv = ["ca.count+=0", "or", "ca_b.back", "-S", "-o", "path,ca.text,ca.count,ca_b.back", "--all"]
    expected = need(check.pool(extra_env=env).map(
        [{"scenario": scenario(["--no-cache", "-j2"] + argv, cwd=root)}]))[0]
    kinds = {"normal": ({}, []), "-O": ({"optimize": True}, []), "debug": ({}, ["--debug", "cache"])}
    histories = list(itertools.product(kinds, repeat=3))
    dbs = [os.path.join(check.scratch.path, f"cache-{i}.db") for i in range(len(histories))]
    for step in range(3):
        for kind, (pool, extra) in kinds.items():
            which = [i for i, h in enumerate(histories) if h[step] == kind]
            results = need(check.pool(extra_env=env, **pool).map(
                [{"scenario": scenario(["--cache", dbs[i], "-j2"] + extra + argv, cwd=root)} for i in which]))
            for i, result in zip(which, results):
                report.case(("cache", histories[i], step), True)
                report.count("states")
                report.count("transitions", result["steps"])
                message = finished(result)
                if not message and (result["code"], result["out"]) != (expected["code"], expected["out"]):
                    message = f"status {result['code']}, {result['out'][:300]!r} instead of {expected['out'][:300]!r}"
                if message:
                    report.violation(f"cached searches {histories[i]}, number {step}: {message}",
                                     {"argv": argv, "history": histories[i]})


PLUGIN = """
from libff.plugin import *
{before}
class P(Plugin):
    attributes = {attributes}
    speed = {speed}
    use_cache = {use_cache}
    @classmethod
    def setup(cls):
        {setup}
    def can_handle(self, entry):
        {can_handle}
    def cache(self, entry):
        {cache}
    def process(self, entry, cached):
        {process}
{after}
"""
GOOD = dict(before="", attributes='[("x", Number, "help"), ("y", String, "help")]', speed="Speed.FAST", use_cache="False", setup="pass",
            can_handle="return True", cache="return None", process="yield 'x', 1; yield 'y', 'a'", after="")
FAULTS = {
    "before": ["import no_such_module", "raise ValueError", "def", "raise SystemExit", "raise NoData", "class Q(Plugin): pass",
               "try:\n    import no_such_module\nexcept ImportError:\n    raise MissingImport('no_such_module')"],
    "attributes": ["None", "[('x',)]", "[('x', int, 'help')]", "[('x', 'Number', 'help')]", "[('x', Type, 'help')]", "5", "[]", "()",
                   "[('x', Number, 'help')]", "[('x', Number, 'help'), ('x', String, 'help')]", "[('x', None, 'help')]", "'x'",
                   "[('X', Number, 'help')]", "[('x.y', Number, 'help')]", "[('', Number, 'help')]", "[(None, Number, 'help')]",
                   "[('x', Plugin, 'help')]", "[(5, Number, 'help')]", "[('x', Number, None)]", "[('x', FileSize, 'help'), ('y', Path, 'help')]"],
    "speed": ["None", "5", "Speed.SLOW", "'fast'"],
    "use_cache": ["True", "None", "5"],
    "setup": ["raise ValueError", "raise MissingImport('x')", "raise NoData", "import no_such_module", "raise KeyError('x')", "1 / 0",
              "raise OSError(2, 'x')"],
    "can_handle": ["return False", "return None", "return 5", "raise ValueError", "raise NoData", "raise NotImplementedError",
                   "raise OSError(2, 'x')", "raise KeyError(5)", "return entry.name == 'f9'"],
    "process": ["pass", "return None", "return {'x': 1}", "return []", "raise NoData\n        yield 1", "raise ValueError\n        yield 1",
                "raise OSError(2, 'x')\n        yield 1", "yield 'x', 1; raise NoData", "yield 'x', 1; raise KeyError(5)", "yield 'x', 1",
                "yield 'x', 1; yield 'x', 2", "raise NotImplementedError\n        yield 1", "return 5", "yield 5", "yield ('x',)",
                "yield 'x', 1, 2", "return (('x', i) for i in (1, 2))", "return iter([('x', 5), ('y', '')])"],
    "after": ["class P(P): pass", "class Q(P): pass", "class Q(Plugin):\n    attributes = [('x', Number, 'help')]", "P = None", "raise ValueError",
              "del P.can_handle", "del P.process", "del P.attributes", "P.name = 'q'", "P.name = None", "class T(Number): pass",
              "class T(Number):\n    pass\nclass Q(Plugin):\n    attributes = [('z', T, 'help')]", "__all__ = []", "x = Plugin"],
}


def plugins(check):
    """All plugins with one fault, in all modes."""
    root = check.tree("few", [("f", "f9", "q"), ("f", "g")])
    report, dirs = check.report, []
    for part, choices in FAULTS.items():
        for number, choice in enumerate(choices):
            where = os.path.join(check.scratch.path, "faulty", f"{part}{number}")
            os.makedirs(where)
            with open(os.path.join(where, "p.py"), "w", encoding="utf-8") as fobj:
                values = {**GOOD, part: choice}
                if part == "attributes":
                    # undeclared attributes are noticed by normal runs only
                    values["process"] = "; ".join(f"yield {n!r}, {v!r}" for n, v in (("x", 1), ("y", "a")) if f"('{n}'," in choice) or "yield"
                fobj.write(PLUGIN.format(**values))
            dirs.append((f"{part}: {choice}", where))
    searches = [[], ["x=1"], ["-o", "path,p.x:n,p.y:n"], ["-S", "p.x,path"], ["--count", "p.x"], ["name=f9", "or", "p.y="], ["-o", "x,y", "--all"],
                ["--json", "-o", "p.x"], ["-e", "p.x=1"]]
    modes = {"normal": {}, "-O": dict(optimize=True), "-OO": dict(optimize=2), "--debug all": {}}
    results = {}
    for mode, pool in modes.items():
        extra = mode.split(" ") if mode.startswith("--") else []
        todo = [scenario(["--no-cache", "-j1", *extra, *argv], cwd=root, env={"FF_PLUGIN_DIRS": where})
                for _, where in dirs for argv in searches]
        results[mode] = need(check.pool(preload=False, **pool).map([{"scenario": s} for s in todo]))
    names = [(name, argv) for name, _ in dirs for argv in searches]
    for mode in modes:
        for (name, argv), first, other in zip(names, results["normal"], results[mode]):
            report.case(("plugin", mode, name, tuple(argv)), bool(first["out"]) or first["code"] != 0)
            report.count("states")
            report.count("transitions", other["steps"])
            message = finished(other)
            ordered = "-S" in argv or "--count" in argv
            if not message and signature(first, ordered) != signature(other, ordered):
                message = f"status {other['code']}, {other['out'][:300]!r} instead of " \
                          f"status {first['code']}, {first['out'][:300]!r}; {err(other)[-300:]!r}"
            if message:
                report.violation(f"{mode} {' '.join(argv)} with plugin {name!r}: {message}", {"argv": argv, "mode": mode, "plugin": name})
    report.part("plugins", {"plugins": len(dirs), "searches": len(searches), "statuses": sorted({r["code"] for r in results["normal"]}, key=str)})


def schedules(check):
    root = check.tree("small", [("f", "a/f1", "x"), ("f", "a/b/f2"), ("d", "c"), ("f", "g", "12")])
    slow = check.tree("slow", [("f", f"v{i:02d}", json.dumps({"vn": i})) for i in range(14)])
    env = {"FF_PLUGIN_DIRS": PLUGIN_DIR}
    normal = check.pool(extra_env=env)
    jobs = []
    deep = 2 if check.thorough else 1

    def add(name, argv, pool, extra=(), bound=1, cwd=root):
        first = need(normal.map([{"scenario": scenario(["--no-cache"] + argv, cwd=cwd)}]))[0]
        ordered = "-S" in argv or "--count" in argv

        def judge(result):
            message = finished(result)
            if message:
                return message
            if "--profile" in extra and "--count" not in argv:
                if result["code"] != first["code"]:
                    return f"status {result['code']} instead of {first['code']}: {err(result)[-200:]}"
            elif signature(result, ordered) != signature(first, ordered):
                return f"status {result['code']}, {result['out'][:300]!r} instead of " \
                       f"status {first['code']}, {first['out'][:300]!r}; {err(result)[-200:]}"
            return None
        jobs.append((f"{name}: {' '.join(argv)}", scenario(["--no-cache"] + list(extra) + argv, cwd=cwd),
                     judge, bound, {"extra_env": env, **pool}))

    for argv in (["-j1"], ["-j2"], ["-j2", "-S"], ["-j2", "--count"], ["-j2", "--jsonl"], ["-j2", "--fail", "name=x"]):
        add("-O", argv, {"optimize": True}, bound=deep)
        add("--debug all", argv, {}, ("--debug", "all"))
    add("-O", ["-j3", "vn+2"], {"optimize": True}, cwd=slow)
    for argv in (["-S", "--fail"], ["--count"], ["--count", "size"], ["--fail"], ["--fail", "name=x"], ["-S", "--fail", "-j4"],
                 ["--json", "--fail"], ["--count", "-j3"]):
        add("--profile", argv, {}, ("--profile",), bound=2)
    explore_scenarios(check, jobs)


def main():
    with Check("C22") as check:
        root = check.tree("tree", TREE)
        variants(check, root)
        cached(check, root)
        plugins(check)
        schedules(check)
        real_runs(check, [case("real -O", ["-j2", "-S"], lambda r: None, root)], {"PYTHONOPTIMIZE": "1"})
        return check.report.finish(
            rule="all pairs of search and output options, each in normal mode, with -O, with -OO, with --debug and "
                 "with --profile; all histories of three cached searches in three modes; schedules of the basic searches "
                 "with -O, --debug and --profile")
