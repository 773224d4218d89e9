"""C27: attribute names resolve to one and the same attribute everywhere."""

import itertools
import json

from .common import *

FILES = ["f0", "f1", "f2"]
ORDERS = {"p1": [0, 1, 2], "p2": [2, 1, 0], "p3": [1, 2, 0], "q": [0, 2, 1]}
FILE_VALUES = {"size": [3, 1, 2], "name": FILES}

SOURCE = '''"""Plugin of the check."""
from libff.plugin import *


class {cls}(Plugin):
    """Plugin {cls}."""

    speed = Speed.{speed}
    use_cache = {cache}
    attributes = [{attributes}]

    def can_handle(self, entry):
        return entry.is_file() and entry.name.startswith("f")

    def process(self, entry, cached):
        for name, _, _ in self.attributes:
            yield name, "{mark}." + name + "." + str({order}[int(entry.name[1])])
'''

REST = '''

class Other:
    """No plugin."""


def function(attributes):
    return attributes
'''

SUBSETS = [None, ("aa",), ("bb",), ("aa", "bb"), ("aa", "size"), ("x", "aa"), ("bb", "x", "name")]
NAMES = ["aa", "bb", "size", "name", "x", "p1.aa", "p1.bb", "p1.size", "p1.name", "p1.x", "p2.aa", "p2.x", "p3.aa", "p3.bb", "zz", "p1.zz", "p4.aa",
         "file.aa", "file.size", "P1.aa", "p1.AA", "AA", "p1.p2.aa", "aaa", "a", "grep.aa", "p1.file.size", "Aa"]


def plugin(cls, attributes, order, mark=None, speed="FAST", cache=False, rest=""):
    text = ", ".join(f'("{a}", String, "text")' for a in attributes)
    return SOURCE.format(cls=cls, attributes=text, order=order, mark=mark or cls.lower(), speed=speed, cache=cache) + rest


def write(directory, name, text):
    os.makedirs(directory, exist_ok=True)
    with open(os.path.join(directory, name), "w", encoding="utf-8") as fobj:
        fobj.write(text)


def resolve(name, plugins):
    """(plugin, attribute) or None if the name has to be refused; `plugins` is {name: attributes}."""
    known = {**plugins, "file": ("size", "name"), "grep": ("text", "linecount", "lines"), "mime": ("mime", "type", "subtype", "encoding", "name")}
    plug, dot, attr = name.partition(".")
    if dot:
        return (plug, attr) if attr in known.get(plug, ()) else None
    if name in known["file"]:
        return "file", name
    owners = [p for p, attrs in known.items() if name in attrs]
    return (owners[0], name) if len(owners) == 1 else None


def values(target, orders=ORDERS, marks=None):
    plug, attr = target
    if plug == "file":
        return FILE_VALUES[attr]
    mark = (marks or {}).get(plug, plug)
    return [f"{mark}.{attr}.{orders[plug][i]}" for i in range(3)]


def quiet(result):
    return None if not has_traceback(result) else f"traceback {err(result)[-300:]!r}"


def places(name, target, cwd, every, orders=ORDERS, marks=None):
    """(key, argv, judge) for all places where an attribute may be used."""
    def refused(what, argv):
        return what, argv, expect_error((2, 11, 12))

    if target is None:
        for what, argv in (("output", ["-o", name]), ("test", [f"{name}=x"]), ("sort", [f"--sort={name}"]), ("count", [f"--count={name}"]),
                           ("exclude", ["-e", f"{name}=x"]), ("exec", ["-x", "cmd", "{" + name + "}"]), ("reference", [f"name={{{name}}}f0"]),
                           ("reference to the same", [f"{name}={{}}f0"]), ("batch", ["-X", "cmd", "{" + name + "}"]), ("second", ["-o", f"path,{name}"]),
                           ("modifier", ["-o", f"{name}:n"]), ("all", ["--all", "-o", name]), ("json", ["--json", "-o", name]),
                           ("or", ["name=f0", "or", f"{name}=x"])):
            if what == "reference" and name.count(".") > 1:
                continue  # no reference at all but text
            yield refused(what, argv)
        return
    vals = values(target, orders, marks)
    lines = [str(v) for v in vals]

    def judge_json(result):
        rows = sorted(json.loads(l)[name] for l in olines(result)) if result["code"] == 0 else None
        return None if rows == sorted(vals) else f"{rows} instead of {vals}, status {result['code']} {err(result)[-200:]!r}"

    def judge_count(result):
        if target == ("file", "size"):
            return expect_lines(["_total=3", f"{name}=6"])(result)
        return expect_lines(["_total=3"] + [f"{name}[{v}]=1" for v in vals])(result)

    def judge_calls(result):
        got = sorted(a for c in result["calls"] for a in c["args"][1:])
        return None if got == sorted(lines) and not result["code"] else f"commands {got} instead of {lines}, status {result['code']}"

    ordered = [FILES[i] for i in sorted(range(3), key=lambda i: vals[i])]
    yield "output", ["-o", name], expect_lines(lines)
    yield "test", [f"{name}={vals[0]}"], expect_lines([f for f, v in zip(FILES, vals) if v == vals[0]])
    todo = [
        ("sort", [f"--sort={name}"], lambda r: None if olines(r) == ordered and not r["code"] else f"order {olines(r)} instead of {ordered}"),
        ("exclude", ["-e", f"{name}={vals[1]}"], expect_lines([f for f, v in zip(FILES, vals) if v != vals[1]])),
        ("exec", ["-x", "cmd", "{" + name + "}"], judge_calls), ("batch", ["-X", "cmd", "{" + name + "}"], judge_calls),
        ("reference to the same", [f"{name}={{}}f2"], expect_lines([FILES[2]])),
        ("reference", [f"{name}={{{name}}}f1"], expect_lines([FILES[1]])), ("json", ["--jsonl", "-o", name], judge_json),
        ("two", ["-o", f"{name},path,{name}"], expect_lines([f"{v} {f} {v}" for v, f in zip(lines, FILES)])),
        ("not", ["not", f"{name}={vals[0]}"], expect_lines([f for f, v in zip(FILES, vals) if v != vals[0]])),
    ]
    if target != ("file", "name") and (target[0] != "file"):
        todo.append(("count", [f"--count={name}"], judge_count))
    for number, place in enumerate(todo):
        if every is None or number % 4 == every % 4:
            yield place


def overlapping(check, cwd):
    """All sets of up to three plugins."""
    number = 0
    for combo in itertools.product(SUBSETS, repeat=3):
        plugins = {f"p{i + 1}": attrs for i, attrs in enumerate(combo) if attrs is not None}
        first = os.path.join(check.scratch.path, "plugins", f"{number}a")
        second = os.path.join(check.scratch.path, "plugins", f"{number}b")
        for i, (name, attrs) in enumerate(plugins.items()):
            where = second if name == "p2" else first
            write(where, f"{name}_file.py", plugin(name.upper(), attrs, ORDERS[name], speed=["FAST", "NORMAL", "SLOW"][(number + i) % 3],
                                                   rest=REST))
        number += 1
        env = {"FF_PLUGIN_DIRS": f"{first}:{second}" if number % 2 else f"{second}::{first}:/nonexistent"}
        for pos, name in enumerate(NAMES):
            if not check.thorough and (number + pos) % 3 and not (name in ("aa", "x") or name == "p1.aa"):
                continue
            target = resolve(name, plugins)
            cases = list(places(name, target, cwd, None if check.thorough else number + pos))
            if target is None and not check.thorough:
                cases = [cases[(number + pos) % len(cases)], cases[(number * 5 + pos * 3 + 7) % len(cases)]]
            for what, argv, judge in cases:
                yield case(f"{plugins} {what} {name}", ["-j1", *argv], judge, cwd, target is not None, env=env)


def rivals(check, cwd):
    """Plugins with the name of another plugin, attributes with special names, files that are no plugins."""
    base = os.path.join(check.scratch.path, "rivals")
    one, two = os.path.join(base, "1"), os.path.join(base, "2")
    write(one, "first.py", plugin("Q", ("aa", "x"), ORDERS["q"], "one"))
    write(two, "second.py", plugin("Q", ("aa", "bb"), ORDERS["q"], "two"))
    warning = lambda r: None if b"WARNING" in r["err"] and not has_traceback(r) else f"no warning {err(r)!r}"
    for env, mark, attrs in ((f"{one}:{two}", "one", ("aa", "x")), (f"{two}:{one}", "two", ("aa", "bb"))):
        for name in ("aa", "bb", "x", "q.aa", "q.bb", "q.x", "q.zz"):
            target = resolve(name, {"q": attrs})
            for what, argv, judge in places(name, target, cwd, None, marks={"q": mark}):
                both = (lambda r, j=judge: j(r) or warning(r)) if target else judge
                yield case(f"same name, {mark} first, {what} {name}", ["-j1", *argv], both, cwd, env={"FF_PLUGIN_DIRS": env})
    # no plugin takes the place of one that comes with ff
    three = os.path.join(base, "3")
    for cls in ("File", "Grep", "Mime", "FILE"):
        write(three, f"{cls.lower()}{len(cls)}{cls[1]}.py", plugin(cls, ("size", "name", "text", "aa"), ORDERS["q"]))
    for name in ("size", "file.size", "file.name", "name", "aa", "file.aa", "grep.aa", "file.text"):
        for what, argv, judge in places(name, resolve(name, {}), cwd, None):
            yield case(f"name of a builtin plugin {what} {name}", ["-j1", *argv], judge, cwd, env={"FF_PLUGIN_DIRS": three})
    yield case("grep.text", ["-j1", "grep.text=yes"], expect_lines(FILES), cwd, env={"FF_PLUGIN_DIRS": three})
    # names of attributes
    names = ("a", "Z", "x1", "a_b", "aA", "a1_", "x_", "dir1", "h", "n", "type_", "file", "not_", "or_", "and1", "l0", "yes", "path2")
    four = os.path.join(base, "4")
    write(four, "names.py", plugin("P1", names, ORDERS["p1"]))
    write(four, "short.py", plugin("W", ("aa",), ORDERS["q"]))
    write(four, "digits.py", plugin("Q7_a", ("aa", "bb"), ORDERS["q"]))
    orders = {**ORDERS, "w": ORDERS["q"], "q7_a": ORDERS["q"]}
    plugins = {"p1": names, "w": ("aa",), "q7_a": ("aa", "bb")}
    for name in [n for n in names if n != "file"] + [f"p1.{n}" for n in names] + ["w.aa", "w.bb", "q7_a.aa", "q7_a.bb", "bb", "aa", "p1.z", "b"]:
        for what, argv, judge in places(name, resolve(name, plugins), cwd, None, orders):
            yield case(f"attribute {what} {name}", ["-j1", *argv], judge, cwd, env={"FF_PLUGIN_DIRS": four})
    # files that are no plugins
    five = os.path.join(base, "5")
    write(five, "_hidden.py", plugin("P1", ("aa",), ORDERS["p1"]))
    write(five, "text.txt", plugin("P1", ("aa",), ORDERS["p1"]))
    write(five, "text.pyc", plugin("P1", ("aa",), ORDERS["p1"]))
    write(five, "empty.py", "")
    write(five, "functions.py", "x = 1\ndef Plugin(): pass\nclass NoPlugin: name = 'aa'\n")
    write(five, "reads.py", "from libff.plugin import *\nfrom libff.plugin import Plugin as Other\nimport os\n")
    write(os.path.join(five, "dir.py"), "inner.py", plugin("P1", ("aa",), ORDERS["p1"]))
    write(os.path.join(five, "sub"), "inner.py", plugin("P1", ("aa",), ORDERS["p1"]))
    write(five, "real.py", plugin("P2", ("bb",), ORDERS["p2"]))
    for name in ("aa", "p1.aa", "bb", "p2.bb", "size"):
        for what, argv, judge in places(name, resolve(name, {"p2": ("bb",)}), cwd, None):
            yield case(f"no plugins {what} {name}", ["-j1", *argv], judge, cwd, env={"FF_PLUGIN_DIRS": five})
    for value in ("", ":", "/nonexistent", "/nonexistent:", "/dev/null", five + "/real.py"):
        for name in ("aa", "p2.bb", "size", "name"):
            for what, argv, judge in places(name, resolve(name, {}), cwd, None):
                yield case(f"FF_PLUGIN_DIRS={value} {what} {name}", ["-j1", *argv], judge, cwd, env={"FF_PLUGIN_DIRS": value})
    # files that cannot be loaded
    for number, text in enumerate(("import nonexistent_module\n", "1/0\n", "class (\n", "raise SystemError\n", "\0", "# coding: nonsense\n",
                                   plugin("P1", ("aa",), ORDERS["p1"]).replace("String", "int"))):
        where = os.path.join(base, f"broken{number}")
        write(where, "broken.py", text)
        for argv in ([], ["-o", "size"], ["name=f0"], ["--sort"], ["-o", "p1.aa"]):
            yield case(f"broken plugin {number} {argv}", ["-j1", *argv],
                       lambda r: None if r["code"] == 10 and not r["out"] and err(r).strip() else f"status {r['code']} {r['out']!r} {err(r)[-200:]!r}",
                       cwd, env={"FF_PLUGIN_DIRS": where})


def aliases(check, cwd):
    """Short and full names are the same attribute, also side by side and in the same expression."""
    where = os.path.join(check.scratch.path, "aliases")
    write(where, "one.py", plugin("P1", ("aa", "bb"), ORDERS["p1"], cache=True))
    write(where, "two.py", plugin("P2", ("cc", "size"), ORDERS["p2"], cache=True))
    pairs = [("aa", "p1.aa"), ("bb", "p1.bb"), ("cc", "p2.cc"), ("size", "file.size"), ("name", "file.name")]
    env = {"FF_PLUGIN_DIRS": where}
    for short, full in pairs:
        vals = [str(v) for v in values(tuple(full.split(".")))]
        yield case(f"{short} {full}", ["-j1", "-o", f"{short},{full}"], expect_lines([f"{v} {v}" for v in vals]), cwd, env=env)
        for first, second in ((short, full), (full, short)):
            yield case(f"{first} and {second}", ["-j1", f"{first}={vals[0]}", f"{second}={vals[0]}"], expect_lines(["f0"]), cwd, env=env)
            yield case(f"{first} and not {second}", ["-j1", f"{first}={vals[0]}", "not", f"{second}={vals[0]}"], expect_lines([]), cwd, env=env)
            yield case(f"{first} or {second}", ["-j1", f"{first}={vals[0]}", "or", f"{second}={vals[1]}"], expect_lines(["f0", "f1"]), cwd, env=env)
            yield case(f"{first}={{{second}}}", ["-j1", f"{first}={{{second}}}f1"], expect_lines(["f1"]), cwd, env=env)
            yield case(f"{first} {second} exec", ["-j1", "-x", "cmd", f"{{{first}}}:{{{second}}}"],
                       lambda r, v=vals: None if sorted(c["args"][1] for c in r["calls"]) == sorted(f"{x}:{x}" for x in v) else f"{r['calls']}",
                       cwd, env=env)
            ordered = [FILES[i] for i in sorted(range(3), key=lambda i: vals[i])]
            yield case(f"{first} sort {second}", ["-j1", f"--sort={first}", "-o", f"path,{second}"],
                       lambda r, o=ordered, v=vals: None if olines(r) == [f"{n} {v[FILES.index(n)]}" for n in o] else f"{olines(r)}", cwd, env=env)
            yield case(f"{first} json {second}", ["-j1", "--jsonl", "-o", f"{first},{second}"],
                       lambda r, a=first, b=second: None if len(olines(r)) == 3 and all(
                           list(json.loads(l)) == [a, b] and json.loads(l)[a] == json.loads(l)[b] for l in olines(r)) else f"{olines(r)}",
                       cwd, env=env)
    # the attribute of another plugin with the same name as one of the file
    vals = values(("p2", "size"))
    yield case("size,p2.size", ["-j1", "-o", "size,p2.size,file.size"],
               expect_lines([f"{s} {v} {s}" for s, v in zip(FILE_VALUES["size"], vals)]), cwd, env=env)
    yield case("sort by p2.size", ["-j1", "--sort=p2.size", "-o", "size"], lambda r: None if olines(r) == ["2", "1", "3"] else f"{olines(r)}", cwd, env=env)
    yield case("size={p2.size}", ["-j1", "size={p2.size}f0"], expect_error((2, 11, 12)), cwd, env=env)
    yield case("name={p2.size}", ["-j1", "not", "name={p2.size}f0"], expect_lines(FILES), cwd, env=env)


def user_plugins(check, cwd):
    """Plugins in ~/.ff, with real processes."""
    import shutil
    cases = []
    for number, (user, system) in enumerate(((("aa",), None), (("aa",), ("aa",)), (("aa", "size"), ("bb",)), (None, ("aa",)))):
        home = os.path.join(check.scratch.path, f"home{number}")
        where = os.path.join(home, "system")
        os.makedirs(home)
        plugins = {}
        if user:
            write(os.path.join(home, ".ff"), "u.py", plugin("P1", user, ORDERS["p1"]))
            plugins["p1"] = user
        if system:
            write(where, "s.py", plugin("P2", system, ORDERS["p2"]))
            plugins["p2"] = system
        for name in ("aa", "bb", "size", "p1.aa", "p2.aa"):
            for what, argv, judge in places(name, resolve(name, plugins), cwd, 0):
                if what in ("output", "test", "sort"):
                    cases.append(case(f"user plugins {plugins} {what} {name}", argv, judge, cwd, env={"HOME": home, "FF_PLUGIN_DIRS": where}))
    home = os.path.join(check.scratch.path, "home0")
    write(os.path.join(home, "rival"), "u.py", plugin("P1", ("aa",), ORDERS["p1"], "system"))
    cases.append(case("system before user", ["-o", "aa"], expect_lines([f"system.aa.{i}" for i in range(3)]), cwd,
                      env={"HOME": home, "FF_PLUGIN_DIRS": os.path.join(home, "rival")}))
    real_runs(check, cases)
    for number in range(4):
        shutil.rmtree(os.path.join(check.scratch.path, f"home{number}"))


def main():
    with Check("C27") as check:
        cwd = check.tree("tree", [("f", "f0", "aaa"), ("f", "f1", "b"), ("f", "f2", "cc")])
        pool = {"install": {"subprocess": True}, "preload": False}
        run_cases(check, "rivals", rivals(check, cwd), **pool)
        run_cases(check, "aliases", aliases(check, cwd), **pool)
        run_cases(check, "overlapping", overlapping(check, cwd), **pool)
        user_plugins(check, cwd)
        return check.report.finish(
            rule="a case is one set of plugins, one name and one place of its use; nontrivial: the name has a meaning")
