"""C24: a file reference compares with the value of the referenced file."""

from .common import *
from . import reference
from .c07 import NUMBER_OPS, string_test, mode_test

STRINGS = ("name", "ext", "user", "group", "vs") + reference.PATHS
BOOLS = ("samedev", "exec", "hide", "hidden", "empty", "broken", "vb")
FILE_ATTRIBUTES = ["path", "root", "relpath", "dir", "name", "ext", "pathx", "namex", "mode", "type", "device", "inode",
                   "samedev", "depth", "exec", "size", "mtime", "ctime", "time", "perm", "links", "uid", "gid",
                   "user", "group", "hide", "hidden", "empty", "link", "target", "broken"]
VALUES = ["vs", "vp", "vn", "vz", "vt", "vd", "vb", "vm", "vl", "vu", "vf"]

T = 1500000000
TREE = [
    ("f", "a/f1", "12345", {"mtime": T + 5}), ("f", "a/b/F1", "x" * 100, {"mtime": T, "mode": 0o755}),
    ("f", "a/b/f.TXT", "", {"mtime": T + 99, "mode": 0o600}), ("d", "c", {"mtime": T}),
    ("f", "c/f.txt", "12345", {"mtime": T - 7}), ("f", ".h/x", "1"), ("l", "ln", "a/f1"), ("l", "ld", "a/b"),
    ("l", "dead", "none"), ("p", "pipe"), ("f", "a b", "5"), ("f", "x{y}.z", "yz"), ("f", "\udcff.t", "ff" * 40),
    ("f", "[ab]", "q"), ("f", "nl\nx", ""), ("f", "{}", "e"), ("f", "f.t~"),
    ("f", "v1", json.dumps({"vs": "a", "vp": "a/f1", "vn": 5, "vz": 5, "vt": T, "vd": 60, "vb": True, "vm": 0o644,
                            "vl": ["a", "b"], "vu": ["x"], "vf": "file"})),
    ("f", "v2", json.dumps({"vs": "A", "vn": 100, "vz": 10 ** 12, "vt": T + 5, "vb": False, "vm": 0o755, "vf": "directory"})),
    ("f", "v3", json.dumps({"vs": "", "vn": 0, "vd": 0, "vf": "fifo"})),
]


def family(name):
    if name in STRINGS:
        return "string"
    if name in reference.NUMBERS:
        return "number"
    if name in reference.MODES:
        return "mode"
    if name in BOOLS:
        return "boolean"
    if name in ("type", "vf"):
        return "type"
    return "list"


def operators(name):
    return {"string": ["=", ":", "~"], "number": list(NUMBER_OPS), "mode": ["=", ":", "~"],
            "boolean": ["="], "type": ["="]}[family(name)]


def compare(name, op, wanted, value, mode="smart"):
    kind = family(name)
    if kind == "string":
        return string_test(op, mode, wanted, value)
    if kind == "number":
        return NUMBER_OPS[op](value, wanted)
    if kind == "mode":
        return mode_test(op, wanted, value)
    return value == wanted


def full_name(name):
    return f"vals.{name}" if name in VALUES else name


class World:
    """The entries of a search and their attributes."""

    def __init__(self, cwd, starts=(".",), follow=False, absolute=False):
        self.cwd, self.starts, self.follow, self.absolute = cwd, starts, follow, absolute
        self.entries = []
        for start in starts:
            for rel in self.walk(os.path.join(cwd, start), follow):
                values = reference.attributes(cwd, start, rel, follow, absolute)
                full = os.path.join(cwd, start, rel)
                if os.path.basename(rel).startswith("v") and values["type"] == "file":
                    with open(full, encoding="utf-8") as fobj:
                        values.update({k: v for k, v in json.load(fobj).items()})
                self.entries.append(values)

    @staticmethod
    def walk(top, follow):
        result = []
        for base, dirs, files in os.walk(top, followlinks=follow):
            for name in dirs + files:
                rel = os.path.relpath(os.path.join(base, name), top)
                if follow and not os.path.exists(os.path.join(base, name)):
                    continue
                result.append(rel)
        return result

    def value(self, path, name):
        """The attribute of the entry with this path (relative to cwd), the first one counts."""
        where = os.path.normpath(os.path.join(self.cwd, path))
        for start in self.starts:
            base = os.path.normpath(os.path.join(self.cwd, start))
            if where.startswith(base + "/"):
                rel = where[len(base) + 1:]
                for entry in self.entries:
                    if entry["relpath"] == rel and os.path.normpath(os.path.join(self.cwd, entry["root"])) == base:
                        return entry.get(name)
        raise AssertionError(path)

    def matching(self, name, op, wanted, mode="smart"):
        return [e["path"] for e in self.entries if e.get(name) is not None and
                compare(name, op, wanted, e[name], mode)]


RAW = {"PYTHONIOENCODING": "utf-8:surrogateescape"}


def expect_paths(expected):
    expected = sorted(expected)

    def judge(result):
        out = result["out"].decode("utf-8", "surrogateescape")
        got = sorted(out.split("\0")[:-1])
        if got != expected or result["code"]:
            return f"status {result['code']}, missing {[e for e in expected if e not in got][:4]!r} superfluous " \
                   f"{[e for e in got if e not in expected][:4]!r} {err(result)[-200:]!r}"
        return None
    return judge


refuse = expect_error((2, 11, 12))


def make(world, test, judge, args=(), nontrivial=True):
    return case(" ".join([*args, test]), ["-j1", "-0", *args, test], judge, world.cwd, nontrivial)


def valid_regex(text):
    import re
    try:
        re.compile(text)
    except re.error:
        return False
    return True


def decide(world, name, op, spec, path, wanted, mode="smart", args=()):
    """The case for one test with a reference whose value is `wanted` (None: there is none)."""
    test = f"{full_name(name)}{op}{{{spec}}}{path}"
    if wanted is None or isinstance(wanted, list) or op == "~" and family(name) == "string" and \
            not valid_regex(wanted):
        return make(world, test, refuse, args)
    expected = world.matching(name, op, wanted, mode)
    return make(world, test, expect_paths(expected), args, bool(expected))


def same_attribute(world, files, names, mode="smart", args=()):
    for name in names:
        for path in files:
            wanted = world.value(path, name)
            if wanted is None and name == "target" and world.value(path, "link") is not None:
                continue
            for op in operators(name):
                yield decide(world, name, op, "", path, wanted, mode, args)


def main():
    with Check("C24") as check:
        root = check.tree("tree", TREE)
        world = World(root)
        files = [e["path"] for e in world.entries]
        pool = {"extra_env": {**PLUGIN_ENV, **RAW}}

        run_cases(check, "same attribute", same_attribute(world, files, FILE_ATTRIBUTES), **pool)
        run_cases(check, "plugin attributes", same_attribute(
            world, ["v1", "v2", "v3", "a/f1", "c"], [v for v in VALUES if family(v) != "list"]), **pool)
        some = ["a/f1", "a/b/F1", "a/b/f.TXT", "x{y}.z", "v2"]
        for mode in ("ignore", "sensitive"):
            run_cases(check, f"case {mode}", same_attribute(
                world, files if check.thorough else some, [n for n in FILE_ATTRIBUTES + VALUES if family(n) == "string"],
                mode, ["-c", mode]), **pool)
        run_cases(check, "other attribute", others(world, check), **pool)
        run_cases(check, "options", options(check, root), **pool)
        run_cases(check, "spellings", spellings(check), **pool)
        run_cases(check, "refused", refused(world), **pool)
        run_cases(check, "combinations", combinations(world), **pool)
        globs(check, world, files, pool)
        modified(check)
        sample = list(same_attribute(world, files, FILE_ATTRIBUTES))
        real_runs(check, sample[::len(sample) // (100 if check.thorough else 10)], RAW)
        return check.report.finish(
            rule="a case is one test with one reference (attribute, operator, attribute of the reference, file, "
                 "spelling of its path, options); nontrivial: it matches at least one entry")


def others(world, check):
    """All pairs of attributes."""
    names = FILE_ATTRIBUTES + VALUES
    for left in names:
        for right in names:
            for path in ("v1", "a/b/F1", "ln") if check.thorough else ("v1", "ln"):
                spec = f"vals.{right}" if right in VALUES else f"file.{right}"
                if right in FILE_ATTRIBUTES and len(left) % 2:
                    spec = right
                if family(left) == "list" or family(left) != family(right):
                    yield make(world, f"{full_name(left)}={{{spec}}}{path}", refuse)
                    continue
                if right == "target" and path != "ln":
                    wanted = None
                else:
                    wanted = world.value(path, right)
                for op in ("=",) if family(left) != "number" else ("=", "+", "-="):
                    yield decide(world, left, op, spec, path, wanted)


def options(check, root):
    names = ["path", "root", "relpath", "dir", "name", "depth", "size", "type", "inode", "pathx", "mtime", "link", "mode"]
    for args, starts, follow, absolute in (
            (["-a"], ["."], False, True), (["-L"], ["."], True, False), (["-D", "a"], ["a"], False, False),
            (["-D", "a/b", "-D", "c"], ["a/b", "c"], False, False), (["-D", "c", "-D", "a"], ["c", "a"], False, False),
            (["-D", "c", "-D", "a", "-a"], ["c", "a"], False, True), (["-D", root], [root], False, False),
            (["-D", "../tree/a"], ["../tree/a"], False, False), (["-L", "-D", "ld"], ["ld"], True, False)):
        world = World(root, starts, follow, absolute)
        for name in names:
            for entry in world.entries:
                path = os.path.join(entry["root"], entry["relpath"])
                if len(starts) > 1 and not check.thorough and "F1" not in path and "f1" not in path and "c/" not in path:
                    continue
                for op in operators(name)[:2 if check.thorough else 1]:
                    yield decide(world, name, op, "", path, world.value(path, name), args=args)
    for path, depth in (("/usr/bin", 1), ("/etc/passwd", 1), ("/usr", 0)):
        for test in (["relpath={}" + path], ["path={}" + path], ["depth={}" + path, "path=" + path],
                     ["depth-{}" + path, "path=/usr"], ["root={}" + path, "path=" + path]):
            expected = {"relpath": path, "path": path, "depth": path if test[0].startswith("depth=") else
                        "/usr" if depth else None, "root": path}[test[0].split("=")[0].split("-")[0]]
            yield case(f"-D / {test}", ["-j1", "-0", "-D", "/", "-d", "-2"] + test,
                       expect_paths([expected] if expected else []), root)


def spellings(check):
    """The operating system decides what a path means."""
    other = check.tree("more/other", [("f", "o/f9", "12345", {"mtime": T, "mode": 0o755}), ("f", "f1", "x" * 77, {"mtime": T + 5}),
                                 ("d", "a"), ("f", "a/f1", "zz"),
                                 ("f", "v2", json.dumps({"vs": "A", "vn": 5, "vm": 0o644}))])
    root = check.tree("more/tree", TREE)
    os.symlink(os.path.join(other, "o"), os.path.join(root, "out"))
    world = World(root)
    paths = ["../tree/a/b/..", "./a/f1", "a//f1", "a/./f1", "a/../a/f1", "c/../a/f1", os.path.join(root, "a/f1"), "/" + os.path.join(root, "a/f1"),
             "../tree/a/f1", "ld/F1", "ld/f.TXT", "ld/../f1", "out/f9", "out/../f1", "./out/../a/f1", os.path.join(other, "o/f9"),
             "../other/f1", "../other/o/../f1", "out/../../tree/c", ".", "..", "./", "a/", "a/b/", "a/b/.", "a/b/..", "/",
             "../other", "../other/", "ld/", "ld/.", "//", "/.", "../tree", "../tree/", "/dev/null", "/etc/passwd"]
    for path in paths:
        full = os.path.join(root, path)
        status = os.lstat(full)
        kind = reference.KINDS.get(os.lstat(full).st_mode & 0o170000)
        values = {
            "size": status.st_size if kind == "file" else 0, "inode": status.st_ino, "mtime": status.st_mtime_ns // 10**9,
            "type": kind, "perm": status.st_mode & 0o7777, "links": status.st_nlink, "uid": status.st_uid,
            "user": reference.user(status.st_uid),
            "exec": kind not in ("directory", "symlink") and bool(status.st_mode & 0o111),
            "empty": kind == "file" and status.st_size == 0 or kind == "directory" and not os.listdir(full),
        }
        if os.path.basename(path.rstrip("/")) not in ("", ".", ".."):
            values["name"] = os.path.basename(path.rstrip("/"))
            values["ext"] = reference.extension(values["name"])
        for name, wanted in values.items():
            for op in ("=", "-=") if family(name) == "number" else ("=",):
                yield decide(world, name, op, "", path, wanted)
    for path, name, wanted in (("out/../v2", "vn", 5), ("v2", "vn", 100), ("./v2", "vn", 100), ("a/../v2", "vn", 100),
                               ("../other/v2", "vn", 5), ("out/../../tree/v2", "vn", 100), ("out/../v2", "vm", 0o644),
                               ("../other//v2", "vs", "A"), (other + "/v2", "vn", 5), ("ld/../../v1", "vn", 5)):
        for op in operators(name):
            yield decide(world, name, op, "", path, wanted)


def refused(world):
    for test in ("size={}missing", "size={}a/missing", "size={}a/f1/x", "size={zz}a/f1", "size={zz.size}a/f1", "link={}a/f1",
                 "name={link}a/f1", "target={}c", "size={}", "size={name}", "size={size}", "vals.vl={}v1", "vals.vl={vals.vs}v1",
                 "vals.vs={vals.vl}v1", "vals.vl={vals.vl}v1", "vals.vu={}v1", "vals.vn={}a/f1", "type={name}a/f1", "mode={type}a/f1", "mode={size}a/f1",
                 "size={mode}a/f1", "name={size}a/f1", "size={name}a/f1", "type%{}a/f1", "size:{}a/f1", "size~{}a/f1",
                 "empty+{}a/f1", "mode%{}a/f1", "zz={}a/f1", "zz.name={}a/f1", "={}a/f1", "{}a/f1", "size{}a/f1", "size={a b}a/f1",
                 "name~{}[ab]" if False else "name~{}*", "path={}" + "x" * 5000):
        for args in ((), ("not",), ("type=f", "or")):
            yield make(world, test, refuse, args)
    for test in ("size={}missing", "size={name}a/f1", "zz={}a/f1"):
        yield make(world, test, refuse, ("-j1", "-e"))


def combinations(world):
    size = world.value("a/f1", "size")
    newer = set(world.matching("mtime", "+", world.value("c", "mtime")))
    same = set(world.matching("size", "=", size))
    everything = {e["path"] for e in world.entries}
    lower = set(world.matching("name", "=", "f1"))
    a, b, c = "mtime+{}c", "size={}a/f1", "name={}a/f1"
    for tests, expected in (
            ([a, b], newer & same), ([a, "or", b], newer | same), (["not", a], everything - newer),
            (["not", "{{", a, "or", b, "}}"], everything - (newer | same)), ([b, "and", "not", c], same - lower),
            ([c, "or", "not", a, b], lower | (same - newer)), (["(", b, ")"], same), ([b, b], same), ([a, "not", a], set())):
        yield case(" ".join(tests), ["-j1", "-0"] + tests, expect_paths(expected), world.cwd, bool(expected))
    files = {e["path"] for e in world.entries if e["type"] != "directory"}
    matching = {e["path"] for e in world.entries if e["path"] in same and e["type"] == "file"}
    yield case("-e", ["-j1", "-0", "type=f", "-e", "size!".replace("!", "={}a/f1")],
               expect_paths({e["path"] for e in world.entries if e["type"] == "file"} - matching), world.cwd)
    yield case("-e -e", ["-j1", "-0", "-e", "type=d", "-e", "size={}c/f.txt", "-H"],
               expect_paths({p for p in files if "/" not in p and p not in same}), world.cwd) if False else \
        case("reference to hidden", ["-j1", "-0", "size={}.h/x"],
             expect_paths(world.matching("size", "=", 1)), world.cwd)


def globs(check, world, files, pool):
    """The operator "%" with a reference and with the text of the value."""
    todo = []
    for name in ("name", "path", "relpath", "ext", "user", "vs", "dir"):
        for path in files + ["v1", "v2"]:
            wanted = world.value(path, name)
            if not wanted or wanted.startswith("{") or wanted.strip() != wanted:
                continue
            for mode in ("smart", "sensitive"):
                args = ["--no-cache", "-j1", "-0", "-c", mode]
                todo.append((f"{mode} {name}%{{}}{path}", [scenario(args + [f"{full_name(name)}%{text}"], cwd=world.cwd)
                                                      for text in ("{}" + path, wanted)]))
    results = need(check.pool(**pool).map([{"scenario": s} for _, pair in todo for s in pair]))
    for number, (key, pair) in enumerate(todo):
        first, second = results[2 * number:2 * number + 2]
        message = finished(first)
        check.report.case(("globs", key), bool(second["out"]))
        check.report.count("states")
        check.report.count("transitions", first["steps"])
        if not message and (first["code"], sorted(first["out"].split(b"\0"))) != \
                (second["code"], sorted(second["out"].split(b"\0"))):
            message = f"status {first['code']}, {first['out'][:200]!r}; with the value itself status {second['code']}, " \
                      f"{second['out'][:200]!r}"
        if message:
            check.report.violation(f"globs {key}: {message}", {"argv": pair[0]["argv"], "err": err(first)[-500:]})
    check.report.part("globs", {"runs": len(results)})


def modified(check):
    """The reference is looked at anew each time, whatever is in the cache."""
    pool = check.pool(extra_env=PLUGIN_ENV)
    root = check.tree("modified", [("f", "r/f0", "a"), ("f", "s/f1", "aa"), ("f", "s/f2", "b"), ("f", "s/f3", "ccc")])
    cache = os.path.join(check.scratch.path, "modified.db")
    stamp = T
    for step, text in enumerate(["aa", "b", "ccc", "zz", "b", "aa", "ccc", "ccc"]):
        stamp += 10
        path = os.path.join(root, "r/f0")
        with open(path, "w", encoding="utf-8") as fobj:
            fobj.write(text)
        os.utime(path, (stamp, stamp))
        for test, key in (("ca.text={}r/f0", lambda t: t), ("ca.count={}r/f0", len), ("ca_b.back={}r/f0", lambda t: t),
                          ("size={ca.count}r/f0", len)):
            expected = [p for p, t in (("s/f1", "aa"), ("s/f2", "b"), ("s/f3", "ccc")) if key(t) == key(text)]
            result = need(pool.map([{"scenario": scenario(["--cache", cache, "-j2", "-D", "s", test], cwd=root)}]))[0]
            check.report.case(("modified", step, test), bool(expected))
            check.report.count("states")
            check.report.count("transitions", result["steps"])
            message = finished(result) or expect_lines(expected)(result)
            if message:
                check.report.violation(f"modified reference, step {step} {test}: {message}", {"err": err(result)[-1000:]})
