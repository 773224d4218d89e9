"""C09: excluded entries and everything below them are left out, nothing else is."""

import itertools
import shutil
import tempfile

from .common import *

TREE = [
    ("f", "a/.h"), ("f", "a/b/c/f.x"), ("f", "a/b/y.x"), ("f", ".hid/f1"), ("f", ".hid/b/f.x"),
    ("f", "f1"), ("f", "b.x"), ("d", "z/.e/b"), ("f", "z/a"), ("l", "ld", "a"), ("l", "lf", "f1"),
    ("l", "z/up", "../a/b"), ("p", "z/pipe"), ("l", ".hl", "z"),
]

RANGES = {
    None: lambda d: True, "0": lambda d: d == 0, "1": lambda d: d == 1, "0-1": lambda d: d <= 1,
    "1-": lambda d: d >= 1, "-1": lambda d: d <= 1, "2-3": lambda d: 2 <= d <= 3,
    "0,2": lambda d: d in (0, 2), "0,2-": lambda d: d != 1, "3-1": lambda d: 1 <= d <= 3,
    "-": lambda d: True, "9": lambda d: d == 9, "0-0,3": lambda d: d in (0, 3),
    "0,1,3": lambda d: d != 2, "3,0,2": lambda d: d in (0, 2, 3), "0,2-2,3-": lambda d: d != 1, "3,0-0,1-1,2": lambda d: d <= 3,
    "1,0": lambda d: d <= 1, " 1 , 2 ": lambda d: d in (1, 2),
}


class Item:
    """What the reference knows about an entry."""

    def __init__(self, root, start, rel, follow):
        self.rel = rel
        self.name = os.path.basename(rel)
        self.path = rel if start == "." else os.path.join(start, rel)
        full = os.path.join(root, start, rel)
        status = os.stat(full) if follow else os.lstat(full)
        import stat
        kinds = {stat.S_IFDIR: "directory", stat.S_IFREG: "file", stat.S_IFLNK: "symlink",
                 stat.S_IFIFO: "fifo"}
        self.type = kinds[stat.S_IFMT(status.st_mode)]
        self.depth = rel.count("/")
        self.ext = os.path.splitext(self.name)[1][1:]
        self.dev = status.st_dev
        self.full = full


EXCLUDES = {
    "name=b": lambda i: i.name == "b", "type=d": lambda i: i.type == "directory",
    "name=a": lambda i: i.name == "a", "hide=yes": lambda i: i.name.startswith("."),
    "ext=x": lambda i: i.ext == "x", "depth=1": lambda i: i.depth == 1,
    "depth+1": lambda i: i.depth > 1, "name~^[fz]": lambda i: re_first(i.name, "fz"),
    "type=l": lambda i: i.type == "symlink", "path:b/": lambda i: "b/" in i.path,
    # no attribute, no exclusion
    "link:b": lambda i: i.type == "symlink" and "b" in os.readlink(i.full),
    "type=f": lambda i: i.type == "file", "name%.*": lambda i: i.name.startswith("."),
}

TESTS = {
    (): lambda i: True, ("type=f",): lambda i: i.type == "file",
    ("name:f", "OR", "type=d"): lambda i: "f" in i.name or i.type == "directory",
    ("NOT", "type=d"): lambda i: i.type != "directory",
}


def re_first(name, chars):
    return name[0] in chars


def reference(root, starts, follow, excluded, wanted, absolute=False):
    result = []

    def walk(start, rel):
        for name in os.listdir(os.path.join(root, start, rel)):
            item = Item(root, start, os.path.join(rel, name), follow)
            if excluded(item):
                continue
            if wanted(item):
                result.append(os.path.join(root, item.path) if absolute else item.path)
            if item.type == "directory":
                walk(start, item.rel)
    for start in starts:
        walk(start, "")
    return result


def main():
    with Check("C09") as check:
        root = check.tree("tree", TREE)
        thorough = check.thorough

        def make(starts, hide, ranges, excludes, tests, follow, absolute=False, api=False):
            argv = []
            for start in starts:
                if start != ".":
                    argv += ["-D", start]
            if hide:
                argv.append("-H")
            if ranges is not None:
                argv += ["-d", ranges]
            for exclude in excludes:
                argv += ["-e", exclude]
            if follow:
                argv.append("-L")
            if absolute:
                argv.append("-a")
            argv += tests

            def excluded(item):
                return any(EXCLUDES[e](item) for e in excludes) or \
                        (hide and item.name.startswith("."))

            def wanted(item):
                return RANGES[ranges](item.depth) and TESTS[tests](item)
            base = root
            expected = reference(base, starts, follow, excluded, wanted)
            if absolute:
                expected = [os.path.normpath(os.path.join(root, e)) for e in expected]
            return case(" ".join(argv), ["-j1"] + argv, expect_lines(expected), root,
                        bool(expected))

        starts = [(".",), ("a",), ("a", "z")]
        pairs = [()] + [(e,) for e in EXCLUDES] + list(itertools.combinations(EXCLUDES, 2))

        def cases():
            for start, hide, follow in itertools.product(starts, (False, True), (False, True)):
                for ranges in RANGES:
                    for excludes in pairs[:1 + len(EXCLUDES)]:
                        for tests in TESTS:
                            if not thorough and (len(excludes) + len(tests) > 1 or start != (".",)) \
                                    and hash_small(start, hide, follow, ranges, excludes, tests) % 4:
                                continue
                            yield make(start, hide, ranges, excludes, tests, follow)
                for excludes in pairs[1 + len(EXCLUDES):]:
                    for tests in TESTS if thorough else [(), ("type=f",)]:
                        yield make(start, hide, None, excludes, tests, follow)
                for absolute_test in TESTS:
                    yield make(start, hide, None, (), absolute_test, follow, absolute=True)

        run_cases(check, "exclusion", cases())
        run_cases(check, "start directories", start_cases(check))
        file_systems(check)
        sample = [make((".",), hide, ranges, excludes, (), follow)
                  for hide in (False, True) for follow in (False, True)
                  for ranges, excludes in ((None, ()), ("0-1", ("name=b",)))]
        real_runs(check, sample)
        return check.report.finish(
            rule="a case is one combination of -D, -H, -d, -e, -L and tests on one tree, compared "
                 "with a plain recursive walk; nontrivial: something is found" +
                 ("" if thorough else " (a quarter of the combinations of three and more options)"))


def hash_small(*args):
    import zlib
    return zlib.crc32(repr(args).encode())


def start_cases(check):
    """Start directories in all notations."""
    items = [("f", "a/f"), ("f", "ab/f"), ("f", "a b/f"), ("f", "-x/f"), ("f", "a/c/f"),
             ("f", "name=f/f"), ("l", "la", "a"), ("f", "(/f")]
    root = check.tree("starts", items)
    below = {d: [os.path.join(d, e) for e in tree.walk(os.path.join(root, d))]
             for d in ("a", "ab", "a b", "-x", "name=f", "(")}

    def ok(argv, expected, cwd=root):
        return case(" ".join(argv), ["-j1"] + argv, expect_lines(expected), cwd)

    for d in below:
        yield ok(["-D", d], below[d])
        yield ok([f"--directory={d}"], below[d])
        if not d.startswith("-"):
            yield ok([d + "/"], below[d])
            yield ok([d + "/", "type=f"], [e for e in below[d] if e.endswith("f")])
            yield ok(["type=f", d + "/"], [e for e in below[d] if e.endswith("f")])
        yield ok([os.path.join(root, d) + "/"], [os.path.join(root, e) for e in below[d]])
        yield ok(["-a", "-D", d], [os.path.join(root, e) for e in below[d]])
        yield ok(["./" + d + "/"], below[d])
    for one, two in itertools.permutations(["a", "ab", "a b"], 2):
        yield ok(["-D", one, "-D", two], below[one] + below[two])
        yield ok([one + "/", two + "/", "type=f"],
                 [e for e in below[one] + below[two] if e.endswith("f")])
        yield ok(["type=f", one + "/", two + "/"],
                 [e for e in below[one] + below[two] if e.endswith("f")])
        yield ok([one + "/", "type=f", two + "/"],
                 [e for e in below[one] + below[two] if e.endswith("f")])
    yield ok(["../"], ["../" + e for e in tree.walk(root)], os.path.join(root, "a"))
    yield ok(["-D", ".."], ["../" + e for e in tree.walk(root)], os.path.join(root, "a"))
    yield ok(["-D", "la"], ["la/" + e[2:] for e in below["a"]])
    for bad in (["-D", "a", "-D", "a/c"], ["-D", "a/c", "-D", "a"], ["a/", "a/c/"],
                ["-D", ".", "-D", "a"], ["-D", "a", "-D", root], ["-D", "missing"],
                ["-D", "a", "-D", "missing"], ["-D", "a/f"], ["missing/"], ["-D", ""]):
        yield case(" ".join(bad), ["-j1"] + bad, expect_error((2, 12)), root, False)


def file_systems(check):
    """A second file system is only available as a directory behind a symlink."""
    try:
        other = tempfile.mkdtemp(prefix="ffmc-", dir="/dev/shm")
    except OSError:
        check.report.part("file systems", "no second file system available")
        return
    try:
        tree.build(other, [("f", "deep/f2"), ("f", "f1")])
        root = check.tree("mount", [("f", "dir/f3"), ("l", "dir/other", other), ("f", "f4"),
                                    ("l", "file", other + "/f1")])
        if os.stat(root).st_dev == os.stat(other).st_dev:
            check.report.part("file systems", "no second file system available")
            return
        dev = os.stat(root).st_dev

        def cases():
            for option in ("--one-file-system", "--mount", "--xdev", None):
                for follow in (False, True):
                    for tests in ((), ("type=f",), ("NOT", "type=d")):
                        argv = ([option] if option else []) + (["-L"] if follow else []) + list(tests)
                        expected = reference(root, ["."], follow,
                                             lambda i: option is not None and i.dev != dev,
                                             TESTS[tests])
                        yield case(" ".join(argv), ["-j1"] + argv, expect_lines(expected), root)
                        for exclude in EXCLUDES:
                            if tests:
                                continue
                            expected = reference(root, ["."], follow, lambda i: option is not None and i.dev != dev or EXCLUDES[exclude](i), TESTS[()])
                            yield case(" ".join(argv) + " -e " + exclude, ["-j1"] + argv + ["-e", exclude], expect_lines(expected), root)
                            yield case(" ".join(argv) + " -H -e " + exclude, ["-j1", "-e", exclude, "-H"] + argv, expect_lines(
                                [e for e in expected if not any(p.startswith(".") for p in e.split("/"))]), root)
            # relative to the start directory, not to the current one
            for option in ([], ["--xdev"]):
                yield case(f"start elsewhere {option}", ["-j1", "-D", "dir/other"] + option,
                           expect_lines(["dir/other/deep", "dir/other/deep/f2", "dir/other/f1"]),
                           root)
        run_cases(check, "file systems", cases())
    finally:
        shutil.rmtree(other)
