"""C10: ignore files are honoured as git does."""

import itertools
import json
import shutil
import subprocess

from .common import *

PLAIN = [("f", "a/a/a"), ("f", "a/a/b"), ("f", "a/b"), ("f", "a/ab/b"), ("f", "b/a"), ("f", "b/b/a"),
         ("f", "ab"), ("f", "ba/a"), ("l", "l", "a"), ("l", "b/l", "nothing")]
SPECIAL = [("f", n) for n in (
    "a", "*", "!", "#", " ", "a ", " a", "\\", "\\a", "a*", "-", "]", "[", "[a]", "^", "!a", "#a",
    "a\n", "\n", "ä", "\udcff", "b", "B", "1", "a\\", "\ta", "a\r", ".a", "a-", "\\*", "d/a", "d/-",
    "d/ a", "\x7f", "d/x\ny/a", "d/x\ny/z")]

CLASSES = {
    "alnum": str.isalnum, "alpha": str.isalpha, "blank": lambda c: c in " \t",
    "cntrl": lambda c: ord(c) < 32 or ord(c) == 127, "digit": str.isdigit,
    "graph": lambda c: 33 <= ord(c) < 127, "lower": str.islower,
    "print": lambda c: 32 <= ord(c) < 127,
    "punct": lambda c: 33 <= ord(c) < 127 and not c.isalnum(), "space": lambda c: c in " \t\n\r\f\v",
    "upper": str.isupper, "xdigit": lambda c: c in "0123456789abcdefABCDEF",
}


# -- the reference ---------------------------------------------------------------------------------
class Never(Exception):
    """The pattern is invalid."""


def bracket(pattern, pos, char):
    """Evaluate the bracket expression at `pos`; returns (matches, position behind it)."""
    pos += 1
    negate = pos < len(pattern) and pattern[pos] in "!^"
    pos += negate
    hit = False
    first = True
    while True:
        if pos >= len(pattern):
            raise Never
        cur = pattern[pos]
        if cur == "]" and not first:
            break
        first = False
        if cur == "[" and pattern[pos + 1:pos + 2] == ":":
            end = pattern.find("]", pos + 2)
            if end < 0:
                raise Never
            if end - 1 >= pos + 2 and pattern[end - 1] == ":":
                name = pattern[pos + 2:end - 1]
                if name not in CLASSES:
                    raise Never
                hit = hit or (ord(char) < 128 and CLASSES[name](char))
                pos = end + 1
                continue
        if cur == "\\":
            pos += 1
            if pos >= len(pattern):
                raise Never
            cur = pattern[pos]
        if pattern[pos + 1:pos + 2] == "-" and pattern[pos + 2:pos + 3] not in ("]", ""):
            pos += 2
            stop = pattern[pos]
            if stop == "\\":
                pos += 1
                if pos >= len(pattern):
                    raise Never
                stop = pattern[pos]
            # an empty range still matches its start
            hit = hit or cur == char or cur <= char <= stop
        else:
            hit = hit or cur == char
        pos += 1
    return hit != negate, pos + 1


def wild(pattern, pos, text, tpos, git):
    """Whether the rest of the pattern matches the rest of the text."""
    while pos < len(pattern):
        cur = pattern[pos]
        if cur == "*":
            end = pos
            while end < len(pattern) and pattern[end] == "*":
                end += 1
            if end - pos > 1 and (pos == 0 or pattern[pos - 1] == "/") and \
                    (end == len(pattern) or pattern[end] == "/"):
                if end == len(pattern):
                    return True
                if wild(pattern, end + 1, text, tpos, git):
                    return True
                return any(text[i - 1] == "/" and wild(pattern, end + 1, text, i, git)
                           for i in range(tpos + 1, len(text)))
            while True:
                if wild(pattern, end, text, tpos, git):
                    return True
                if tpos >= len(text) or text[tpos] == "/":
                    return False
                tpos += 1
        if tpos >= len(text):
            # ff: a/** matches the directory itself, too
            return not git and cur == "/" and len(pattern) - pos > 2 and \
                not pattern[pos + 1:].strip("*")
        char = text[tpos]
        if cur == "?":
            if char == "/":
                return False
        elif cur == "[":
            hit, end = bracket(pattern, pos, char)
            if not hit or char == "/":
                return False
            pos, tpos = end, tpos + 1
            continue
        else:
            if cur == "\\":
                pos += 1
                if pos >= len(pattern):
                    raise Never
                cur = pattern[pos]
            if cur != char:
                return False
        pos += 1
        tpos += 1
    return tpos == len(text)


def valid(pattern):
    """Whether the brackets are closed and there is no backslash at the end."""
    pos = 0
    try:
        while pos < len(pattern):
            if pattern[pos] == "[":
                _, pos = bracket(pattern, pos, "x")
            elif pattern[pos] == "\\":
                if pos + 1 >= len(pattern):
                    return False
                pos += 2
            else:
                pos += 1
    except Never:
        return False
    return True


def parse(line):
    """One line of an ignore file: (negated, anchored, only directories, pattern) or None."""
    if line.endswith("\r"):
        line = line[:-1]
    if line.startswith("#"):
        return None
    end = pos = 0
    while pos < len(line):
        if line[pos] == "\\":
            pos += 2
            end = min(pos, len(line))
        else:
            pos += 1
            if line[pos - 1] != " ":
                end = pos
    line = line[:end]
    negated = line.startswith("!")
    line = line[negated:]
    directory = line.endswith("/")
    if directory:
        line = line[:-1]
    anchored = "/" in line
    if anchored and line.startswith("/"):
        line = line[1:]
    return (negated, anchored, directory, line) if line else None


class Reference:
    """Ignore files of a tree: {directory: content}."""

    def __init__(self, files, git):
        self.git = git
        self.files = {}
        self.cache = {}
        for dirname, content in files.items():
            rules = [parse(line) for line in self.text(content).split("\n")]
            if not git:
                rules = [r and r[:3] + (r[3].lstrip("/"),) for r in rules]
            self.files[self.text(dirname)] = [r for r in rules if r is not None and valid(r[3])]

    def text(self, string):
        """git looks at single bytes."""
        return os.fsencode(string).decode("latin-1") if self.git else string

    def verdict(self, path, is_dir):
        dirname = os.path.dirname(path)
        while True:
            for negated, anchored, directory, pattern in reversed(self.files.get(dirname, ())):
                if directory and not is_dir:
                    continue
                if anchored:
                    text = path[len(dirname) + 1:] if dirname else path
                    if self.git:
                        # git compares the part without wildcards first, which may leave a ** at
                        # the start although it is a normal * according to gitignore(5)
                        prefix = next((i for i, c in enumerate(pattern) if c in "*?[\\"),
                                      len(pattern))
                        hit = text.startswith(pattern[:prefix]) and \
                            wild(pattern[prefix:], 0, text[prefix:], 0, True)
                    else:
                        hit = wild(pattern, 0, text, 0, False)
                else:
                    text = os.path.basename(path)
                    # without a slash ** is no different from *
                    hit = text and wild_name(pattern, text)
                if hit:
                    return not negated
            if not dirname:
                return False
            dirname = os.path.dirname(dirname)

    def ignored(self, path, is_dir):
        return self._ignored(self.text(path), is_dir)

    def _ignored(self, path, is_dir):
        dirname = os.path.dirname(path)
        if dirname:
            if dirname not in self.cache:
                self.cache[dirname] = self._ignored(dirname, True)
            if self.cache[dirname]:
                return True
        return self.verdict(path, is_dir)


def wild_name(pattern, text):
    """Match a name without slashes; all numbers of * are the same."""
    import re
    squeezed, pos = "", 0
    while pos < len(pattern):
        if pattern[pos] == "\\" and pos + 1 < len(pattern):
            squeezed += pattern[pos:pos + 2]
            pos += 2
        elif pattern[pos] == "[":
            _, end = bracket(pattern, pos, "x")
            squeezed += pattern[pos:end]
            pos = end
        else:
            if not (pattern[pos] == "*" and squeezed.endswith("*") and
                    not squeezed.endswith("\\*") and not re.search(r"\[[^\]]*\*$", squeezed)):
                squeezed += pattern[pos]
            pos += 1
    return wild(squeezed, 0, text, 0, True)


# -- running -----------------------------------------------------------------------------------------
GIT_ENV = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": "/nonexistent",
           "GIT_CONFIG_NOSYSTEM": "1", "GIT_CONFIG_GLOBAL": "/dev/null", "LC_ALL": "C.UTF-8"}


def git_ignored(root, paths):
    """The set of the paths git ignores."""
    if not os.path.isdir(os.path.join(root, ".git")):
        subprocess.run(["git", "init", "-q", "-b", "main", root], env=GIT_ENV, check=True)
    data = b"".join(os.fsencode(p) + b"\0" for p in paths)
    proc = subprocess.run(["git", "-c", "core.excludesFile=", "check-ignore", "--no-index",
                           "--stdin", "-z"], cwd=root, env=GIT_ENV, input=data,
                          capture_output=True, check=False)
    if proc.returncode not in (0, 1):
        raise HarnessError("git check-ignore: " + proc.stderr.decode("utf-8", "replace"))
    return {os.fsdecode(p) for p in proc.stdout.split(b"\0") if p}


def collect(root, top=""):
    """(path, is directory) of everything below root."""
    result = []
    for dirpath, dirnames, filenames in os.walk(os.path.join(root, top)):
        if dirpath == root and ".git" in dirnames:
            dirnames.remove(".git")
        for name in dirnames + filenames:
            path = os.path.join(dirpath, name)
            result.append((os.path.relpath(path, root),
                           os.path.isdir(path) and not os.path.islink(path)))
    return sorted(result)


class Forest:
    """A tree with many small trees, each of them with its own ignore files."""

    def __init__(self, check, name, items, use_git=True):
        self.check = check
        self.name = name
        self.items = items
        self.use_git = use_git
        self.template = None
        self.number = 0

    def plant(self, variants):
        """`variants` are lists of {directory: content of the ignore file}; yields a case."""
        root = os.path.join(self.check.scratch.path, "trees", f"{self.name}{self.number}")
        self.number += 1
        os.makedirs(root)
        files = {}
        for num, variant in enumerate(variants):
            top = f"t{num:03d}"
            if self.template is None:
                self.template = tree.build(os.path.join(self.check.scratch.path, "trees",
                                                        self.name + "-template"), self.items)
            for dirpath, dirnames, filenames in os.walk(self.template):
                target = os.path.join(root, top, os.path.relpath(dirpath, self.template))
                os.makedirs(target, exist_ok=True)
                for name in dirnames + filenames:
                    source = os.path.join(dirpath, name)
                    if os.path.islink(source):
                        os.symlink(os.readlink(source), os.path.join(target, name))
                    elif name in filenames:
                        os.link(source, os.path.join(target, name))
            for dirname, content in variant.items():
                target = os.path.join(root, top, dirname)
                os.makedirs(target, exist_ok=True)
                with open(os.path.join(target, ".gitignore"), "wb") as fobj:
                    fobj.write(content.encode("utf-8", "surrogateescape"))
                files[os.path.normpath(os.path.join(top, dirname))] = content
        entries = collect(root)
        model = Reference({k: decoded(v) for k, v in files.items()}, git=False)
        expected = [p for p, is_dir in entries if not model.ignored(p, is_dir)]
        if self.use_git:
            theirs = git_ignored(root, [p for p, _ in entries])
            model = Reference({k: decoded(v) for k, v in files.items()}, git=True)
            for path, is_dir in entries:
                if model.ignored(path, is_dir) != (path in theirs):
                    num = int(path[1:4])
                    raise HarnessError(f"the reference is wrong about {path!r} (git: "
                                       f"{path in theirs}) with {variants[num]!r}")
            self.check.report.count("reference_validated_by_git", len(entries))
            shutil.rmtree(os.path.join(root, ".git"))
        self.check.report.count("states", len(variants) - 1)
        self.check.report.count("decisions", len(entries))
        self.check.report.count("ignored", len(entries) - len(expected))

        def judge(result):
            try:
                got = [list(e.values())[0] for e in json.loads(result["out"] or b"[]")]
            except ValueError:
                return f"no JSON: {result['out'][:200]!r} {err(result)[-200:]!r}"
            if result["code"] != 0 or sorted(got) != sorted(expected):
                wrong = sorted(set(got) ^ set(expected))
                num = int(wrong[0][1:4]) if wrong and wrong[0][1:4].isdecimal() else 0
                return f"status {result['code']}, wrong about {wrong[:3]!r} " \
                    f"({'reported' if wrong and wrong[0] in got else 'not reported'}) with " \
                    f"{variants[num] if wrong else None!r} {err(result)[-200:]!r}"
            return None

        return case(f"{self.name} {self.number}", ["-j1", "-I", "--json", "-o", "relpath"], judge, root,
                    options={"max_steps": 10 ** 6})

    def cases(self, variants, size=80):
        iterator = iter(variants)
        while True:
            part = list(itertools.islice(iterator, size))
            if not part:
                return
            yield self.plant(part)


def decoded(content):
    return content[1:] if content.startswith("\ufeff") else content


def sequences(tokens, length):
    for num in range(1, length + 1):
        for parts in itertools.product(tokens, repeat=num):
            yield "".join(parts)


def main():
    with Check("C10") as check:
        thorough = check.thorough
        seen = set()

        def unique(texts):
            for text in texts:
                if text not in seen:
                    seen.add(text)
                    yield {"": text + "\n"}

        run_cases(check, "wildcards", Forest(check, "wild", PLAIN).cases(
            unique(sequences(["a", "b", "*", "**", "?", "/"], 6 if thorough else 5))))
        seen.clear()
        run_cases(check, "negation and wildcards", Forest(check, "neg", PLAIN).cases(
            {"": f"*\n!{p}\n"} for p in sequences(["a", "b", "*", "**", "/"],
                                                  5 if thorough else 4)))
        run_cases(check, "special characters", Forest(check, "special", SPECIAL).cases(
            unique(sequences(["a", "*", "\\", "[", "]", "!", "#", " ", "-", "^"],
                             5 if thorough else 4))))
        classes = ["[[:" + n + ":]]" for n in CLASSES] + [
            "[[:foo:]]", "[[:alpha:]", "[![:alpha:]]", "[[:alpha:]-]", "[^[:digit:]a]*", "[a-]",
            "[]-a]", "[]a]", "[!]a]", "[z-a]", "[!z-a]", "[\\]]", "[\\]a]", "[a-c]", "[A-C]", "[+--]",
            "[--a]", "[a-c-e]", "[\\a-\\c]", "d[/]a", "d[!x]a", "d/[!x]", "d/[/-a]", "[ä]", "[à-ü]",
            "ä", "\udcff", "?", "??", "a?", "[[]", "[[a]]", "[a", "[", "a[", "\\[a]", "[*]", "[?]",
            "\\ ", "a\\ ", "a\\  ", "a \\ ", " a ", "a\t", "\ta", "a\r", "# a", "\\#a", "\\!a", "!",
            "\\", "a\\", "\\\\", "\\a", "/", "//", "/ ", "a//", "a/ ", "!!a", "!#a", "\n", "a\n\n#b\nb",
            "/a", "/*", "/**", "**", "***", "d/", "d/**", "d/*", "!d/", "d/**/", "d/***", "\\d/a",
            "[d]/a", "d\\/a", "*\n!d\n!d/a", "*\n!d/\n!d/a", "d\n!d/a", "a\r\nb\r", "B", "[[:upper:]]", "*[!a]", "**/a", "d/**/a", "/d/**/z", "**/z\n!a", "d/*/a"]
        run_cases(check, "classes and line ends", Forest(check, "classes", SPECIAL).cases(
            [{"": c} for c in classes] + [{"": c + "\n"} for c in classes]))

        lines = ["a", "!a", "a/", "!a/", "/a", "!/a", "b", "!b", "a/b", "!a/b", "*", "!*", "a/*",
                 "!a/a", "**/b", "!**/b", "a/**", "!a/a/"]
        run_cases(check, "two lines", Forest(check, "pairs", PLAIN).cases(
            {"": f"{x}\n{y}\n"} for x, y in itertools.product(lines, repeat=2)))
        run_cases(check, "two files", Forest(check, "nested", PLAIN).cases(
            {one: f"{x}\n", two: f"{y}\n"} for x, y in itertools.product(lines, repeat=2)
            for one, two in (("", "a"), ("a", "a/a"), ("", "b"))))
        triples = lines if thorough else lines[:2] + lines[4:12]
        run_cases(check, "three lines", Forest(check, "triples", PLAIN).cases(
            {"": f"{x}\n{y}\n", "a": f"{z}\n"} for x, y, z in itertools.product(triples, repeat=3)))
        # Patterns are compiled in groups of the same kind, so kinds have to alternate.
        few = ["a", "!a", "*", "!b", "/a/b", "a/"]
        run_cases(check, "lines in one file", Forest(check, "lines", PLAIN).cases(itertools.chain(
            ({"": f"{x}\n{y}\n{z}\n"} for x, y, z in itertools.product(triples, repeat=3)),
            ({"": "\n".join(x) + "\n"} for x in itertools.product(few[:6 if thorough else 4], repeat=4)),
            ({"": "\n".join(x) + "\n"} for x in itertools.product(few[:4], repeat=5) if thorough))))
        run_cases(check, "start directories and options", list(options(check)))
        run_cases(check, "ignore files above the start directory", list(ancestors(check)))
        check.report.assumptions += [
            "as the unit tests demand, a pattern that ends in /** matches the directory itself, too",
            "only one kind of ignore file per directory; patterns are not matched below excluded "
            "directories"]
        return check.report.finish(
            rule="every sequence of pattern tokens up to the length bound in a tree of all shapes of "
                 "names; the reference is compared with git check-ignore for every single path",
            bounds={"wildcard tokens": 6 if thorough else 5,
                    "special characters": 5 if thorough else 4})


def ancestors(check):
    """All combinations of lines in three directories on the way to the searched one, which may contradict each other."""
    lines_ = ["", "f", "!f", "/q/r/f", "!q/r/f", "*", "!d", "f/", "r/f"]
    if not check.thorough:
        lines_ = lines_[:7]
    for number, texts in enumerate(itertools.product(lines_, lines_, lines_[:4 if check.thorough else 3])):
        contents = {d: t + "\n" for d, t in zip(("", "q", "q/r"), texts) if t}
        items = [("f", "q/r/f"), ("f", "q/r/g"), ("f", "q/r/d/f"), ("f", "q/f")] + \
            [("f", os.path.join(d, ".gitignore"), t) for d, t in contents.items()]
        root = check.tree(f"ancestors{number}", items)
        for cwd, start in (("q/r", "."), ("", "q/r"), ("q", "r"), ("q/r/d", "."), ("q", ".")):
            for parents in (True, False):
                if not parents and number % 4:
                    continue
                top = os.path.normpath(os.path.join(cwd, start))
                used = {d: t for d, t in contents.items() if parents or d == top or d.startswith(top + "/")}
                model = Reference(used, git=False)
                expected = []
                for path, is_dir in collect(root, top):
                    # a directory above that is ignored is searched nevertheless
                    steps = path[len(top) + 1:].split("/")
                    steps = [os.path.join(top, *steps[:n]) for n in range(1, len(steps) + 1)]
                    if not any(model.verdict(s, is_dir or s != path) for s in steps):
                        expected.append(path[len(top) + 1:] if start == "." else os.path.join(start, path[len(top) + 1:]))
                argv = ["-j1", "-D", start, "-I"] + ([] if parents else ["--no-parent-ignore"])
                yield case(f"{texts} {cwd} {' '.join(argv)}", argv, expect_lines(expected), os.path.join(root, cwd))


def options(check):
    """Parent directories, start directories, other names, links, binary files."""
    items = PLAIN + [("f", ".gitignore", "b\n!ab\n/l\n"), ("f", "a/.gitignore", "!b\na/b\n/ab/\n"),
                     ("f", "b/other", "a\n"), ("f", "b/b/third", "*\n")]
    root = check.tree("options", items)
    names = (".gitignore", ".ignore", ".fdignore", ".ffignore")

    def reference(cwd, start, follow=False, parents=True, files=(".gitignore",)):
        top = os.path.normpath(os.path.join(cwd, start))
        contents = {}
        for dirpath, _, filenames in os.walk(root):
            if not parents and os.path.commonpath([dirpath, top]) != top:
                continue
            for name in filenames:
                if name in files:
                    rel = os.path.relpath(dirpath, root)
                    with open(os.path.join(dirpath, name), encoding="utf-8") as fobj:
                        contents["" if rel == "." else rel] = fobj.read()
        model = Reference(contents, git=False)
        for dirpath, dirnames, filenames in os.walk(top, followlinks=follow):
            for name in sorted(dirnames + filenames):
                full = os.path.join(dirpath, name)
                is_dir = os.path.isdir(full) if follow else \
                    os.path.isdir(full) and not os.path.islink(full)
                if follow and not os.path.exists(full):
                    continue
                # an ignored start directory is searched nevertheless
                if model.verdict(os.path.relpath(full, root), is_dir):
                    if name in dirnames:
                        dirnames.remove(name)
                    continue
                rel = os.path.relpath(full, top)
                yield rel if start == "." else os.path.join(start, rel)

    for cwd, start in ((root, "."), (root, "a"), (root, "a/a"), (root, "b"), (root, "b/b"),
                       (root + "/a", "."), (root + "/b", "."), (root + "/b/b", ".."),
                       (root, root), (root, root + "/a"), (root + "/a", "../b")):
        for parents in (True, False):
            for follow in (True, False):
                for files in ((), ("other",), ("third", "other"), ("nothing",)):
                    argv = ["-j1", "-D", start, "-I"] + ([] if parents else ["--no-parent-ignore"]) \
                        + (["-L"] if follow else [])
                    if files:
                        argv += ["--ignore-files", (", " if parents else ",").join(files)]
                    expected = list(reference(cwd, start, follow, parents, files or names))
                    yield case(" ".join(argv) + f" in {cwd}", argv, expect_lines(expected), cwd)
    # every default name is honoured, and nothing is without -I
    for name in names + ("gitignore", ".hgignore"):
        other = check.tree("name" + name, [("f", "x/" + name, "y\n"), ("f", "x/y"), ("f", "x/z"),
                                           ("f", "y")])
        everything = tree.walk(other)
        yield case(f"{name} -I", ["-j1", "-I"],
                   expect_lines([e for e in everything if e != "x/y" or name not in names]), other)
        yield case(f"{name}", ["-j1"], expect_lines(everything), other)
        yield case(f"{name} ignored=yes", ["-j1", "ignored=yes"],
                   expect_lines([e for e in everything if e == "x/y" and name in names]), other,
                   name in names)
        yield case(f"{name} ignore.path", ["-j1", "ignored=yes", "-o", "path,ignore.path"],
                   expect_lines([f"x/y {other}/x/{name}"] if name in names else []), other)
    # ignore files that are no text, or no files
    for num, content in enumerate((b"\xff\xfe\0\nz\n", b"\0\0\0\nz", b"z\n" * 5000,
                                   b"[" * 3000 + b"\nz", b"*" * 60 + b"q\nz", b"\\\nz",
                                   b"(\nz\n", b"(?P<x>a)\nz\n", b"{\n}\nz", b"+\nz", b"a|x\nz\n")):
        other = check.tree(f"binary{num}", [("f", ".gitignore", content), ("f", "x/y"), ("f", "z"),
                                            ("f", "x/z")])
        yield case(f"ignore file {content[:20]!r}", ["-j1", "-I"],
                   expect_lines([".gitignore", "x", "x/y"]), other)
    for num, item in enumerate((("d", ".gitignore"), ("l", ".gitignore", "nothing"),
                                ("l", ".gitignore", "x"), ("l", ".gitignore", ".gitignore"))):
        other = check.tree(f"nofile{num}", [item, ("f", "x/y"), ("f", "z")])
        yield case(f"ignore file {item}", ["-j1", "-I"], expect_lines(tree.walk(other)), other)


if __name__ == "__main__":
    main()
