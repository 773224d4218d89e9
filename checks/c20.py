"""C20: a failing system call on an entry costs at most this entry and what is below it."""

import json

from .common import *

TREE = [("f", "a/f1", "one\n"), ("f", "a/sub/f2", "two\n"), ("f", "a/sub/deep/f3", "x"),
        ("f", "b/g1", "#!/bin/sh\n"), ("d", "c"), ("l", "l1", "a/f1"), ("l", "l2", "missing"),
        ("l", "ld", "b"), ("f", "top", "import os\n"), ("f", "z.py", "import sys\n")]
LINKS = {"l1": "a/f1", "l2": "missing", "ld": "b"}
IGNORES = [("f", ".gitignore", "g1\n"), ("f", "a/.gitignore", "f2\n"), ("f", "a/f1", ""),
           ("f", "a/f2", ""), ("f", "a/sub/f2", ""), ("f", "a/sub/f4", ""), ("f", "b/g1", ""),
           ("f", "b/h", "")]
IGNORED = {"b/g1", "a/f2", "a/sub/f2"}

SILENT = "NA"        # vanished and forbidden entries are left out without a warning


def below(path, parent):
    return path == parent or path.startswith(parent + "/")


def make_judge(expected, warn, extra=frozenset(), follow=False, parse=None, strict=()):
    """expected: {path: record}"""
    def judge(result):
        message = finished(result)
        if message:
            return f"{message}; faults {result['faults']}"
        faults = [f for f in result["faults"] if f[0] == "fs"]
        tail = f"; faults {[f[1:] for f in faults]}, status {result['code']}, {err(result)[-300:]!r}"
        if has_traceback(result):
            return "traceback" + tail
        if result["code"] != 0:
            return "search fails" + tail
        got = {}
        try:
            for path, record in parse(result) if parse else \
                    ((line.split(" ")[0], line) for line in olines(result)):
                if path in got:
                    return f"{path} reported twice" + tail
                got[path] = record
        except ValueError as exc:
            return f"{exc}{tail}"
        bad = [os.path.dirname(f[3]) if f[4] == "P" else f[3] for f in faults]
        missing = []
        for path, record in expected.items():
            hit = any(below(path, name) for name in bad)
            target = next((to + path[len(link):] for link, to in LINKS.items()
                           if below(path, link)), None)
            if path not in got:
                missing.append(path)
                # a link that is followed shares the fate of its target's system calls
                if not hit and not (follow and target and
                                    any(below(target, name) for name in bad)):
                    return f"{path} is missing" + tail
            elif got[path] != record:
                if not hit and not (target and any(below(target, name) for name in bad)):
                    return f"{path} is reported as {got[path]!r}, should be {record!r}" + tail
        for path in got:
            if path not in expected and not (path in extra and faults):
                return f"unexpected entry {path}" + tail
        if warn and missing and any(f[4] not in SILENT for f in faults):
            loud = [f for f in faults if f[4] not in SILENT]
            if any(below(path, f[3]) for path in missing for f in loud) and \
                    not all(below(path, f[3]) for path in missing for f in faults
                            if f[4] in SILENT) and "WARNING" not in err(result):
                return f"no warning about missing {missing}" + tail
            if len(faults) == len(loud) and "WARNING" not in err(result):
                return f"no warning about missing {missing}" + tail
        return None
    return judge


def jsonl_records(cwd):
    def parse(result):
        for line in olines(result):
            record = json.loads(line)
            yield os.path.relpath(record["path"], cwd), line
    return parse


def json_records(cwd):
    def parse(result):
        for record in json.loads(result["out"].decode()):
            yield os.path.relpath(record["path"], cwd), json.dumps(record, sort_keys=True)
    return parse


def clean_records(check, name, argv, cwd, pool, parse):
    """What the search reports if nothing fails; the paths are checked against the real tree."""
    scen = scenario(["--no-cache"] + argv, cwd=cwd, options={"alternatives": ""})
    result = need(check.pool(**pool).map([{"scenario": scen}]))[0]
    message = finished(result)
    if message or result["code"]:
        check.report.violation(f"{name}: {message or result['code']} without any fault "
                               f"{err(result)[-300:]!r}", {"argv": argv})
        return None
    return dict(parse(result) if parse else
                ((line.split(" ")[0], line) for line in olines(result)))


def all_paths(root):
    found = set()
    for path, dirs, files in os.walk(root):
        for name in dirs + files:
            found.add(os.path.relpath(os.path.join(path, name), root))
    return found


def scenarios(check):
    root = check.tree("tree", TREE)
    ign = check.tree("ignores", IGNORES)
    fs = {"install": {"fs": True}}
    plug = {"install": {"fs": True}, "extra_env": {"FF_PLUGIN_DIRS": os.path.join(REPO, "plugins")}}
    jobs = []
    paths = all_paths(root)

    def add(name, argv, cwd=root, bound=1, pool=fs, alts="NAIDLS", warn=True, parse=None,
            extra=frozenset(), faults=1, only=None, restrict=None):
        expected = clean_records(check, name, argv, cwd, pool, parse)
        if expected is None:
            return
        known = (paths if cwd == root else all_paths(cwd)) - extra if only is None else only
        if set(expected) != known:
            check.report.violation(f"{name}: {argv}: without faults {sorted(expected)} are reported",
                                   {"argv": argv})
            return
        jobs.append((f"{name}: {' '.join(argv)}",
                     scenario(["--no-cache"] + argv, cwd=cwd,
                              options={"alternatives": alts, "max_faults": faults}),
                     make_judge(expected, warn, extra, parse=parse), bound, pool,
                     {"restrict": restrict} if restrict else {}))

    values = ["--all", "-o", "path,type,size,link,broken,empty,perm", "--sep", " "]
    add("walk", ["-j1"])
    add("walk", ["-j2"])
    add("walk", ["-j1"] + values)
    # links to nothing are left out if links are followed
    add("walk", ["-j1", "-L"], only=paths - {"l2"} | {"ld/g1"})
    add("sorted", ["-j1", "-S"] + values)
    add("sorted", ["-j2", "-S", "empty"])
    add("json", ["-j1", "--json"], parse=json_records(root))
    add("jsonl", ["-j1", "--jsonl", "-o", "path,type,empty,broken"], parse=jsonl_records(root))
    add("test", ["-j1", "empty=yes", "or", "empty=no", "or", "broken=yes", "or", "target~b"],
        warn=False)
    add("exclude", ["-j1", "-e", "empty=yes"], only=paths - {"c"}, extra=frozenset(["c"]))
    add("two directories", ["-j1", "-D", "."])
    add("mount", ["-j1", "mount=no"])
    add("ignore", ["-j1", "--ignore"], cwd=ign, extra=frozenset(IGNORED), alts="NAIDLSR")
    add("ignore", ["-j2", "--ignore", "-S"], cwd=ign, extra=frozenset(IGNORED), alts="NAIR")
    add("ignored attribute", ["-j1", "ignore.ignored=no"], cwd=ign, extra=frozenset(IGNORED),
        alts="NAIR")
    # two failures in one search
    deep = "NAIDLS" if check.thorough else "AI"
    add("two faults", ["-j1"], bound=2, faults=2, alts=deep)
    add("two faults", ["-j1"] + values, bound=2, faults=2, alts=deep if check.thorough else "I")
    add("two faults", ["-j1", "--ignore"], cwd=ign, extra=frozenset(IGNORED), bound=2, faults=2,
        alts="IR")
    # a failure while the jobs run in another order
    add("fault and schedule", ["-j2"], bound=2, alts="Iys" if not check.thorough else "NAIys",
        restrict=one_fault)
    # plugins that read the files
    files = {p for p in paths if os.path.isfile(os.path.join(root, p))}
    regular = {p for p in files if not os.path.islink(os.path.join(root, p))}
    for attribute, pool in (("grep.linecount", fs), ("mime.mime", fs), ("md5", plug),
                            ("shake_128", plug), ("shebang", plug), ("py.imports", plug),
                            ("tar.members", plug), ("xattrs", plug), ("fs.type", plug),
                            ("medium.format", fs)):
        for argv in (["-j1", "--all", "-o", "path," + attribute, "--sep", " "],
                     ["-j2", "-S", attribute]):
            add("plugin " + attribute, argv, pool=pool, alts="NAIR", warn=False)
    explore_scenarios(check, jobs, outcome=lambda r: (r["verdict"][0], r["code"], hash(r["out"]),
                                                      tuple(r["faults"])))


PRIVATE = """
import os, shutil
work = os.path.join(scenario["options"]["work"], str(os.getpid()), "t")
shutil.copytree(scenario["cwd"], work, symlinks=True)
os.chdir(work)
"""


def vanishing(check):
    """Entries that are really removed while the search is running."""
    root = check.tree("vtree", TREE)
    ign = check.tree("vignores", IGNORES)
    paths = all_paths(root)
    work = os.path.join(check.scratch.path, "work")
    os.makedirs(work, exist_ok=True)
    jobs = []

    def add(name, argv, pool=None, bound=1, cwd=root, extra=frozenset(), only=None, alts="VWP"):
        pool = pool or {"install": {"fs": True}}
        options = {"alternatives": alts, "work": work, "no_snapshot": True,
                   "no_state": True}
        scen = scenario(["--no-cache"] + argv, cwd=cwd, options=options, prelude=PRIVATE)
        result = need(check.pool(**pool).map([{"scenario": scen}]))[0]
        expected = {line.split(" ")[0]: line for line in olines(result)}
        known = (paths if cwd == root else all_paths(cwd)) - extra if only is None else only
        if finished(result) or result["code"] or set(expected) != known:
            check.report.violation(f"{name}: {argv}: status {result['code']}, {sorted(expected)} "
                                   f"{err(result)[-300:]!r} without any fault", {"argv": argv})
            return
        jobs.append((f"{name}: {' '.join(argv)}", scen, make_judge(expected, False, extra, "-L" in argv),
                     bound,
                     pool))

    add("vanishing", ["-j1", "--all", "-o", "path,type,link,broken,empty", "--sep", " "])
    add("vanishing", ["-j2"])
    add("vanishing", ["-j2", "-S", "empty"])
    add("vanishing", ["-j1", "--ignore"], cwd=ign, extra=frozenset(IGNORED))
    add("vanishing", ["-j1", "-L", "-S"], only=paths - {"l2"} | {"ld/g1"})
    add("vanishing", ["-j1", "mount=no"])
    if check.thorough:
        add("vanishing", ["-j2"], bound=2, alts="VWPys")
    plug = {"install": {"fs": True}, "extra_env": {"FF_PLUGIN_DIRS": os.path.join(REPO, "plugins")}}
    for attribute in ("grep.linecount", "mime.mime", "md5", "shebang", "py.imports", "tar.members",
                      "xattrs", "fs.type", "medium.format", "ignored", "git.tracked"):
        add("vanishing, plugin " + attribute,
            ["-j1", "--all", "-o", "path," + attribute, "--sep", " "], plug)
        add("vanishing, plugin " + attribute, ["-j1", "-S", attribute], plug)
    explore_scenarios(check, jobs, outcome=lambda r: (r["verdict"][0], r["code"], hash(r["out"]),
                                                      tuple(r["faults"])))


def archives():
    """Small tar archives, all their truncations and changes of single bytes."""
    import io
    import tarfile
    for mode in ("", "gz", "bz2", "xz"):
        buf = io.BytesIO()
        with tarfile.open(fileobj=buf, mode="w:" + mode, format=tarfile.PAX_FORMAT) as tar:
            for name, content in (("a.txt", b"hello" * 20), ("d\u00e9" * 60, b"x")):
                info = tarfile.TarInfo(name)
                info.size = len(content)
                tar.addfile(info, io.BytesIO(content))
        data = buf.getvalue()
        size = len(data) if mode else 1700
        for i in range(0, size, 1 if mode else 7):
            yield data[:i]
        for i in range(size):
            for mask in (1, 0x80, 0xff) if mode or i % 4 == 0 else (0x11,):
                yield data[:i] + bytes([data[i] ^ mask]) + data[i + 1:]


def sources():
    """Python files that are no Python, or hard to parse."""
    tokens = ("import", " os", "from", " .", "\n", "(", "\0", "\\", "'", "\xff", "\ufeff", "1+", "-",
              "#!python", "# coding: x")
    for i in tokens:
        yield i
        for k in tokens:
            yield i + k
            for m in tokens:
                yield i + k + m
    for part in ("(", "-", "1+", "not ", "lambda:", "f'{'", "if 1:\n ", "a.", "9", "[", "{"):
        for num in (10, 300, 5000, 100000):
            yield part * num + "1"


def pictures():
    import struct
    import zlib

    def chunk(name, data):
        return struct.pack(">I", len(data)) + name + data + struct.pack(">I", zlib.crc32(name + data))
    png = b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", 3, 5, 8, 0, 0, 0, 0)) + \
        chunk(b"IDAT", zlib.compress(b"\0" * 20)) + chunk(b"IEND", b"")
    for i in range(len(png)):
        yield png[:i]
        yield png[:i] + bytes([png[i] ^ 0xff]) + png[i + 1:]


def contents(check):
    """Files whose contents cannot be parsed, in the same directory as one that can."""
    kinds = []
    import io
    import tarfile
    buf = io.BytesIO()
    with tarfile.open(fileobj=buf, mode="w") as tar:
        tar.addfile(tarfile.TarInfo("member"))
    kinds.append(("tar archive", list(archives()), ".tar", "tar.members", buf.getvalue(), "member"))
    kinds.append(("Python file", [s.encode("utf-8", "surrogateescape") for s in sources()] +
                  [s.encode("latin-1", "replace") for s in sources() if not s.isascii()], ".py",
                  "py.imports", b"import sys\n", "sys"))
    kinds.append(("script", [s.encode("latin-1", "replace") for s in sources()], "", "shebang",
                  b"#!/bin/good\n", "/bin/good"))
    kinds.append(("picture", list(pictures()), ".png", "medium.format", None, None))
    kinds.append(("file", [s.encode("latin-1", "replace") for s in sources()] + list(pictures()), "",
                  "mime.mime", b"text\n", "text/plain"))
    kinds.append(("text", [s.encode("latin-1", "replace") for s in sources()], "", "grep.linecount",
                  b"a\nb\n", "2"))
    size = 200

    def generate():
        for label, datas, ext, attribute, good, value in kinds:
            for first in range(0, len(datas), size):
                items = [("f", f"b{i:04d}{ext}", data)
                         for i, data in enumerate(datas[first:first + size])]
                items.append(("f", f"good{ext}", good or b""))
                items.append(("p", f"pipe{ext}"))
                cwd = check.tree(f"contents-{label}-{first}".replace(" ", "-"), items)
                names = {item[1] for item in items}
                for jobs in ("-j1", "-j2") if first == 0 else ("-j1",):
                    yield case(f"{label} {first} {jobs}",
                               [jobs, "--all", "-o", "path," + attribute, "--sep", " "],
                               judge_contents(names, f"good{ext}", value), cwd,
                               options={"real_timeout": 15})
    run_cases(check, "damaged contents", generate(),
              extra_env={"FF_PLUGIN_DIRS": os.path.join(REPO, "plugins")})


def judge_contents(names, good, value):
    def judge(result):
        if result["code"] != 0 or has_traceback(result):
            return f"search fails with status {result['code']}: {err(result)[-400:]!r}"
        got = {}
        for line in olines(result):
            name, _, rest = line.partition(" ")
            if name in names:
                if name in got:
                    return f"{name} reported twice"
                got[name] = rest
        if set(got) != names:
            return f"missing {sorted(names - set(got))[:5]}"
        if value is not None and got[good] != value:
            return f"{good}: {got[good]!r} instead of {value!r}"
        return None
    return judge


def one_fault(dev, choice, alt):
    """Exactly one fault, the other deviation is one of the schedule."""
    if alt not in "NAI" and choice[4] not in ("q_get", "q_put", "b_wait", "b_enter"):
        return False
    return not dev or (alt in "NAI") != (dev[-1][1] in "NAI")


def main():
    with Check("C20") as check:
        scenarios(check)
        vanishing(check)
        contents(check)
        return check.report.finish(
            rule="every execution in which one system call on an entry below the start directory "
                 "(stat, readlink, opendir, readdir, open, read) fails with one of six errors, and "
                 "every one with two failing calls for the basic searches")
