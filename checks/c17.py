"""C17: attributes tell the truth about each entry."""

import concurrent.futures
import itertools
import json
import subprocess
import stat

from .common import *
from . import reference

PLAIN = ["path", "root", "relpath", "dir", "name", "ext", "pathx", "namex", "mode", "type", "device", "inode", "samedev",
         "depth", "exec", "size", "mtime", "ctime", "atime", "time", "perm", "links", "uid", "gid", "user", "group",
         "hide", "hidden", "empty", "broken", "link", "target"]
MOUNTS = ["mpath", "devname", "fstype", "pseudofs", "mount"]
RAW = {"PYTHONIOENCODING": "utf-8:surrogateescape"}
SEP = "\x1f"

PSEUDO = {"binfmt_misc", "bpf", "cgroup2", "configfs", "debugfs", "devpts", "devtmpfs", "efivarfs", "hugetlbfs", "mqueue",
          "proc", "pstore", "securityfs", "sysfs", "tmpfs", "tracefs"}


def records(result, fields):
    out = result["out"].decode("utf-8", "surrogateescape")
    if out and not out.endswith("\0"):
        return None
    return [dict(zip(fields, record.split(SEP))) for record in out.split("\0")[:-1]]


def judge(expected, fields):
    """Compare each attribute of each entry; a missing one is printed as nothing."""
    wanted = {tuple(reference.text(k, e[k]) for k in ("path", "root")):
              {f: e[f] if e.get(f, "") is None else reference.text(f, e[f]) if f in e else "" for f in fields} for e in expected}

    def judgement(result):
        if result["code"]:
            return f"status {result['code']} {err(result)[-300:]!r}"
        got = records(result, fields)
        if got is None or any(len(r) != len(fields) for r in got):
            return f"malformed output {result['out'][:300]!r}"
        left = dict(wanted)
        for record in got:
            known = left.pop((record["path"], record["root"]), None)
            if known is None:
                return f"unexpected entry {record['path']!r} in {record['root']!r}"
            wrong = [f for f in fields if f not in MOUNTS and known[f] is not None and record[f] != known[f] or
                     f in MOUNTS and f in known and known[f] and
                     (record[f].rstrip("/") or "/") != (known[f].rstrip("/") or "/")]
            if wrong:
                return f"entry {record['path']!r}: " + ", ".join(
                    f"{f} is {record[f]!r} instead of {known[f]!r}" for f in wrong)
        if left:
            return f"missing entries {list(left)[:3]!r}"
        return None
    return judgement


def listing(cwd, start, follow=False, below=True):
    """All entries below the start directory (without the names of dangling links with -L)."""
    result = []

    def walk(rel):
        for name in sorted(os.listdir(os.path.join(cwd, start, rel))):
            path = os.path.join(rel, name)
            full = os.path.join(cwd, start, path)
            try:
                status = os.stat(full) if follow else os.lstat(full)
            except OSError:
                continue
            result.append(path)
            if stat.S_ISDIR(status.st_mode):
                walk(path)
    walk("")
    return result


def spelled(start):
    """The start directory as it appears in paths."""
    while start != "/" and start.endswith("/"):
        start = start[:-1]
    return start


def search(key, cwd, starts=(".",), follow=False, absolute=False, fields=PLAIN, jobs=1, positional=False, **kwargs):
    argv = [f"-j{jobs}", "-0", f"--sep={SEP}", "-o", ",".join(f + ":n" for f in fields)]
    argv += ["-L"] if follow else []
    argv += ["-a"] if absolute else []
    if positional:
        argv += list(starts)
    elif tuple(starts) != (".",):
        argv += [a for s in starts for a in ("-D", s)]
    expected = [reference.attributes(cwd, os.path.normpath(s) if positional else spelled(s), e, follow, absolute)
                for s in starts for e in listing(cwd, s, follow)]
    name = " ".join([key, "-D " + ",".join(starts)] + ["-L"] * follow + ["-a"] * absolute + ["args"] * positional)
    return case(name, argv, judge(expected, fields), cwd, bool(expected),
                options={"max_steps": 4 * 10 ** 6}, **kwargs), len(expected)


def names(alphabet, length):
    for num in range(1, length + 1):
        for parts in itertools.product(alphabet, repeat=num):
            name = "".join(parts)
            if name not in (".", ".."):
                yield name


def name_tree(check, thorough):
    alphabet = [".", "a", "B", "\udcff", " ", "é", "\n"]
    items = []
    for name in names(alphabet, 4 if thorough else 3):
        items += [("f", f"files/{name}", "x" * (len(items) % 3)), ("d", f"dirs/{name}"), ("l", f"links/{name}", f"{name}"),
                  ("f", f"below/{name}/{name}")]
    for name in names([".", "a", "b"], 5 if thorough else 4):
        items += [("f", f"short/{name}"), ("p", f"pipes/{name}")]
    for first, second, third in itertools.product([".a", "a.b", "...", "a.", "..a", "a", "a..b"], repeat=3):
        items.append(("f", f"deep/{first}/{second}/{third}"))
    return check.tree("names", items)


def mode_tree(check):
    items = []
    for mode in range(0o10000):
        items.append(("f", f"files/{mode:04o}", "x", {"mode": mode}))
        items.append(("d", f"dirs/{mode:04o}", {"mode": mode}))
    for mode in (0, 0o111, 0o644, 0o755, 0o4755, 0o7777):
        items.append(("p", f"p{mode:o}", {"mode": mode}))
        items.append(("s", f"s{mode:o}", {"mode": mode}))
    return check.tree("modes", items)


SIZES = [0, 1, 2, 511, 512, 1023, 1024, 1025, 4095, 4096, 10 ** 6, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 40]
SECONDS = [0, 1, -1, -2, 59, 10 ** 9, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 1600000000, 1635642000]
FRACTIONS = [0, 1, 499999999, 500000000, 999999000, 999999999]


def inode_tree(check):
    """Sizes, times, owners and hard links."""
    root = check.tree("inodes", [])
    for size in SIZES:
        path = os.path.join(root, f"size{size}")
        with open(path, "wb") as fobj:
            fobj.truncate(size)
    for second, fraction in itertools.product(SECONDS, FRACTIONS):
        for kind in ("file", "dir", "link"):
            path = os.path.join(root, f"time{second}.{fraction}{kind}")
            if kind == "file":
                open(path, "w").close()
            elif kind == "dir":
                os.mkdir(path)
            else:
                os.symlink("size1", path)
            stamp = second * 10 ** 9 + fraction
            os.utime(path, ns=(tree.unread(stamp) // 10 ** 9 * 10 ** 9 + fraction, stamp), follow_symlinks=False)
    for uid, gid in itertools.product((0, 1, 1000, 65534, 4242, 2 ** 31, 2 ** 32 - 2), repeat=2):
        for kind in ("file", "dir", "link"):
            path = os.path.join(root, f"own{uid}.{gid}{kind}")
            if kind == "file":
                open(path, "w").close()
            elif kind == "dir":
                os.mkdir(path)
            else:
                os.symlink("nothing", path)
            try:
                os.chown(path, uid, gid, follow_symlinks=False)
            except OSError:
                pass
    for num in range(1, 6):
        os.makedirs(os.path.join(root, f"hard{num}"))
        open(os.path.join(root, f"hard{num}/x0"), "w").close()
        for other in range(1, num):
            os.link(os.path.join(root, f"hard{num}/x0"), os.path.join(root, f"hard{num}/x{other}"))
        for other in range(num):
            os.makedirs(os.path.join(root, f"hard{num}/sub{other}/below"))
    for number, content in enumerate(("f", "d", "l", "p", ".hidden")):
        path = os.path.join(root, f"full{number}")
        tree.build(path, [(content, "x")] if content in "fdp" else [("l", "x", "no")] if content == "l" else [("f", content)])
    for dirpath, _, _ in os.walk(root):
        status = os.lstat(dirpath)
        os.utime(dirpath, ns=(tree.unread(status.st_mtime_ns), status.st_mtime_ns))
    return root


def link_tree(check):
    """All links from two places to all kinds of targets, relative, absolute, through links and broken."""
    root = os.path.join(check.scratch.path, "trees", "links")
    targets = ["f", "./f", "d", "d/", "d/f", "../links/f", "d/../f", "nothing", "d/nothing", "f/x", "self", "one", "todir/f",
               "todir", "todir/../f", "todead", "p", "s", "../links", ".", "..", "/", root + "/f", root + "/d/f", root + "/nothing",
               "//" + root[1:] + "/f", "/nothing", "f\udcff", " ", "d/x.y/z", "....", ".h", "a" * 255, "b/" * 30 + "x"]
    items = [("f", "f", "123", {"mode": 0o755}), ("f", "d/f", "1"), ("d", "d/x.y"), ("f", "d/x.y/z", "12"), ("p", "p"), ("s", "s"),
             ("f", "f\udcff"), ("l", "self", "self"), ("l", "one", "two"), ("l", "two", "one"), ("l", "todir", "d"),
             ("l", "todead", "nothing"), ("f", " "), ("f", "....", "1234"), ("f", ".h", "x")]
    for number, target in enumerate(targets):
        loops = target in (".", "..", "/", "../links", "todir/..")
        items += [("l", f"from{'loop' if loops else ''}/l{number:02d}", target), ("l", f"from/e/l{number:02d}.x.y", target)
                  if not loops else ("f", f"from/e/f{number}")]
        if not loops:
            items += [("l", f"l{number:02d}", target), ("l", f"from/up{number:02d}", "../" + target)]
    return check.tree("links", items)


def mount_truth(path):
    """The mount a path is on, told by the kernel; None if it is not known for certain."""
    rows, order = {}, []
    with open("/proc/self/mountinfo", encoding="utf-8", errors="surrogateescape") as fobj:
        for line in fobj:
            parts = line.rstrip("\n").split(" ")
            rest = parts[parts.index("-") + 1:]

            def plain(text):
                return text.encode("utf-8", "surrogateescape").decode("unicode_escape") if "\\" in text else text
            rows[parts[0]] = (plain(parts[4]), plain(rest[1]), rest[0])
            order.append(parts[0])
    fd = os.open(path, os.O_PATH | os.O_NOFOLLOW)
    try:
        with open(f"/proc/self/fdinfo/{fd}") as fobj:
            ident = next(line.split()[1] for line in fobj if line.startswith("mnt_id:"))
    finally:
        os.close(fd)
    best = None
    for number in order:
        where = rows[number][0]
        if (path + "/").startswith(where.rstrip("/") + "/") and (best is None or len(where) >= len(rows[best][0])):
            best = number
    if best != ident or ident not in rows:
        return None
    where, source, kind = rows[ident]
    return {"mpath": where, "devname": source, "fstype": kind, "pseudofs": kind in PSEUDO}


def mounts(check):
    """The entries of the directories that have mountpoints in them, and those below these."""
    for start in ("/", "/proc", "/sys", "/dev"):
        for options in ([], ["-L"]) if start in ("/", "/dev") else ([],):
            follow = bool(options)
            fields = ["path", "root"] + MOUNTS + ["type", "device", "samedev", "depth"]
            expected = {}
            for name in os.listdir(start):
                path = os.path.join(start, name)
                if start == "/proc" and name.isdecimal() or start == "/proc" and os.path.islink(path):
                    continue
                if name in ("fd", "stdin", "stdout", "stderr"):
                    continue
                try:
                    status = os.stat(path) if follow else os.lstat(path)
                except OSError:
                    continue
                truth = None if follow and os.path.islink(path) else mount_truth(path)
                kind = reference.KINDS[stat.S_IFMT(status.st_mode)]
                values = {"type": kind, "device": status.st_dev, "samedev": status.st_dev == os.stat(start).st_dev, "depth": 0}
                values.update(truth or {})
                if not (follow and os.path.islink(path)):
                    values["mount"] = kind == "directory" and os.path.ismount(path)
                expected[path] = {k: reference.text(k, v) for k, v in values.items()}

            def judgement(result, expected=expected, fields=fields):
                if result["code"]:
                    return f"status {result['code']} {err(result)[-300:]!r}"
                seen = set()
                for record in records(result, fields):
                    seen.add(record["path"])
                    for name, value in expected.get(record["path"], {}).items():
                        if (record[name].rstrip("/") or "/") != (value.rstrip("/") or "/"):
                            return f"entry {record['path']!r}: {name} is {record[name]!r} instead of {value!r}"
                missing = [p for p in expected if p not in seen and os.path.exists(p)]
                return f"missing entries {missing[:3]!r}" if missing else None
            yield case(f"mounts in {start} {options}", ["-j1", "-0", f"--sep={SEP}", "-d0", "-o",
                       ",".join(f + ":n" for f in fields), "-D", start] + options, judgement, "/")


def own_mounts(check):
    """All sequences of mounts of up to two (thorough three) of these places, in a mount namespace of its own."""
    report = check.report
    probe = subprocess.run(["unshare", "-Urm", "mount", "-t", "tmpfs", "none", check.scratch.home], capture_output=True, stdin=subprocess.DEVNULL)
    if probe.returncode:
        report.part("own mounts", {"skipped": "no mount namespaces here: " + probe.stderr.decode("utf-8", "replace").strip()})
        return
    targets = ["a", "a/b", "ab", "a b", "a\nb", "a\\b", "a\\040b", "a\tb", "ä", "a#", "ab/d"]
    sources = ["none", "dev x", "dev\\y", "d\tz"]
    configs = []
    sequences_ = [s for n in (1, 2) for s in itertools.product(targets, repeat=n)]
    sequences_ += list(itertools.product(targets if check.thorough else targets[:3], repeat=3))
    for sequence in sequences_:
        # a mount above another one hides it, what is said about what is below is not compared then
        mounts_ = [(sources[(n + len(configs)) % len(sources)], target) for n, target in enumerate(sequence)]
        for options in ([], ["-L"]) if check.thorough or len(configs) % 3 == 0 or len(sequence) == 1 else ([],):
            configs.append({"mounts": mounts_, "options": options})
    lanes = 8
    driver = os.path.join(os.path.dirname(os.path.abspath(__file__)), "mountdriver.py")

    def run(lane):
        mine = configs[lane::lanes]
        scratch = os.path.join(check.scratch.path, f"mounts{lane}")
        os.makedirs(scratch)
        proc = subprocess.run(["unshare", "-Urm", PYTHON, driver, REPO, scratch, PYTHON], input=json.dumps(mine).encode(), capture_output=True,
                              env=clean_env(check.scratch.home, RAW), timeout=3600)
        rows = [json.loads(line) for line in proc.stdout.decode().splitlines()]
        if proc.returncode or len(rows) != len(mine):
            raise HarnessError(f"mounts: {proc.stderr.decode('utf-8', 'replace')[-1000:]}")
        return list(zip(mine, rows))

    with concurrent.futures.ThreadPoolExecutor(lanes) as executor:
        rows = [row for part in executor.map(run, range(lanes)) for row in part]
    for config, row in rows:
        report.case(("own mounts", repr(config)), bool(row["compared"]))
        report.count("traces_validated_against_impl")
        report.count("real_runs")
        if row["message"]:
            report.violation(f"own mounts {config['mounts']} {config['options']}: {row['message']}", config)
    report.part("own mounts", {"sequences of mounts": len(sequences_), "runs": len(rows), "values compared": sum(r["compared"] for _, r in rows)})


STARTS = [("deep",), ("deep/",), ("./deep",), ("deep//.a",), ("deep/a", "deep/.a"), ("deep/a.b/a", "short"), ("../names/deep",),
          ("./.",), ("deep/../deep/a",), ("deep//",), ("./deep//a/.a/",)]


def main():
    with Check("C17") as check:
        thorough = check.thorough
        sizes = []

        def add(item):
            sizes.append(item[1])
            return item[0]

        where = name_tree(check, thorough)

        def name_cases():
            for follow, absolute in itertools.product((False, True), repeat=2):
                yield add(search("names", where, follow=follow, absolute=absolute))
                for starts in STARTS:
                    yield add(search("start", where, starts, follow, absolute))
                    if not absolute and all("/" in s for s in starts):
                        yield add(search("start", where, starts, follow, absolute, positional=True))
                yield add(search("absolute", where, (where + "/deep",), follow, absolute))
                yield add(search("through link", where, (os.path.join(links, "todir"),), follow, absolute))
            yield add(search("names", where, jobs=3))

        def mode_cases():
            root = mode_tree(check)
            for follow in (False, True):
                yield add(search("modes", root, follow=follow))
            yield add(search("modes", root, ("files",), jobs=2))

        def inode_cases():
            root = inode_tree(check)
            for follow, absolute in itertools.product((False, True), repeat=2):
                yield add(search("inodes", root, follow=follow, absolute=absolute))

        def link_cases():
            for absolute in (False, True):
                yield add(search("links", links, absolute=absolute))
                for start in ("from", "./from/e", "../links/from", "fromloop", "todir", "todir/x.y"):
                    yield add(search("links", links, (start,), absolute=absolute))
                    if start not in ("fromloop",):
                        yield add(search("links", links, (start,), follow=True, absolute=absolute))
            # in another current directory
            for cwd in ("from", "from/e", "d", "todir"):
                yield add(search(f"links in {cwd}", os.path.join(links, cwd)))
                yield add(search(f"links in {cwd}", os.path.join(links, cwd), ("..",)))

        links = link_tree(check)
        pool = {"extra_env": RAW}
        run_cases(check, "names and start directories", name_cases(), **pool)
        run_cases(check, "modes", mode_cases(), **pool)
        run_cases(check, "sizes, times, owners, hard links", inode_cases(), **pool)
        run_cases(check, "links", link_cases(), **pool)
        run_cases(check, "mounts", mounts(check), **pool)
        own_mounts(check)
        check.report.count("states", sum(sizes) * len(PLAIN))
        check.report.part("entries compared", {"entries": sum(sizes), "attributes": len(PLAIN)})

        small = check.tree("real", [("f", "a.b", "1"), ("l", "l", "a.b"), ("l", "x/dead", "no"), ("p", "p"), ("f", ".h/\udcff")])
        real_runs(check, [search("real", small, follow=f, absolute=a, jobs=j)[0]
                          for f in (False, True) for a in (False, True) for j in (1, 4)], env=RAW)
        return check.report.finish(
            rule="every name up to the length bound, every permission, every table value of size, time and owner and "
                 "every link in the table, in every notation of the start directory; all attributes compared with the "
                 "operating system")


if __name__ == "__main__":
    main()
