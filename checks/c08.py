"""C08: values on the command line are parsed, and values are printed, as documented."""

import datetime
import itertools
import json
import re
import stat
import time

from .common import *

UNITS = "KMGTPEZY"
DURATION = {"s": 1, "m": 60, "h": 3600, "d": 86400, "w": 7 * 86400, "M": 30 * 86400,
            "y": 365 * 86400}
ZONES = ["UTC", "Europe/Berlin", "America/New_York", "Asia/Kolkata", "XYZ-5:30", "ABC8"]
TZ_PRELUDE = "import time; time.tzset()"


def variants(text):
    return sorted({text, text.lower(), text.upper()})


def size_cases():
    """(text, number of bytes)"""
    for num in ("0", "1", "9", "10", "999", "1000", "1023", "1024", "123456789"):
        yield num, int(num)
        yield num + "b", int(num)
        yield num + "B", int(num)
    for exp, unit in enumerate(UNITS, 1):
        for num in ("0", "1", "2", "10", "1.5", "0.5", "2.25", "1023"):
            for suffix, base in (("", 1024), ("B", 1000), ("iB", 1024)):
                for text in variants(unit + suffix):
                    yield num + text, int(float(num) * base ** exp)


BAD_SIZES = ["x", "K", "1KK", "1 K", "1,5K", "1.K", ".5K", "1.5", "1KBB", "1iB", "1X", "K1", "--1",
             "1e3", "0x10", "1K2", "1.5.5K", "½K"]


def duration_cases():
    for num in ("0", "1", "59", "90"):
        yield num, int(num) * 60
        for unit, factor in DURATION.items():
            yield num + unit, int(num) * factor
    for one, two in itertools.permutations(DURATION, 2):
        yield f"1{one}2{two}", DURATION[one] + 2 * DURATION[two]
    for one, two, three in itertools.combinations(DURATION, 3):
        yield f"3{one}20{two}1{three}", \
              3 * DURATION[one] + 20 * DURATION[two] + DURATION[three]
    yield "1h30m25s", 5425
    yield "1s1s", 2


BAD_DURATIONS = ["x", "s", "1x", "1h30", "1.5h", "1 h", "h1", "1hm", "1h-1m", "1H", "1S", "1D", "1W",
                 "1Y", "-1x", "1h30mx", "x1h", "1h,1m"]


def mode_reference(text):
    """The bits of a mode like find -perm understands it, starting from zero bits."""
    result = 0
    for part in text.split(","):
        match = re.fullmatch("([-+=]?)([0-7]+)", part)
        if match:
            who, op, bits = 0o7777, match.group(1) or "=", int(match.group(2), 8)
        else:
            classes, op, perms = re.fullmatch("([ugoa]*)([-+=])([rwxst]+)", part).groups()
            who = bits = 0
            for char in classes or "a":
                who |= {"u": 0o4700, "g": 0o2070, "o": 0o1007, "a": 0o7777}[char]
            for char in perms:
                bits |= {"r": 0o444, "w": 0o222, "x": 0o111, "s": 0o6000, "t": 0o1000}[char]
        bits &= who
        if op == "+":
            result |= bits
        elif op == "-":
            result &= ~bits
        else:
            result = result & ~who | bits
    return result


def mode_cases(thorough):
    classes = ["", "u", "g", "o", "a", "ug", "go", "uo", "ugo"]
    perms = ["r", "w", "x", "s", "t", "rw", "rx", "rwx", "xs", "xt"]
    parts = [f"{c}{op}{p}" for c in classes for op in "=+-" for p in perms]
    octal = ["0", "1", "22", "644", "0644", "755", "4755", "7777", "+111", "-022", "=700"]
    yield from parts + octal
    small = ["u=rwx", "g+r", "o-x", "a+x", "+w", "-w", "=r", "ug=rw", "go-w", "u+s", "g+s", "o+t",
             "644", "+011", "-111"]
    for pair in itertools.product(small, repeat=2):
        yield ",".join(pair)
    for triple in itertools.product(small[:8] if thorough else small[:5], repeat=3):
        yield ",".join(triple)
    yield from ["u=rwx,g=rx,o=rx", "u=rw,go=r", "a=rwx,o-w"]


BAD_MODES = ["8", "rwx", "u", "u+", "z+x", "u=rwz", "u=rwxz", "+", "u+x,", ",u+x", "u+x,,g+x", "9",
             "0o644", "0x1ff", "u+x g+x", "644x", "u+r,8"]


def time_points():
    yield datetime.datetime(1999, 12, 31, 23, 59, 59)
    yield datetime.datetime(2000, 1, 1, 0, 0, 0)
    yield datetime.datetime(2001, 2, 28, 1, 2, 3)
    yield datetime.datetime(2004, 2, 29, 12, 0, 0)
    yield datetime.datetime(2020, 7, 15, 6, 30, 0)
    yield datetime.datetime(2024, 11, 30, 21, 45, 59)


FORMATS = ["%Y-%m-%d %H:%M:%S", "%Y-%m-%d %H:%M", "%Y%m%d%H%M", "%Y-%m-%d", "%Y%m%d"]
# A plain number is a number of seconds, even if it looks like a date.
NUMERIC = {"%Y%m%d%H%M", "%Y%m%d"}
BAD_TIMES = ["x", "2020-13-01", "2020-02-30", "2020-1", "12:60", "24:00", "2020-01-01 25:00", "now",
             "1x", "1h30", "2020-01-01T10:00x", "10:00:61:00"]


class Zone:
    """Local time in another time zone."""

    def __init__(self, name):
        self.name = name

    def __enter__(self):
        self.old = os.environ.get("TZ")
        os.environ["TZ"] = self.name
        time.tzset()

    def __exit__(self, *exc):
        if self.old is None:
            del os.environ["TZ"]
        else:
            os.environ["TZ"] = self.old
        time.tzset()


NOW = 1600000000


def main():
    with Check("C08") as check:
        pool = {"extra_env": PLUGIN_ENV}

        def parsing(name, attr, cases, bad, prefix="", **kwargs):
            """For each (text, value) a test with = matches exactly the files with this value."""
            cases = list(cases)
            values = sorted({v + d for _, v in cases for d in (-1, 0, 1)
                             if 0 <= v + d < 1 << 63})
            if attr == "vm":
                values = sorted({v for _, v in cases} | {0, 0o644, 0o7777, 0o111})
            # Not all values in each tree: what could be mixed up are neighbours and magnitudes.
            names = {v: f"v{i}" for i, v in enumerate(values)}
            root = check.tree(name, [("f", n, json.dumps({attr: v})) for v, n in names.items()])
            trees = {}

            def nearby(value):
                if attr == "vm":
                    return root, set(values)
                chosen = {v for v in (value - 1, value, value + 1, value * 1000, value * 1024,
                                      value // 1000, value // 1024, value * 60, value // 60, 0)
                          if 0 <= v < 1 << 63}
                if value not in trees:
                    trees[value] = check.tree(f"{name}-{len(trees)}", [
                        ("f", f"v{v}", json.dumps({attr: v})) for v in chosen]), chosen
                return trees[value]

            def make():
                for text, value in cases:
                    where, stored = nearby(value)
                    expected = []
                    if value in stored:
                        expected = [names[value] if attr == "vm" else f"v{value}"]
                    yield case(f"{attr}={text}", ["-j1", f"vals.{attr}={text}"],
                               expect_lines(expected), where, bool(expected), **kwargs)
                for text in bad:
                    yield case(f"{attr}={text}", ["-j1", f"vals.{attr}={text}"],
                               expect_error((2, 12)), root, **kwargs)
            run_cases(check, f"parse {name}", make(), **pool)

        parsing("sizes", "vz", size_cases(), BAD_SIZES)
        parsing("durations", "vd", duration_cases(), BAD_DURATIONS)
        parsing("modes", "vm", ((t, mode_reference(t)) for t in mode_cases(check.thorough)),
                BAD_MODES)
        parse_times(check, parsing, pool)
        formats(check, pool)
        return check.report.finish(
            rule="parsing: a case is one text, tested on files with the value it stands for and "
                 "with near misses; printing: all values around the limits of the units")


def parse_times(check, parsing, pool):
    for zone in ZONES:
        cases = []
        with Zone(zone):
            for point in time_points():
                for fmt in FORMATS:
                    text = point.strftime(fmt)
                    if fmt in NUMERIC:
                        cases.append((text, int(text)))
                        continue
                    rounded = datetime.datetime.strptime(text, fmt)
                    cases.append((text, int(time.mktime(rounded.timetuple()))))
        cases += [("0", 0), ("1589234400", 1589234400), ("1589234400.9", 1589234400)]
        parsing(f"times {zone.replace('/', '_')}", "vt", cases,
                BAD_TIMES if zone == "UTC" else [], env={"TZ": zone}, prelude=TZ_PRELUDE)

    # durations are relative to the current time (1600000000 in the virtual world, within 2 s)
    items = []
    deltas = [60, 90, 3600, 86400, 5425, 7 * 86400, 400 * 86400]
    for delta in deltas:
        for offset in (-10, 10):
            items.append(("f", f"v{delta}_{offset}", json.dumps({"vt": NOW - delta + offset})))
    root = check.tree("relative", items)

    def relative():
        for text, delta in (("1m", 60), ("60s", 60), ("1m30s", 90), ("90s", 90), ("1h", 3600),
                            ("60m", 3600), ("1d", 86400), ("1h30m25s", 5425), ("1w", 7 * 86400),
                            ("400d", 400 * 86400)):
            for op, later in (("+=", True), ("-=", False), (">", True), ("<", False)):
                expected = [i[1] for i in items
                            if (json.loads(i[2])["vt"] > NOW - delta) == later]
                yield case(f"vt{op}{text}", ["-j1", f"vals.vt{op}{text}"], expect_lines(expected),
                           root)
    run_cases(check, "relative times", relative(), **pool)

    # times without a date mean the last time it was that late
    os.environ["TZ"] = "UTC"
    time.tzset()
    now = datetime.datetime.now()
    clock = []
    items = []
    for hours in (-9, -3, -1, 1, 3, 9):
        point = now + datetime.timedelta(hours=hours)
        for fmt in ("%H:%M:%S", "%H:%M"):
            text = point.strftime(fmt)
            back = datetime.datetime.strptime(text, fmt).replace(
                year=now.year, month=now.month, day=now.day)
            if back > now:
                back -= datetime.timedelta(days=1)
            clock.append((text, int(back.timestamp())))
    stamps = sorted({t + d for _, t in clock for d in (-86400, 0, 86400)})
    root = check.tree("clock", [("f", f"v{t}", json.dumps({"vt": t})) for t in stamps])

    # The virtual clock does not reach all functions of the datetime module.
    if datetime.datetime.now().date() == (now + datetime.timedelta(minutes=10)).date():
        real_runs(check, [case(f"vt={text}", ["-j1", f"vals.vt={text}"],
                               expect_lines([f"v{stamp}"]), root) for text, stamp in clock],
                  PLUGIN_ENV)


def formats(check, pool):
    report = check.report

    def table(name, attr, values, modifiers, **kwargs):
        """Let the program print all values: {modifier: {value: text}}"""
        values = sorted(set(values))
        result = {}
        root = os.path.join(check.scratch.path, "trees", f"print-{name}")
        if not os.path.exists(root):
            check.tree(f"print-{name}", [("f", f"v{v}", json.dumps({attr: v})) for v in values])
        for mod, argv in modifiers:
            found = {}

            def judge(res, found=found):
                found.clear()
                for line in lines(res):
                    key, _, text = line.partition("|")
                    found[int(key[1:])] = text
                if sorted(found) != values or res["code"]:
                    return f"{len(found)} lines instead of {len(values)}, {err(res)[-200:]!r}"
                return None
            key = f"{attr}{mod} {' '.join(argv)} {kwargs.get('env', '')}"
            run_cases(check, f"print {name} {key}", [case(
                key, ["-j1", "--sep", "|", "-o", f"name,vals.{attr}{mod}"] + argv, judge, root,
                **kwargs)], **pool)
            report.count("states", len(values))
            result[mod, tuple(argv)] = found
        return result

    def complain(message, **replay):
        report.violation(message, replay)

    # sizes
    numbers = set(range(0, 3000)) if check.thorough else set(range(0, 12)) | set(range(985, 1040))
    for base in (1000, 1024):
        for exp in range(1, 7):
            for factor in (1, 1.04, 1.05, 1.06, 1.95, 9.94, 9.95, 9.99, 10, 10.05, 99.9, 100, 512,
                           999, 999.4, 999.5, 1000, 1023, 1023.4, 1023.9, 1023.95):
                number = int(factor * base ** exp)
                numbers |= {number - 1, number, number + 1}
    numbers = {n for n in numbers if 0 <= n < 1 << 63}
    shown = table("sizes", "vz", numbers, [(":h", []), (":h", ["--si"]), ("", []), (":x", []),
                                           (":o", [])])
    for si, base in ((False, 1024), (True, 1000)):
        texts = shown[":h", ("--si",) if si else ()]
        last = -1
        for number, text in sorted(texts.items()):
            match = re.fullmatch(r"(\d+|\d\.\d)([KMGTPEZY]?)(B?)", text)
            if not match:
                complain(f"size {number} is printed as {text!r}")
                continue
            num, unit, suffix = match.groups()
            value = float(num) * base ** (UNITS.index(unit) + 1 if unit else 0)
            if (number < base and text != str(number)) or \
                    (number >= base and (not unit or suffix != ("B" if si else ""))):
                complain(f"size {number} is printed as {text!r}")
            elif abs(value - number) > 0.101 * number:
                complain(f"size {number} is printed as {text!r}, that is {value}")
            elif value < last:
                complain(f"size {number} is printed as {text!r}, which is less than for a smaller one")
            elif number >= base and not 0.95 <= float(num) < base:
                complain(f"size {number} is printed as {text!r}, not in the best unit")
            last = value
    for mod, fmt in (("", "{}"), (":x", "{:x}"), (":o", "{:o}")):
        for number, text in shown[mod, ()].items():
            if text != fmt.format(number):
                complain(f"size {number} is printed as {text!r} with {mod!r}")

    # numbers
    numbers = set(range(20)) | {63, 64, 255, 256, 4095, 65535, 10 ** 9, (1 << 40) + 1}
    shown = table("numbers", "vn", numbers, [("", []), (":x", []), (":o", []), (":h", [])])
    for (mod, _), texts in shown.items():
        fmt = {"": "{}", ":x": "{:x}", ":o": "{:o}", ":h": "{}"}[mod]
        for number, text in texts.items():
            if text != fmt.format(number):
                complain(f"number {number} is printed as {text!r} with {mod!r}")

    # durations
    numbers = set(range(0, 130)) | {n + d for n in (600, 3540, 3600, 5425, 35999, 36000, 86400,
                                                   360000, 31536000) for d in (-1, 0, 1, 59, 60, 61)}
    shown = table("durations", "vd", numbers, [("", []), (":h", [])])
    for number in numbers:
        text = shown["", ()].get(number)
        if text != str(number):
            complain(f"duration {number} is printed as {text!r}")
        text = shown[":h", ()].get(number, "")
        match = re.fullmatch(r"(?:(\d+)h)?(\d+)m(\d\d)s", text)
        if not match:
            complain(f"duration {number} is printed as {text!r}")
            continue
        hours, minutes, seconds = (int(g or 0) for g in match.groups())
        if hours * 3600 + minutes * 60 + seconds != number or minutes > 59 or seconds > 59 or \
                (match.group(1) is not None and (hours == 0 or len(match.group(2)) != 2)):
            complain(f"duration {number} is printed as {text!r}")

    # modes
    numbers = {t | p for t in (0, stat.S_IFREG, stat.S_IFDIR, stat.S_IFLNK, stat.S_IFIFO,
                               stat.S_IFSOCK, stat.S_IFCHR, stat.S_IFBLK)
               for p in (0, 0o644, 0o755, 0o7777, 0o4755, 0o2755, 0o1777, 0o4644, 0o2644, 0o1666)}
    numbers |= {1 << i for i in range(12)}
    shown = table("modes", "vm", numbers, [("", []), (":h", []), (":o", []), (":x", [])])
    for number in numbers:
        for mod, expected in (("", str(number)), (":h", stat.filemode(number)), (":o", f"{number:o}"),
                              (":x", f"{number:x}")):
            if shown[mod, ()].get(number) != expected:
                complain(f"mode {number:o} is printed as {shown[mod, ()].get(number)!r} with {mod!r}")

    # times
    numbers = {0, 1, 86399, 86400, 951782400, 951868799, 1582934400, 1583020800, 1600000000,
               1609459199, 1609459200, 1719792000, 4102444800}
    for zone in ZONES:
        shown = table("times", "vt", numbers, [("", []), (":h", [])], env={"TZ": zone},
                      prelude=TZ_PRELUDE)
        with Zone(zone):
            for number in numbers:
                text = datetime.datetime.fromtimestamp(number).strftime("%Y-%m-%d %H:%M:%S")
                if shown[":h", ()].get(number) != text:
                    complain(f"time {number} is printed as {shown[':h', ()].get(number)!r} in {zone}")
                if shown["", ()].get(number) != str(number):
                    complain(f"time {number} is printed as {shown['', ()].get(number)!r}")

    # booleans
    root = check.tree("print-booleans", [("f", "vyes", '{"vb": true}'), ("f", "vno", '{"vb": false}')])
    run_cases(check, "print booleans", [case("vb", ["-j1", "-o", "name,vals.vb"], expect_lines(
        ["vyes true", "vno false"]), root)], **pool)
    # --si
    root = check.tree("si", [("f", "v1000", '{"vz": 1000}'), ("f", "v1024", '{"vz": 1024}'),
                             ("f", "v1000000", '{"vz": 1000000}'),
                             ("f", "v1048576", '{"vz": 1048576}')])
    run_cases(check, "--si", [
        case("1K", ["-j1", "--si", "vals.vz=1K"], expect_lines(["v1000"]), root),
        case("1M", ["-j1", "--si", "vals.vz=1M"], expect_lines(["v1000000"]), root),
        case("1KB", ["-j1", "--si", "vals.vz=1KB"], expect_lines(["v1000"]), root),
        case("1KiB", ["-j1", "--si", "vals.vz=1KiB"], expect_lines(["v1024"]), root)],
        **pool)
