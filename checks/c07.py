"""C07: each operator means what its type documents, in each case mode."""

import fnmatch
import json
import re
import stat

from .common import *

STRINGS = ["", "a", "A", "ab", "aB", "AB", "b", "cab", "ä", "Ä", "a.b", "1", "a1", "x/y", "X/a", "*",
           "a b", "straße", "\nab"]
STRING_VALUES = ["a", "A", "ab", "aB", "AB", "b", "B", "ä", "Ä", ".", "1", "x/y", "X/", "*", "a b",
                 "ß", "nothing", "a+", "(", "=a", ":a"]
PATTERNS = ["a", "A", "^a", "^A", "b$", "B$", "a|B", "[A-Z]", "[a-z]", r"\d", r"\D", r"\S\s", r"^\W",
            "^.$", "^$", "(?i)ab", "a.b", "(a)(b)", "^.{2,3}$", "ÄB|ä", "[^a]", "x/"]
GLOBS = ["a", "A", "a*", "*b", "?", "??", "[ab]", "[!a]", "*", "a?b", "AB*", "[A-Z]*", "!a", "!A", "!a*", "!*", "!?b", "![ab]", "!x*"]
LISTS = [[], ["a"], ["A", "b"], ["ab", "cd"], [""], ["x/y"], ["a1", "B2", "ä"]]
NUMBERS = [0, 1, 2, 3, 9, 10, 59, 60, 61, 100, 1023, 1024, 1025, 2048, 10 ** 12]
MODES = [0, 0o1, 0o7, 0o20, 0o222, 0o600, 0o640, 0o644, 0o700, 0o755, 0o777, 0o1777, 0o2755, 0o4755,
         0o7777, 0o100644, 0o40755]
MODE_VALUES = ["0", "1", "20", "222", "600", "644", "0644", "755", "1777", "2755", "4755", "7777",
               "7000"]
TYPES = ["directory", "file", "symlink", "socket", "fifo", "char", "block", "door", "port",
         "whiteout", "other"]
ALIASES = {"d": "directory", "f": "file", "l": "symlink", "s": "socket", "p": "fifo",
           "pipe": "fifo"}
ALIASES.update({t: t for t in TYPES})
TRUE = ("true", "t", "1", "yes", "y", "on")
FALSE = ("false", "f", "0", "no", "n", "off")

NUMBER_OPS = {
    "=": lambda v, t: v == t, "+=": lambda v, t: v >= t, ">=": lambda v, t: v >= t,
    "-=": lambda v, t: v <= t, "<=": lambda v, t: v <= t, "+": lambda v, t: v > t,
    ">": lambda v, t: v > t, "-": lambda v, t: v < t, "<": lambda v, t: v < t,
}
ALL_OPS = list(NUMBER_OPS) + [":", "~", "%"]


def ignores_case(mode, value):
    if mode == "smart":
        return value == value.lower()
    return mode == "ignore"


def string_test(op, mode, wanted, value):
    ignore = ignores_case(mode, wanted)
    if op == "~":
        return re.search(wanted, value, re.IGNORECASE if ignore else 0) is not None
    if ignore:
        wanted, value = wanted.lower(), value.lower()
    if op == "=":
        return value == wanted
    if op == ":":
        return wanted in value
    if wanted.startswith("!"):
        return not string_test("%", "ignore" if ignore else "sensitive", wanted[1:], value)
    return fnmatch.fnmatchcase(value, wanted) and ("/" not in value or wanted == value)


def mode_test(op, wanted, value):
    wanted, value = wanted & 0o7777, value & 0o7777
    if op == "=":
        return wanted == value
    if op == ":":
        return all(value & bit for bit in (1 << i for i in range(12)) if wanted & bit)
    return any(value & bit for bit in (1 << i for i in range(12)) if wanted & bit)


def main():
    with Check("C07") as check:
        stored = {"vs": STRINGS, "vp": [s for s in STRINGS], "vl": LISTS,
                  "vu": [l for l in LISTS], "vn": NUMBERS, "vz": NUMBERS, "vt": NUMBERS,
                  "vd": NUMBERS, "vb": [True, False], "vm": MODES, "vf": TYPES}
        items = []
        names = {}
        for attr, values in stored.items():
            for i, value in enumerate(values):
                name = f"v_{attr}_{i:02d}"
                items.append(("f", name, json.dumps({attr: value})))
                names[attr, i] = name
        items.append(("f", "v_empty", "{}"))
        items.append(("f", "other", "{}"))
        root = check.tree("values", items)

        def make(attr, op, text, judge_value, mode="smart"):
            """judge_value(value) tells whether a stored value matches."""
            args = ["-j1"] + (["-c", mode] if mode != "smart" else []) + [f"vals.{attr}{op}{text}"]
            expected = [names[attr, i] for i, v in enumerate(stored[attr]) if judge_value(v)]
            return case(f"{mode} {attr}{op}{text}", args, expect_lines(expected), root,
                        bool(expected))

        def cases():
            for mode in ("smart", "ignore", "sensitive"):
                for op, values in (("=", STRING_VALUES), (":", STRING_VALUES), ("~", PATTERNS),
                                   ("%", GLOBS)):
                    for text in values:
                        def judge_string(value):
                            return string_test(op, mode, text, value)
                        yield make("vs", op, text, judge_string, mode)
                        if op != "%":
                            yield make("vp", op, text, judge_string, mode)
                        else:
                            # these patterns have no slash and are for the last component
                            yield make("vp", op, text, lambda value: judge_string(value.rpartition("/")[2]), mode)
                        for attr in ("vl", "vu"):
                            yield make(attr, op, text, lambda value: any(map(judge_string, value)),
                                       mode)
            for attr in ("vn", "vz", "vt"):
                for op, func in NUMBER_OPS.items():
                    for num in NUMBERS:
                        yield make(attr, op, str(num), lambda value: func(value, num))
            for op, func in NUMBER_OPS.items():
                for num in NUMBERS:
                    yield make("vd", op, f"{num}s", lambda value: func(value, num))
            for op in ("=", ":", "~"):
                for text in MODE_VALUES:
                    yield make("vm", op, text, lambda value: mode_test(op, int(text, 8), value))
            for text, truth in [(t, True) for t in TRUE] + [(f, False) for f in FALSE]:
                for variant in {text, text.upper(), text.title()}:
                    yield make("vb", "=", variant, lambda value: value is truth)
            for alias, full in ALIASES.items():
                yield make("vf", "=", alias, lambda value: value == full)

        def refused():
            supported = {"vs": "=:~%", "vp": "=:~%", "vl": "=:~%", "vu": "=:~%", "vb": "=",
                         "vm": "=:~", "vf": "="}
            values = {"vs": "a", "vp": "a", "vl": "a", "vu": "a", "vn": "1", "vz": "1", "vt": "1",
                      "vd": "1", "vb": "yes", "vm": "644", "vf": "f"}
            for attr, value in values.items():
                ops = supported.get(attr, list(NUMBER_OPS))
                for op in ALL_OPS:
                    if op not in ops:
                        text = f"vals.{attr}{op}{value}"
                        yield case(text, ["-j1", text], expect_error((2, 12)), root)
            for text in ("vals.vn=x", "vals.vn=1.5", "vals.vn=-1", "vals.vb=maybe", "vals.vf=x",
                         "vals.vf=dir", "vals.vm=8", "vals.vm=rwx", "vals.vs~(", "vals.vs~[",
                         "vals.vp~*", "vals.vl~a{2,1}", "vals.vs=", "vals.vs", "=a", "vals.=a",
                         "vals.xx=1", "xx.vs=1", "vals.vz=x", "vals.vd=x", "vals.vt=x"):
                for mode in ("smart", "ignore", "sensitive"):
                    yield case(f"{mode} {text}", ["-j1", "-c", mode, text],
                               expect_error((2, 10, 11, 12)), root)

        pool = {"extra_env": PLUGIN_ENV}
        run_cases(check, "operators", cases(), **pool)
        run_cases(check, "refused", refused(), **pool)
        sample = list(cases())
        real_runs(check, sample[::len(sample) // (200 if check.thorough else 12)], PLUGIN_ENV)
        return check.report.finish(
            rule="a case is one operator with one value in one case mode, tested on files with all "
                 "stored values of the type; nontrivial: it matches at least one of them")
