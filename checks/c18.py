"""C18: the glob operator accepts exactly what the pattern means."""

import json

from .common import *
from .c10 import wild, valid, sequences, CLASSES

VALUES = ["", "a", "b", "ab", "aa", "ba", "a/b", "a/a/b", "/a", "/a/b", "a/", "/", "A", "aB/b", "*", "[",
          "]", "\\", "a\n", "!a", "#a", " a", "-", "ä", ".a", "a.b", "a/.b", "x/y/z", "?", "a b", "^",
          "\na", "a\nb", "a\nb/a", "b/\n/a", "\n/b", "b/a", "//a", "a//b", "1", "d/a", "a-", "\\*", "a*"]


def name_match(pattern, text):
    """No slash has a special meaning in the pattern, but * and ? do not match one."""
    return wild(pattern, 0, text, 0, False) if "**" not in pattern else \
        wild(squeeze(pattern), 0, text, 0, False)


def squeeze(pattern):
    """Several stars are the same as one, outside of brackets."""
    out, pos = "", 0
    star = False
    while pos < len(pattern):
        if pattern[pos] == "\\":
            out += pattern[pos:pos + 2]
            pos += 2
            star = False
        elif pattern[pos] == "[":
            from .c10 import bracket
            _, end = bracket(pattern, pos, "x")
            out += pattern[pos:end]
            pos = end
            star = False
        else:
            if pattern[pos] != "*" or not star:
                out += pattern[pos]
            star = pattern[pos] == "*"
            pos += 1
    return out


def glob(pattern, value, is_path, is_dir=False, mode="smart"):
    """The reference."""
    if mode == "ignore" or mode == "smart" and pattern == pattern.lower():
        pattern, value = pattern.lower(), value.lower()
    negate = pattern.startswith("!")
    pattern = pattern[negate:]
    slash = pattern.find("/")
    anchored = is_path and 0 <= slash < len(pattern) - 1
    if anchored:
        pattern = pattern.lstrip("/")
    only_dirs = pattern.endswith("/")
    if only_dirs:
        pattern = pattern[:-1]
    if not valid(pattern) or only_dirs and not is_dir:
        hit = False
    elif anchored:
        hit = wild(pattern, 0, value.lstrip("/"), 0, False)
    elif is_path:
        hit = name_match(pattern, os.path.basename(value))
    else:
        hit = name_match(pattern, value)
    return hit != negate


REAL = [("f", "a/a/a"), ("f", "a/a/b.x"), ("f", "a/b"), ("f", "a/ab/b.a"), ("f", "b/a.b"), ("d", "ba"),
        ("f", "ab"), ("f", "B/A"), ("l", "l", "a/b"), ("l", "a/la", "../b/a.b"), ("f", ".a/.b"),
        ("f", "a b"), ("f", "b/a\n")]


def main():
    with Check("C18") as check:
        thorough = check.thorough
        items = []
        for i, value in enumerate(VALUES):
            items.append(("f", f"v_s{i:02d}", json.dumps({"vs": value})))
            # no path has empty components
            if value and not value.endswith("/") and "//" not in value:
                items.append(("f", f"v_p{i:02d}", json.dumps({"vp": value})))
        lists = [["a", "ab"], [], [""], ["b", "A"], ["a/b"], ["x", "a"]]
        for i, value in enumerate(lists):
            items.append(("f", f"v_l{i:02d}", json.dumps({"vl": value})))
        root = check.tree("values", items)
        files = check.tree("files", REAL)

        def values(patterns, modes=("smart",)):
            for pattern in patterns:
                for mode in modes:
                    expected = [f"v_s{i:02d}" for i, v in enumerate(VALUES)
                                if glob(pattern, v, False, mode=mode)] + \
                               [f"v_p{i:02d}" for i, v in enumerate(VALUES)
                                if v and not v.endswith("/") and "//" not in v and glob(pattern, v, True, mode=mode)]
                    argv = ["-j1", "--json", "-o", "relpath", "-c", mode, f"vals.vs%{pattern}", "OR", f"vals.vp%{pattern}"]
                    if not pattern.startswith("!"):
                        argv += ["OR", f"vals.vl%{pattern}"]
                        expected += [f"v_l{i:02d}" for i, v in enumerate(lists)
                                     if any(glob(pattern, e, False, mode=mode) for e in v)]
                    yield case(f"{mode} {pattern!r}", argv, expect_json(expected), root,
                               bool(expected))

        def attributes(patterns):
            entries = [(e, os.path.join(files, e)) for e in tree.walk(files)]
            attrs = {
                # --json makes paths absolute
                "path": lambda e, f: f, "relpath": lambda e, f: e,
                "dir": lambda e, f: os.path.dirname(f),
                "pathx": lambda e, f: os.path.join(os.path.dirname(f), stem(e)),
                "namex": lambda e, f: stem(e), "root": lambda e, f: files,
                "link": lambda e, f: os.readlink(f) if os.path.islink(f) else None,
                "target": lambda e, f: os.path.realpath(f) if os.path.islink(f) else None,
                "name": lambda e, f: os.path.basename(e),
                "ext": lambda e, f: os.path.splitext(e)[1][1:],
            }
            for pattern in patterns:
                for attr, func in attrs.items():
                    expected = []
                    for entry, full in entries:
                        value = func(entry, full)
                        if value is None:
                            continue
                        path = attr not in ("name", "ext")
                        is_dir = path and os.path.isdir(full) and not os.path.islink(full)
                        if glob(pattern, value, path, is_dir):
                            expected.append(entry)
                    yield case(f"{attr}%{pattern}", ["-j1", "--json", "-o", "relpath", f"file.{attr}%{pattern}"],
                               expect_json(expected), files, bool(expected))

        pool = {"extra_env": PLUGIN_ENV}
        run_cases(check, "wildcards", values(
            sequences(["a", "b", "*", "**", "?", "/"], 5 if thorough else 4)), **pool)
        # white space between an operator and its value is no part of the value
        run_cases(check, "special characters", values(
            p for p in sequences(["a", "*", "\\", "[", "]", "!", "#", " ", "-", "^"],
                                 4 if thorough else 3) if not p.startswith(" ")), **pool)
        run_cases(check, "case", values(
            sequences(["a", "A", "B", "*", "/", "[A-Z]", "ä", "Ä"], 3 if thorough else 2),
            ("smart", "ignore", "sensitive")), **pool)
        more = [f"[[:{n}:]]" for n in CLASSES] + [f"a[[:{n}:]]*" for n in CLASSES] + [
            "[[:foo:]]", "[[:alpha:]", "[![:alpha:]]", "[]a]", "[!]a]", "[a-]", "[z-a]", "[!z-a]",
            "[\\]]", "[a-c]", "[\\a-\\c]", "a[/]b", "a[!x]b", "a/[!x]", "(", ")", "a|b", "a+", "a.b",
            ".", ".*", "$", "^a", "a$", "{a,b}", "a{1}", "(?i)A", "\\d", "\\n", "\\", "a\\", "\\\\",
            "\\*", "*.*", "*/.*", "/", "//a", "a//b", "*\n*", "a\n", "+(a)", "@(a|b)", "**/**", "/**",
            "!", "!!a", "!*", "!/a", "!a/", "*" * 30 + "b", "*a" * 12 + "q"]
        run_cases(check, "classes and regular expressions",
                  values(more, ("smart", "ignore", "sensitive")), **pool)
        run_cases(check, "attributes", attributes(
            list(sequences(["a", "b", "*", "**", "/", "."], 4 if thorough else 2)) +
            ["a/**", "**/b*", "*.a", "*.b", "a/*/*", "a/", "*/", "!a/", "!a*", "/a", "/a/", "a/a/*",
             "../*", "**/b/*", "/**/b", ".*", "*/.*", "[ab]*", "b/a?", "a?", "B/*", "**/ab", "!**/a"]))
        # every ASCII character in every class and as end of a range
        alphabet = [chr(i) for i in range(1, 128)] + ["ä", "é"]
        chars = check.tree("chars", [("f", f"v_{i:03d}", json.dumps({"vs": c})) for i, c in enumerate(alphabet)])

        def single(patterns):
            for pattern in patterns:
                expected = [f"v_{i:03d}" for i, c in enumerate(alphabet) if glob(pattern, c, False, mode="sensitive")]
                yield case(f"character {pattern!r}", ["-j1", "-c", "sensitive", "--json", "-o", "relpath", f"vals.vs%{pattern}"],
                           expect_json(expected), chars, bool(expected))
        run_cases(check, "characters", single(
            [f"[{n}[:{c}:]]" for c in CLASSES for n in ("", "!", "^")] +
            [p.replace("x", c) for c in alphabet for p in ("[x]", "[!x]", "\\x", "[a\\x]", "[x-z]", "[ -x]", "[!0-x]")
             if not p.replace("x", c).startswith(" ")]), **pool)
        sample = list(values(["*", "a", "a/*", "**/b", "[ab]", "!a", "*\\*", "**"]))
        real_runs(check, sample, PLUGIN_ENV)
        check.report.assumptions += [
            "attributes that are paths match with their last component unless there is a slash in the "
            "pattern, a trailing slash matches directories only, ** has a meaning in paths only"]
        return check.report.finish(
            rule="a case is one pattern (all token sequences up to the length bound) matched against "
                 "all stored values; nontrivial: it matches at least one of them")


def stem(entry):
    return os.path.splitext(os.path.basename(entry))[0]


def expect_json(expected):
    expected = sorted(expected)

    def judge(result):
        try:
            got = sorted(e["relpath"] for e in json.loads(result["out"]))
        except (ValueError, KeyError):
            return f"no JSON: {result['out'][:200]!r} {err(result)[-200:]!r}"
        if got != expected or result["code"] != 0:
            return f"expected {expected[:6]!r}, got {got[:6]!r}, " \
                   f"wrong {sorted(set(got) ^ set(expected))[:4]!r} status {result['code']} " \
                   f"{err(result)[-200:]!r}"
        return None
    return judge


if __name__ == "__main__":
    main()
