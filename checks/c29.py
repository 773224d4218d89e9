"""C29: the help names exactly the options, plugins, attributes, types and operators there are, with their texts."""

import itertools
import json
import re
import string
import subprocess

from .common import *

TYPES = {
    # type: (valid value, operators as in the reference manual)
    "String": "x", "Path": "x", "FileType": "file", "ListOfStrings": "x", "Number": "5", "Mode": "644", "Size": "5k",
    "Time": "2020-01-01", "Duration": "1h", "Boolean": "yes",
}
OPERATORS = ["=", ":", "~", "%", "+", "-", "+=", "-=", "=+", "!=", "<", ">", "==", "<=", ">="]

# tokens of the texts that plugins bring along
TOKENS = ["w", ".x", "'", "'q'", "'q", "\\", "\\fBb", "-", "--opt", "`b`", "a(1)", "\n", "\n\n", '"', "é", "{x}", "..", "\\n", " ", "'.", "%s", ".br"]

PLUGINS = '''# -*- coding: utf-8 -*-
from libff.plugin import *
{body}
'''
PLUGIN = '''
class {name}(Plugin):
    {doc!r}
    attributes = {attributes}
    use_cache = {cache}
    def can_handle(self, entry):
        return False
    def process(self, entry, cached):
        yield from ()
'''


class Unreadable(Exception):
    """A line that does not say anything, although it should."""


def roff(text):
    """The parts of a page as (kind, words) where kind is one of section, term, text."""
    parts = []

    def add(kind, words):
        if kind == "text" and parts and parts[-1][0] == "text":
            parts[-1][1].extend(words)
        elif words or kind != "text":
            parts.append((kind, list(words)))

    def plain(line):
        def replace(match):
            code = match.group(1)
            if code in ("fB", "fI", "fR", "&"):
                return ""
            if code == "[rs]":
                return "\\"
            if code in ("-",):
                return "-"
            if code in ("e", "\\", "(rs"):
                return "\\"
            if code == "(aq":
                return "'"
            if code == "(dq":
                return '"'
            raise Unreadable(f"escape \\{code} in {line!r}")
        return re.sub(r"(?s)\\(f.|\(..|\[[^]]*\]|.|$)", replace, line).replace("`", "")

    for line in text.split("\n"):
        if line.startswith((".", "'")):
            request, _, rest = line[1:].partition(" ")
            if line[0] == "." and request in ("TH", "nh", "br", "PP", "ad", "na", "sp", "P"):
                continue
            if line[0] == "." and request in ("SH", "SS"):
                add("section", plain(rest).replace('"', "").split())
            elif line[0] == "." and request == "IP":
                match = re.match(r'^ *"((?:[^"]|"")*)" \d+$', rest)
                if match is None:
                    raise Unreadable(f"line {line!r}")
                add("term", plain(match.group(1).replace('""', '"')).split())
            elif line not in (".", "'"):
                raise Unreadable(f"line {line!r} is a request and not shown")
            elif line == "'" :
                raise Unreadable("a line with a single quote is not shown")
        else:
            add("text", plain(line).split())
    return parts


def words(text):
    return (text or "").replace("`", "").split()


class Helps:
    """Help pages are recorded with a stand-in for man(1)."""

    def __init__(self, check):
        self.check = check
        self.number = 0
        self.bin = os.path.join(check.scratch.path, "man-bin")
        os.makedirs(self.bin)
        path = os.path.join(self.bin, "man")
        with open(path, "w") as fobj:
            fobj.write('#!/bin/sh\n[ "$*" = "-l -" ] || exit 16\nexec cat > "$MANOUT"\n')
        os.chmod(path, 0o755)

    def make(self, key, argv, judge, plugin_dir, cwd, nontrivial=True):
        self.number += 1
        out = os.path.join(self.check.scratch.path, f"page{self.number}")

        def judge_page(result):
            if result["code"] or result["err"] or result["out"]:
                return f"status {result['code']} {result['out'][:100]!r} {err(result)[-300:]!r}"
            try:
                with open(out, encoding="utf-8") as fobj:
                    text = fobj.read()
            except OSError:
                return "there is no page"
            try:
                return judge(roff(text))
            except Unreadable as exc:
                return str(exc)
        env = {"FF_PLUGIN_DIRS": plugin_dir, "PATH": self.bin + os.pathsep + os.environ["PATH"], "MANOUT": out}
        return case(key, argv, judge_page, cwd, nontrivial, env=env)


def split(parts):
    """{section: [(term or None, words)]} in order."""
    sections = {}
    current = None
    for kind, text in parts:
        if kind == "section":
            current = sections.setdefault(" ".join(text), [])
            if current:
                raise Unreadable(f"section {' '.join(text)} appears twice")
        elif current is None:
            raise Unreadable("text before the first section")
        elif kind == "term":
            current.append([" ".join(text), []])
        else:
            if not current:
                current.append([None, []])
            current[-1][1].extend(text)
    return sections


def attribute_terms(plugin, attributes, operators):
    rows = []
    for name, type_name, help_text in attributes:
        term = f"[file.]{name}" if plugin == "file" else f"{plugin}.{name}"
        rows.append([term, ["Type:", shown(type_name), "(", *operators[type_name], ")", *words(help_text)]])
    return rows


def shown(type_name):
    return type_name.lower()


OPS = {"String": "= : ~ %", "Path": "= : ~ %", "FileType": "=", "ListOfStrings": "= : ~ %", "Number": "+= -= + - =", "Mode": "= : ~",
       "Size": "+= -= + - =", "Time": "+= -= + - =", "Duration": "+= -= + - =", "Boolean": "="}
OPS = {name: text.split() for name, text in OPS.items()}


def check_attributes(plugins, exact=True):
    """Judge for --help-attributes: plugins is {name: (doc, [(attribute, type, help)])}."""
    def judge(parts):
        sections = split(parts)
        found = [s[:-len(" PLUGIN")].lower() for s in sections if s.endswith(" PLUGIN")]
        expected = sorted(plugins, key=lambda n: "" if n == "file" else n)
        if found != expected:
            return f"plugins {list(set(found) ^ set(expected)) or found!r} are missing, superfluous or in the wrong order"
        for name, (doc, attributes) in plugins.items():
            rows = sections[name.upper() + " PLUGIN"]
            want = ([[None, words(doc)]] if words(doc) else []) + attribute_terms(name, attributes, OPS)
            message = compare(rows, want, name)
            if message:
                return message
        return None
    return judge


def compare(rows, want, name):
    for row, expected in itertools.zip_longest(rows, want):
        if row is None or expected is None or row[0] != expected[0] or sorted(row[1]) != sorted(expected[1]) or \
                [w for w in row[1] if w not in OPERATORS] != [w for w in expected[1] if w not in OPERATORS]:
            return f"{name}: {row!r} instead of {expected!r}"
    return None


def check_plugin(name, doc, attributes):
    def judge(parts):
        sections = split(parts)
        # a description that consists of blanks may have an empty section
        want = ["DESCRIPTION"] if words(doc) or doc and sections.get("DESCRIPTION") == [] else []
        if [s for s in sections if s in ("DESCRIPTION", "ATTRIBUTES")] != want + ["ATTRIBUTES"]:
            return f"sections {list(sections)}"
        if words(doc):
            message = compare(sections["DESCRIPTION"], [[None, words(doc)]], name)
            if message:
                return message
        message = compare(sections["ATTRIBUTES"], attribute_terms(name, attributes, OPS), name)
        if message:
            return message
        details = " ".join(sections.get("DETAILS", [["", []]])[0][1])
        return None if f"Name: {name} " in details + " " else f"no name in {details}"
    return judge


def check_plugins(plugins, where, caches=()):
    def judge(parts):
        sections = split(parts)
        found = [s[:-len(" PLUGIN")].lower() for s in sections if s.endswith(" PLUGIN")]
        if found != sorted(plugins):
            return f"plugins {list(set(found) ^ set(plugins)) or found!r} are missing, superfluous or in the wrong order"
        for name, (doc, _) in plugins.items():
            rows = sections[name.upper() + " PLUGIN"]
            text = rows[0][1] if rows else []
            # what is known about the plugin and its description
            if text[len(text) - len(words(doc)):] != words(doc):
                return f"{name}: {text!r} does not end with {words(doc)!r}"
            head = " ".join(text[:len(text) - len(words(doc))])
            if name in where:
                source, path = where[name]
                expected = f"Name: {name} Source: {source} Path: {path} Uses cache: {'Yes' if name in caches else 'No'}"
                if head != expected:
                    return f"{name}: {head!r} instead of {expected!r}"
        return None
    return judge


DEFINED = """
import importlib.util, json, os, sys
import libff.plugin, libff.type
plugins, types = {}, {}
for directory in sys.argv[1:]:
    for name in sorted(os.listdir(directory)):
        if not name.endswith(".py") or name.startswith("_"):
            continue
        path = os.path.join(directory, name)
        spec = importlib.util.spec_from_file_location("defined_" + name[:-3], path)
        module = importlib.util.module_from_spec(spec)
        try:
            spec.loader.exec_module(module)
        except ImportError:
            continue
        for key, value in vars(module).items():
            if not isinstance(value, type) or value.__module__ == "libff.plugin":
                continue
            if issubclass(value, libff.plugin.Plugin) and value is not libff.plugin.Plugin:
                plugins.setdefault(key.lower(), [value.__doc__, [[n, [c.__name__ for c in t.__mro__], h] for n, t, h in value.attributes]])
            elif issubclass(value, libff.type.Type) and value.__module__ == module.__name__:
                types[key] = [c.__name__ for c in value.__mro__]
json.dump([plugins, types], sys.stdout)
"""


def builtin_plugins(check):
    """What is defined in the modules of the plugins that come with the program, found without the program's registry."""
    proc = subprocess.run([PYTHON, "-c", DEFINED, os.path.join(REPO, "libff", "builtin"), os.path.join(REPO, "plugins")], cwd=check.scratch.path,
                          env=clean_env(check.scratch.home, {"PYTHONPATH": REPO}), capture_output=True, timeout=120)
    plugins, types_ = json.loads(proc.stdout)
    for own, bases in types_.items():
        OPS[own] = next(OPS[b] for b in bases if b in OPS)
        TYPES[own] = next(TYPES[b] for b in bases if b in TYPES)
    return {name: (doc, [(n, t[0], h) for n, t, h in attributes]) for name, (doc, attributes) in plugins.items()}


def texts(check, helps, cwd):
    """All texts of up to three tokens in the descriptions of plugins, attributes and types."""
    every = [list(t) for n in range(0, 4 if check.thorough else 3) for t in itertools.product(TOKENS, repeat=n)]
    if not check.thorough:
        few = ["w", ".x", "'q'", "'", "\\", "\n", "\n\n", "--opt"]
        every += [list(t) for t in itertools.product(few, repeat=3)]
    cases = []
    size = 60
    for number, start in enumerate(range(0, len(every), size)):
        for joint in (" ", ""):
            where = os.path.join(check.scratch.path, f"texts{number}{len(joint)}")
            os.makedirs(where)
            plugins, body, caches = {}, "", set()
            for pos, tokens in enumerate(every[start:start + size]):
                text = joint.join(tokens)
                name = f"P{pos:03d}"
                # the text in all places: the only one, before, after and between other words
                doc = {0: text, 1: f"before {text}", 2: f"{text} after", 3: f"a {text} z"}[pos % 4]
                attributes = [("a", "Number", text), ("b", "String", f"a {text}"), ("c", "Time", f"{text} z")]
                shown_attributes = "[" + ", ".join(f"({n!r}, {t}, {h!r})" for n, t, h in attributes) + "]"
                body += PLUGIN.format(name=name, doc=doc, attributes=shown_attributes, cache=pos % 3 == 0)
                if pos % 3 == 0:
                    caches.add(name.lower())
                plugins[name.lower()] = (doc, attributes)
            path = os.path.join(where, "p.py")
            with open(path, "w", encoding="utf-8") as fobj:
                fobj.write(PLUGINS.format(body=body))
            everything = {**plugins, **check.builtin}
            places = {name: ("system", path) for name in plugins}
            cases.append(helps.make(f"texts {number} {joint!r} attributes", ["--help-attributes"], check_attributes(everything), where, cwd))
            cases.append(helps.make(f"texts {number} {joint!r} plugins", ["--help-plugins"],
                                    check_plugins(everything, places, caches), where, cwd))
            for name in list(plugins)[::1 if check.thorough else 6]:
                cases.append(helps.make(f"text {plugins[name][0]!r}", ["--help", name], check_plugin(name, *plugins[name]), where, cwd))
    return cases


def sets(check, helps, cwd):
    """All ways in which two plugins with up to two attributes are spread over two directories, with and without descriptions."""
    cases = []
    number = 0
    for docs in itertools.product((None, "", "Some text."), repeat=2):
        for one, two in itertools.product(([], [("x", "Number", "Help x.")], [("x", "Size", "X."), ("a", "ListOfStrings", "A.")]), repeat=2):
            for same in (True, False):
                number += 1
                where = os.path.join(check.scratch.path, f"set{number}")
                dirs = [where] if same else [where + "/1", where + "/2"]
                plugins, places = {}, {}
                for pos, (name, doc, attributes) in enumerate((("Zz", docs[0], one), ("Aa", docs[1], two))):
                    directory = dirs[pos % len(dirs)]
                    os.makedirs(directory, exist_ok=True)
                    path = os.path.join(directory, f"{name}.py")
                    shown_attributes = "[" + ", ".join(f"({n!r}, {t}, {h!r})" for n, t, h in attributes) + "]"
                    text = PLUGIN.format(name=name, doc=doc, attributes=shown_attributes, cache=pos == 0)
                    with open(path, "w", encoding="utf-8") as fobj:
                        fobj.write(PLUGINS.format(body=text))
                    plugins[name.lower()] = (doc, attributes)
                    places[name.lower()] = ("system", path)
                everything = {**plugins, **check.builtin}
                env = os.pathsep.join(dirs)
                key = f"sets {docs} {one} {two} {same}"
                cases.append(helps.make(key + " attributes", ["--help-attributes"], check_attributes(everything), env, cwd))
                cases.append(helps.make(key + " plugins", ["--help-plugins"], check_plugins(everything, places, {"zz"}), env, cwd))
                for name in plugins:
                    cases.append(helps.make(key + " " + name, ["--help", name], check_plugin(name, *plugins[name]), env, cwd))
                cases.append(case(key + " missing", ["--help", "zzz"], expect_error((2,)), cwd, env={"FF_PLUGIN_DIRS": env}))
    return cases


def types(check, helps, cwd):
    """The types and types of plugins."""
    def judge_for(extra):
        def judge(parts):
            sections = split(parts)
            expected = {shown(t): OPS[t] for t in TYPES}
            expected.update(extra)
            for name, operators in expected.items():
                rows = sections.get(f"{name.upper()} TYPE")
                if rows is None:
                    return f"type {name} is missing"
                text = " ".join(rows[0][1])
                match = re.match(r"Name: (\S+) Operators: (.*?) Count: (\w+)", text)
                if not match or match.group(1) != name or sorted(match.group(2).split()) != sorted(operators):
                    return f"type {name}: {text[:100]!r}"
            unexpected = [s for s in sections if s.endswith(" TYPE") and s[:-5].lower() not in expected]
            return f"unknown types {unexpected}" if unexpected else None
        return judge
    cases = []
    for number, doc in enumerate((None, "", "text", ".x 'y'", "'y\\n")):
        where = os.path.join(check.scratch.path, f"types{number}")
        os.makedirs(where)
        with open(os.path.join(where, "t.py"), "w", encoding="utf-8") as fobj:
            fobj.write(PLUGINS.format(body=f"class Weight(Number):\n    {doc!r}\nclass Colour(String):\n    {doc!r}\n    operators = ('=',)\n"
                                           + PLUGIN.format(name="P", doc=doc, attributes="[('w', Weight, 'h'), ('c', Colour, 'h')]", cache=False)))
        cases.append(helps.make(f"types {doc!r}", ["--help-types"], judge_for({"weight": OPS["Number"], "colour": ["="]}), where, cwd))
    return cases


def operators(check, cwd):
    """Every attribute with every operator: accepted if and only if it is listed."""
    cases = []
    for plugin, (_, attributes) in check.builtin.items():
        for name, type_name, _ in attributes:
            for full in ((f"{plugin}.{name}", name) if plugin == "file" else (f"{plugin}.{name}",)):
                for op in OPERATORS:
                    # < and > are other spellings of - and +
                    listed = OPS[type_name] + [o.replace("+", ">").replace("-", "<") for o in OPS[type_name]]
                    good = op in listed
                    value = TYPES[type_name]
                    if not good and any(op.startswith(o) for o in listed):
                        # the rest of the operator belongs to the value
                        continue

                    def judge(result, good=good, full=full, op=op):
                        if good:
                            # 10 is for plugins whose module is not there
                            ok = result["code"] in (0, 10) and not (result["code"] == 10 and plugin_is_builtin(full))
                            return None if ok else f"status {result['code']} {err(result)[-200:]!r}"
                        if result["code"] == 10 and not plugin_is_builtin(full):
                            return None
                        return expect_error((12,))(result)
                    cases.append(case(f"operator {full}{op}{value}", ["-j1", f"{full}{op}{value}", "-d0"], judge, cwd, env={"FF_PLUGIN_DIRS": ""}))
    for name in TYPES:
        del name
    return cases


def plugin_is_builtin(full):
    return full.partition(".")[0] in ("file", "grep", "ignore", "mime") or "." not in full


def option_rows(text):
    """The options of --help: [(strings, metavar, help)]."""
    rows, current = [], None
    for line in text.split("\n"):
        match = re.match(r"^  (-\S.*?|<\S+>)(?:  +(.*))?$", line)
        if match and not line.startswith("   "):
            spec = match.group(1)
            strings = re.findall(r"(?:^|, )(-[^\s,]+)", spec)
            metavar = re.search(r" (\[?<.*)$", spec)
            current = [strings or [spec], metavar and metavar.group(1), words(match.group(2))]
            rows.append(current)
        elif line.startswith(" " * 20) and current is not None:
            current[2].extend(words(line))
    return rows


def options(check, helps, cwd):
    """The options in the help are those which are accepted."""
    cases = []
    proc = subprocess.run([PYTHON, "-m", "ff", "--help"], cwd=cwd, env=clean_env(check.scratch.home, {"PYTHONPATH": REPO}), capture_output=True,
                          stdin=subprocess.DEVNULL, timeout=120)
    text = proc.stdout.decode()
    rows = option_rows(text)
    listed = {s: (row[1], row[2]) for row in rows for s in row[0]}
    check.report.part("options", {"options": len(rows), "strings": len(listed)})
    if len(rows) < 20 or proc.returncode:
        check.report.violation(f"--help lists {len(rows)} options, status {proc.returncode}", {"out": text[-2000:]})
        return cases

    def unknown(result):
        return "unknown option" in err(result)

    def judge_known(known):
        def judge(result):
            if known == unknown(result) or not known and result["code"] != 2:
                return f"{'listed' if known else 'not listed'}, status {result['code']} {err(result)[-100:]!r}"
            return None
        return judge
    shorts = [f"-{c}" for c in string.printable if c not in "-" and c.isprintable()]
    longs = [s for s in listed if s.startswith("--")]
    candidates = set(shorts) | set(longs) | {s[:n] for s in longs for n in range(3, len(s))} | {s + "x" for s in longs} | \
        {s.upper() for s in longs} | {s.replace("--", "-") for s in longs if len(s) == 3} | {f"--{a}{b}" for a in "abcdehinopstv" for b in "aeioxn"}
    for candidate in sorted(candidates):
        if candidate in ("-h", "--help", "--version") or candidate.startswith("--help-"):
            if candidate in listed:
                continue
        cases.append(case(f"option {candidate}", ["name=x", candidate], judge_known(candidate in listed), cwd))

    def judge_full(parts):
        sections = split(parts)
        body = {term: text_ for term, text_ in sections.get("OPTIONS", []) if term}
        for strings, metavar, help_text in rows:
            term = ", ".join(strings) + (" " + metavar if metavar else "")
            term = " ".join(term.split())
            if term not in body:
                return f"option {term!r} is not in the manual"
            if body[term][:len(help_text)] != help_text:
                return f"option {term!r}: {body[term]!r} instead of {help_text!r}"
        if len(body) != len(rows):
            return f"{len(body)} options in the manual, {len(rows)} in the help"
        codes = {int(t.split()[0]) for t, _ in sections.get("EXIT CODES", sections.get("EXIT STATUS", [])) if t and t.split()[0].isdigit()}
        missing = {2, 3, 4, 10, 11, 12} - codes
        return f"exit codes {missing} are missing" if missing else None
    cases.append(helps.make("manual", ["--help-full"], judge_full, "", cwd))
    return cases


def main():
    with Check("C29") as check:
        cwd = check.tree("tree", [("f", "a"), ("f", "b")])
        check.builtin = builtin_plugins(check)
        helps = Helps(check)
        plain = {"preload": False}
        run_cases(check, "options", options(check, helps, cwd), **plain)
        run_cases(check, "operators", operators(check, cwd), **plain)
        run_cases(check, "sets of plugins", sets(check, helps, cwd), **plain)
        run_cases(check, "types", types(check, helps, cwd), **plain)
        run_cases(check, "texts", texts(check, helps, cwd), **plain)
        return check.report.finish(
            rule="a case is one help page for one set of plugins, or one option or one test with an operator that has to be accepted "
                 "exactly if the help lists it")
