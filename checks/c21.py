"""C21: the API gives the same results as the command line."""

import itertools
import json
import shutil

from .common import *

T = 1500000000
TREE = [
    ("f", "a/f1", "12345", {"mtime": T + 5}), ("f", "a/b/F1.x", "x" * 2000, {"mtime": T, "mode": 0o755}), ("f", "a/b/.gitignore", "*.TXT\n"),
    ("f", "a/b/f.TXT", "", {"mtime": T + 99, "mode": 0o600}), ("d", "c", {"mtime": T}), ("f", "c/f.TXT", "1"), ("f", ".h/x", "1"),
    ("f", ".ignore", "g*\n"), ("f", "g1", "1"), ("l", "ln", "a/f1"), ("l", "ld", "a/b"), ("l", "dead", "none"), ("p", "pipe"),
    ("f", "\udcff.t", "ff" * 40), ("f", "a b", "5"), ("f", "nl\nx"),
    ("f", "v1", json.dumps({"vs": "a b", "vp": "a/f1", "vn": 5, "vz": 3000, "vt": T, "vd": 3661, "vb": True, "vm": 0o644,
                            "vl": ["a", "b c"], "vu": ["y", "x"], "vf": "file"})),
    ("f", "v2", json.dumps({"vs": "", "vn": 0, "vb": False, "vl": [], "vu": []})),
]
SMALL = [("f", "f1", "1"), ("f", "a/f2.x", "22"), ("f", "a/.gitignore", "*.x\n"), ("f", "b/g", "333"), ("f", "v1", '{"vn": 5, "vs": "q"}'),
         ("l", "ln", "f1")]

HEAD = '''
import json, os
from ff import Find

def plain(value):
    return sorted(value) if isinstance(value, set) else value

def show(tag, row):
    print(json.dumps([tag, {k: plain(v) for k, v in row.items()}]))
'''


def cli(kwargs):
    """The command line that means the same as Find(**kwargs)."""
    argv = []
    query = kwargs.get("query") or []
    if isinstance(query, str):
        import shlex
        query = shlex.split(query)
    argv += query
    for directory in kwargs.get("directories", []):
        argv += ["-D", directory]
    for test in kwargs.get("exclude", []):
        argv += ["-e", test]
    argv += ["-o", ",".join(kwargs.get("output", ["file"]))]
    if kwargs.get("sort"):
        argv.append("--sort=" + ",".join(kwargs["sort"]))
    for name, option in (("reverse", "-R"), ("hide", "-H"), ("ignore", "-I"), ("one_file_system", "--xdev"), ("si", "--si"),
                         ("follow_symlinks", "-L")):
        if kwargs.get(name):
            argv.append(option)
    if "case" in kwargs:
        argv += ["-c", kwargs["case"]]
    argv.append(f"-j{kwargs.get('jobs', 2)}")
    argv += ["--cache", kwargs["cache"]] if kwargs.get("cache") else ["--no-cache"]
    return argv


def call(kwargs):
    kwargs = {"jobs": 2, "cache": None, "absolute_path": True, **kwargs}
    return "Find(" + ", ".join(f"{k}={v!r}" for k, v in kwargs.items()) + ")"


QUERIES = [None, "type=f", "type=f size+1", "not type=d or name=c", "name%*.TXT", ["name=a b"], "'name=a b'", [], "", "size={}a/f1",
           "vals.vn=5", "vals.vs:A", "not {{ hidden=yes or type=l }}", ["vals.vl=b c"], "name=f1 -or".replace(" -or", ""), "ext~t"]
OPTIONS = [
    {}, {"directories": ["a"]}, {"directories": ["a", "c"]}, {"directories": ["./a/", "c"]}, {"exclude": ["name=b"]},
    {"exclude": ["name%f*", "type=d"]}, {"output": ["path"]}, {"output": ["name", "size", "link", "vals.vs"]}, {"output": ["file.name", "vals.vl:n"]},
    {"output": ["vals.vu", "vals.vb", "vals.vm", "vals.vt"]}, {"output": ["file", "vals.vn"]}, {"sort": ["path"]}, {"sort": ["size", "name"]},
    {"sort": ["path"], "reverse": True}, {"hide": True}, {"ignore": True}, {"one_file_system": True}, {"case": "ignore"}, {"case": "sensitive"},
    {"case": "smart"}, {"si": True}, {"follow_symlinks": True}, {"jobs": 1}, {"jobs": 3}, {"cache": "cache.db"}, {"directories": ["ld"]},
    {"output": ["ext", "perm", "mode", "user"], "sort": ["mtime:v", "path"]},
]


def rows_of(result, tag=None):
    """The rows of the script per tag."""
    rows = {}
    for text in result["out"].decode().split("\n")[:-1]:
        where, row = json.loads(text)
        rows.setdefault(where, []).append(row)
    return rows


def cli_rows(result):
    message = finished(result)
    if message or result["code"]:
        raise AssertionError(f"{message} {result['code']} {err(result)[-500:]}")
    return [json.loads(l) for l in result["out"].decode().split("\n")[:-1]]


def canonical(rows, ordered):
    texts = [json.dumps({k: v for k, v in r.items() if not k.endswith("atime")}, sort_keys=True) for r in rows]
    return texts if ordered else sorted(texts)


def differ(rows, expected, ordered):
    got, want = canonical(rows, ordered), canonical(expected, ordered)
    if got != want:
        return f"missing {[w for w in want if w not in got][:2]!r}, superfluous {[g for g in got if g not in want][:2]!r}" if \
            sorted(got) != sorted(want) else f"order {got[:3]!r} instead of {want[:3]!r}"
    return None


def clean(result):
    message = finished(result)
    if message or result["code"] or has_traceback(result):
        return f"{message}, status {result['code']} {err(result)[-400:]!r}"
    return None


def single(check, root):
    """All options alone and in pairs with all queries."""
    pool = check.pool(extra_env={**PLUGIN_ENV, "PYTHONIOENCODING": "utf-8:surrogateescape"})
    combos = []
    for query in QUERIES:
        for options in OPTIONS:
            combos.append({"query": query, **options})
    for one, two in itertools.combinations(OPTIONS, 2):
        if not set(one) & set(two):
            combos.append({**one, **two})
            if check.thorough:
                combos.append({"query": "not type=d or name=c", **one, **two})
    requests = []
    for number, kwargs in enumerate(combos):
        kwargs = dict(kwargs)
        if kwargs.get("cache"):
            kwargs["cache"] = os.path.join(check.scratch.path, f"cache{number % 8}.db")
        requests.append({"scenario": scenario(cli(kwargs) + ["--jsonl"], cwd=root)})
        source = HEAD + f"for row in {call(kwargs)}: show('x', row)\n"
        if kwargs.get("output") == ["name", "size", "link", "vals.vs"]:
            source = source.replace("show('x', row)", "show('x', row); assert (row.name, row.size, row.link, row.vals_vs) == "
                                    "tuple(row.values()), row")
        requests.append({"scenario": scenario(None, options={'channels': 60, 'max_steps': 40000}, source=source, cwd=root)})
        # the paths as they are given
        relative = {**kwargs, "absolute_path": False, "output": ["path"]}
        requests.append({"scenario": scenario(cli(relative) + ["-0"], cwd=root)})
        source = HEAD + f"for row in {call(relative)}: show('x', row)\n"
        requests.append({"scenario": scenario(None, options={'channels': 60, 'max_steps': 40000}, source=source, cwd=root)})
    results = need(pool.map(requests))
    for number, kwargs in enumerate(combos):
        first, second, third, fourth = results[4 * number:4 * number + 4]
        expected = cli_rows(first)
        check.report.case(("single", str(kwargs)), bool(expected))
        check.report.count("states", 2)
        check.report.count("transitions", sum(r["steps"] for r in results[4 * number:4 * number + 4]))
        ordered = bool(kwargs.get("sort"))
        message = clean(second) or differ(rows_of(second).get("x", []), expected, ordered)
        if not message:
            paths = third["out"].decode("utf-8", "surrogateescape").split("\0")[:-1]
            message = clean(fourth) or differ(rows_of(fourth).get("x", []), [{"path": p} for p in paths], ordered)
        if message:
            check.report.violation(f"Find({kwargs}): {message}", {"kwargs": kwargs, "err": err(second)[-1000:]})
    check.report.part("single", {"runs": len(results), "combinations": len(combos)})


SEARCHES = [
    {"output": ["path"]}, {"query": "type=f", "output": ["name", "size"]}, {"directories": ["a"], "output": ["path", "depth"]},
    {"sort": ["path"], "output": ["path"]}, {"sort": ["size"], "reverse": True, "output": ["name"], "jobs": 1},
    {"query": "vals.vn=5", "output": ["vals.vs", "path"]}, {"ignore": True, "output": ["path"]}, {"hide": True, "output": ["path", "hide"]},
    {"case": "sensitive", "query": "name=F1", "output": ["path"]}, {"follow_symlinks": True, "output": ["path", "type"]},
    {"exclude": ["name=a"], "output": ["path"], "jobs": 1}, {"query": "name=nothing", "output": ["path"]},
    {"query": "ca.text=22", "cache": "x.db", "output": ["ca.count", "path"]}, {"output": ["file"], "query": "size={}f1"},
]

PATTERNS = {
    "one after the other": "for row in {a}: show('a', row)\nfor row in {b}: show('b', row)\n",
    "created first": "a = {a}\nb = {b}\nfor row in b: show('b', row)\nfor row in a: show('a', row)\n",
    "interleaved": """
a, b = iter({a}), iter({b})
left = {{'a': a, 'b': b}}
while left:
    for tag in list(left):
        try:
            show(tag, next(left[tag]))
        except StopIteration:
            del left[tag]
""",
    "nested": "for number, row in enumerate({a}):\n    show('a', row)\n    for other in {b}: show('b%d' % number, other)\n",
    "not iterated": "a = {a}\nfor row in {b}: show('b', row)\n",
    "abandoned": "for row in {a}: break\nfor row in {b}: show('b', row)\n",
    "abandoned and kept": "a = iter({a})\nnext(a, None)\nfor row in {b}: show('b', row)\n",
    "exception in the loop": """
try:
    for row in {a}: raise RuntimeError
except RuntimeError:
    pass
for row in {b}: show('b', row)
""",
    "not iterated at all": "a = {a}\nb = iter({b})\n",
    "iterator not started": "a = iter({a})\nfor row in {b}: show('b', row)\n",
    "in a function": "def run(f):\n    return list(f)\nfor tag, rows in (('a', run({a})), ('b', run({b}))):\n    for row in rows: show(tag, row)\n",
    "in threads": """
import threading
rows = {{}}
def run(tag, find):
    rows[tag] = list(find)
threads = [threading.Thread(target=run, args=(t, f)) for t, f in (('a', {a}), ('b', {b}))]
for t in threads: t.start()
for t in threads: t.join()
for tag in rows:
    for row in rows[tag]: show(tag, row)
""",
}


def judge_pattern(pattern, expected_a, expected_b, ordered_a, ordered_b):
    def judge(result):
        message = clean(result)
        if message:
            return message
        if result["vtime"] > 30:
            return f"program takes {result['vtime']:.0f}s to end"
        rows = rows_of(result)
        wanted = {}
        if pattern in ("one after the other", "created first", "interleaved", "nested", "in a function", "in threads"):
            wanted["a"] = (expected_a, ordered_a)
        if pattern == "nested":
            for number in range(len(expected_a)):
                wanted[f"b{number}"] = (expected_b, ordered_b)
        elif pattern != "not iterated at all":
            wanted["b"] = (expected_b, ordered_b)
        for tag in set(rows) | set(wanted):
            message = differ(rows.get(tag, []), *wanted.get(tag, ([], False)))
            if message:
                return f"search {tag}: {message}"
        return None
    return judge


def pairs(check, root):
    pool = check.pool(extra_env=PLUGIN_ENV)
    searches = []
    for number, kwargs in enumerate(SEARCHES):
        kwargs = dict(kwargs)
        if kwargs.get("cache"):
            kwargs["cache"] = os.path.join(check.scratch.path, f"pairs{number}.db")
        searches.append(kwargs)
    results = need(pool.map([{"scenario": scenario(cli(k) + ["--jsonl"], cwd=root)} for k in searches]))
    expected = [cli_rows(r) for r in results]
    check.report.part("expected", {"rows": [len(e) for e in expected]})

    def cases():
        for pattern, source in PATTERNS.items():
            if pattern == "in threads":
                continue
            for i, one in enumerate(searches):
                for j, two in enumerate(searches):
                    if not check.thorough and (i * 3 + j) % 2 and pattern not in ("interleaved", "one after the other", "abandoned"):
                        continue
                    text = HEAD + source.format(a=call(one), b=call(two))
                    yield (f"{pattern}: {one} {two}", scenario(None, options={'channels': 60, 'max_steps': 40000}, source=text, cwd=root),
                           judge_pattern(pattern, expected[i], expected[j], bool(one.get("sort")), bool(two.get("sort"))), True)
    run_cases(check, "pairs", cases(), extra_env=PLUGIN_ENV)

    # the same with other schedules
    jobs = []
    for pattern in ("one after the other", "interleaved", "abandoned", "abandoned and kept", "not iterated", "nested"):
        for i, j in ((0, 3), (3, 0), (1, 0), (5, 1)) if check.thorough else ((0, 3), (1, 0)):
            one, two = searches[i], searches[j]
            text = HEAD + PATTERNS[pattern].format(a=call(one), b=call(two))
            jobs.append((f"schedule {pattern} {i} {j}", scenario(None, options={'channels': 60, 'max_steps': 40000}, source=text, cwd=root),
                         judge_pattern(pattern, expected[i], expected[j], bool(one.get("sort")), bool(two.get("sort"))), 1,
                         {"extra_env": PLUGIN_ENV}))
    explore_scenarios(check, jobs, outcome=lambda r: (r["verdict"][0], r["code"], hash(r["out"])))

    triples = []
    for combo in itertools.permutations(range(len(searches)), 3):
        if sum(combo) % (3 if check.thorough else 40) == 0:
            a, b, c = (searches[i] for i in combo)
            text = HEAD + f"a = iter({call(a)}); show('a', next(a, {{}}))\nfor row in {call(b)}: show('b', row)\n" \
                          f"for row in {call(c)}: show('c', row)\nfor row in a: show('a', row)\n"

            def judge(result, combo=combo):
                message = clean(result)
                rows = rows_of(result) if not message else {}
                for tag, i in zip("abc", combo):
                    message = message or differ([r for r in rows.get(tag, []) if r], expected[i], bool(searches[i].get("sort")))
                return message
            triples.append((f"three: {a} {b} {c}", scenario(None, options={'channels': 60, 'max_steps': 40000}, source=text, cwd=root), judge, True))
    run_cases(check, "three searches", triples, extra_env=PLUGIN_ENV)

    # real processes
    sample = [c for c in cases()]
    real = []
    for key, scen, judge, _ in sample[::len(sample) // (200 if check.thorough else 24)]:
        real.append((key, scen, judge))
    real_sources(check, real)


def real_sources(check, cases):
    import subprocess
    base = clean_env(check.scratch.home, {"PYTHONPATH": REPO, **PLUGIN_ENV})
    for key, scen, judge in cases:
        try:
            proc = subprocess.run([PYTHON, "-c", scen["source"]], cwd=scen["cwd"], env=base, capture_output=True, timeout=120,
                                  stdin=subprocess.DEVNULL)
        except subprocess.TimeoutExpired:
            check.report.violation(f"real run {key}: does not end", {"source": scen["source"]})
            continue
        check.report.count("traces_validated_against_impl")
        check.report.count("real_runs")
        message = judge({"verdict": ("exit", ""), "code": proc.returncode, "out": proc.stdout, "err": proc.stderr, "calls": [], "faults": [],
                         "vtime": 0})
        if message:
            check.report.violation(f"real run {key}: {message}", {"source": scen["source"], "err": proc.stderr.decode("utf-8", "replace")[-2000:]})


OPS = {
    "new file": "open('new.x', 'w').write('1'); os.utime('new.x', (1500000001, 1500000001))",
    "remove": "os.path.exists('f1') and os.remove('f1')",
    "ignore": "open('.gitignore', 'w').write('f1\\n'); os.utime('.gitignore', (1500000002, 1500000002))",
    "ignore more": "open('a/.gitignore', 'w').write('*\\n'); os.utime('a/.gitignore', (1500000003, 1500000003))",
    "no ignore": "os.path.exists('a/.gitignore') and os.remove('a/.gitignore')",
    "rename": "os.path.exists('b') and os.rename('b', 'a/c')",
    "change": "open('v1', 'w').write('{\"vn\": 6, \"vs\": \"qq\"}'); os.utime('v1', (1500000004, 1500000004))",
    "longer": "open('a/f2.x', 'w').write('4444'); os.utime('a/f2.x', (1500000005, 1500000005))",
    "chmod": "os.path.exists('f1') and os.chmod('f1', 0o751)",
    "link": "os.path.lexists('ln') and os.remove('ln'); os.symlink('a', 'ln')",
    "directory": "os.makedirs('n/m', exist_ok=True); open('n/m/f', 'w').write('')",
}
STATE = [{"query": "not name=nothing", "output": ["relpath", "type", "size", "perm", "vals.vn", "vals.vs", "link"]},
         {"ignore": True, "output": ["relpath"]}, {"follow_symlinks": True, "output": ["relpath", "size", "type"]},
         {"output": ["ca.text", "ca.count", "relpath", "ca_b.back"], "cache": "state.db"}, {"query": "size={}a/f2.x", "output": ["relpath"]}]


def histories(check):
    """The tree changes between the searches of one process."""
    pool = check.pool(extra_env=PLUGIN_ENV)
    depth = 3 if check.thorough else 2
    base = os.path.join(check.scratch.path, "histories")
    os.makedirs(base)
    states, requests, jobs = {}, [], []
    for ops in itertools.chain.from_iterable(itertools.permutations(OPS, n) for n in range(depth + 1)):
        if len(ops) == 3 and hash(ops) % 1 != 0:
            continue
        states[ops] = None
    sequences = [ops for ops in states if len(ops) == depth]
    # the expected result of each state comes from a fresh process with a fresh cache
    for number, ops in enumerate(states):
        where = check.tree(f"histories/s{number}", SMALL)
        here = os.getcwd()
        os.chdir(where)
        try:
            for op in ops:
                exec(OPS[op], {"os": os})
        finally:
            os.chdir(here)
        states[ops] = number
        for kwargs in STATE:
            requests.append({"scenario": scenario(cli({**kwargs, "cache": None}) + ["--jsonl"], cwd=where)})
    results = need(pool.map(requests))
    expected = {ops: [cli_rows(r) for r in results[n * len(STATE):(n + 1) * len(STATE)]] for ops, n in states.items()}
    cases = []
    for number, ops in enumerate(sequences):
        where = check.tree(f"histories/h{number}", SMALL)
        text = HEAD
        for step in range(depth + 1):
            for index, kwargs in enumerate(STATE):
                kwargs = dict(kwargs)
                if kwargs.get("cache"):
                    kwargs["cache"] = os.path.join(base, f"h{number}.db")
                text += f"for row in {call(kwargs)}: show('{step}-{index}', row)\n"
            if step < depth:
                text += OPS[ops[step]] + "\n"

        def judge(result, ops=ops):
            message = clean(result)
            if message:
                return message
            rows = rows_of(result)
            for step in range(depth + 1):
                for index in range(len(STATE)):
                    message = differ(rows.get(f"{step}-{index}", []), expected[ops[:step]][index], False)
                    if message:
                        return f"step {step}, search {STATE[index]}: {message}"
            return None
        cases.append((f"history {ops}", scenario(None, options={'channels': 60, 'max_steps': 40000}, source=text, cwd=where), judge, True))
    run_cases(check, "histories", cases, extra_env=PLUGIN_ENV)
    shutil.rmtree(base)


BAD = [
    {"query": "zz=1"}, {"query": "size=x"}, {"query": "name"}, {"query": "(("}, {"query": "type=f or"}, {"query": "'open"}, {"query": ["name~["]},
    {"query": "zz.name=1"}, {"query": "size={}missing"}, {"directories": ["missing"]}, {"directories": ["f1"]},     {"directories": [".", "a"]}, {"exclude": ["zz=1"]}, {"exclude": ["name"]}, {"output": ["zz"]},
    {"output": [""]}, {"output": ["size:h"]}, {"output": ["mode:o"]}, {"sort": ["zz"]}, {"sort": ["name:q"]}, {"case": "other"},
    {"query": "boom.num=1", "output": ["path"]}, {"output": ["boom.num"]}, {"sort": ["boom.num"]}, {"query": "type=q"}, {"query": "perm=abc"},
    {"query": "mtime=xx"}, {"output": ["vals.zz"]},
]


def errors(check):
    """Errors are exceptions, each time, and they do no harm to other searches."""
    root = check.tree("bad", SMALL + [("f", "boom1")])
    good = {"query": "type=f", "output": ["path"]}
    expected = cli_rows(need(check.pool(extra_env=PLUGIN_ENV).map([{"scenario": scenario(cli(good) + ["--jsonl"], cwd=root)}]))[0])
    cases = []
    head = HEAD + """
def attempt(make):
    try:
        for row in make(): pass
    except Exception as exc:
        show('error', {'type': type(exc).__name__, 'text': str(exc)})
"""
    for one, two in [(b, b) for b in BAD] + (list(itertools.product(BAD, repeat=2)) if check.thorough else
                                             [(BAD[i], BAD[(i * 7 + 3) % len(BAD)]) for i in range(len(BAD))]):
        text = head + f"attempt(lambda: {call(one)})\nattempt(lambda: {call(two)})\nfor row in {call(good)}: show('good', row)\n" \
                      f"attempt(lambda: {call(one)})\nfor row in {call({**good, 'jobs': 1})}: show('good2', row)\n"

        def judge(result, same=one is two):
            message = finished(result)
            if message or result["code"]:
                return f"{message}, status {result['code']} {err(result)[-300:]!r}"
            rows = rows_of(result)
            bad = rows.get("error", [])
            if len(bad) != 3 or not all(b["text"] for b in bad) or bad[0] != bad[2] or same and bad[0] != bad[1]:
                return f"errors {bad}"
            return differ(rows.get("good", []), expected, False) or differ(rows.get("good2", []), expected, False)
        cases.append((f"error {one} {two}", scenario(None, options={'channels': 60, 'max_steps': 40000}, source=text, cwd=root), judge, True))

    # the arguments belong to the caller
    lists = {"query": ["./a/", "type=f"], "directories": [], "exclude": ["name=x"], "output": ["file"], "sort": ["name"]}
    for names in itertools.chain.from_iterable(itertools.combinations(lists, n) for n in (1, 2, 5)):
        if "query" in names:
            names = {*names, "directories"}
        args = {n: lists[n] for n in lists if n in names}
        text = HEAD + f"args = {args!r}\nbefore = repr(args)\nfor i in range(3):\n    show('x', {{'rows': sorted(map(repr, " \
                      f"Find(jobs=1, cache=None, **args)))}})\n    assert repr(args) == before, args\n"

        def judge_same(result):
            message = clean(result)
            rows = rows_of(result).get("x", []) if not message else []
            return message or (None if len(rows) == 3 and rows[0] == rows[1] == rows[2] and rows[0]["rows"] else f"different results {rows}")
        cases.append((f"arguments {names}", scenario(None, options={'channels': 60, 'max_steps': 40000}, source=text, cwd=root), judge_same, True))
    text = HEAD + "f = Find('type=f', output=['path'], jobs=1, cache=None, absolute_path=True)\nfor row in f: show('good', row)\n"
    cases.append(("default", scenario(None, options={'channels': 60, 'max_steps': 40000}, source=text, cwd=root), lambda r: clean(r) or differ(rows_of(r)["good"], expected, False), True))
    run_cases(check, "errors", cases, extra_env=PLUGIN_ENV)


def main():
    with Check("C21") as check:
        root, small = check.tree("tree", TREE), check.tree("small", SMALL)
        single(check, root)
        pairs(check, small)
        histories(check)
        errors(check)
        return check.report.finish(
            rule="a case is one program that uses Find once or several times; nontrivial: the search has results, or there is "
                 "more than one search")
