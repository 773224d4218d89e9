"""C03: records of different processes never mix in the output, whatever the schedule."""

import json

from .common import *

ATTRS = ["name", "path", "dir", "ext", "pathx", "namex"]


def records(root, num):
    """(path relative to the root, name) of the files of the tree."""
    return [e for e in tree.walk(root) if os.path.isfile(os.path.join(root, e))]


def starts(root):
    """Each top-level directory is a start directory, so that the processes share the work."""
    result = []
    for name in sorted(os.listdir(root)):
        if os.path.isdir(os.path.join(root, name)):
            result += ["-D", name]
    return result


def value(path, attr):
    """The reference for a few attributes of regular files."""
    directory, name = os.path.split(path)
    stem, ext = os.path.splitext(name)
    return {"path": path, "name": name, "dir": directory, "ext": ext[1:],
            "pathx": os.path.join(directory, stem), "namex": stem}[attr]


def judge_records(expected, terminator, code=0):
    expected = sorted(expected)

    def judge(result):
        message = finished(result)
        if message:
            return message
        out = result["out"].decode("utf-8", "surrogateescape")
        got = sorted(out.split(terminator)[:-1])
        if not out.endswith(terminator) or got != expected:
            wrong = [r for r in got if r not in expected]
            return f"records are damaged: {len(got)} records of {len(expected)}, " \
                   f"first damaged {wrong[:1]!r:.300}"
        if result["code"] != code:
            return f"exit status {result['code']}"
        return None
    return judge


def judge_jsonl(expected):
    expected = sorted(expected, key=repr)

    def judge(result):
        message = finished(result)
        if message:
            return message
        got = []
        for line in result["out"].decode("utf-8", "surrogateescape").split("\n")[:-1]:
            try:
                got.append(json.loads(line))
            except ValueError:
                return f"invalid JSON line {line[:300]!r}"
        if sorted(got, key=repr) != expected or result["code"]:
            return f"{len(got)} records instead of {len(expected)}, status {result['code']}"
        return None
    return judge


def main():
    with Check("C03") as check:
        deep = 2 if check.thorough else 1
        jobs = []
        options = {"vstdout": True, "pipe_chunk": 4096}
        small = [("f", "a/one.x"), ("f", "b/two.y"), ("f", "c/three.z")]
        # directory parts as long as a name may be
        long_ = [("f", "/".join([c * 200] * 3) + f"/{c}.{c}") for c in "abc"]
        burst = [("f", f"{d}/{d * 150}{i:02d}.e") for d in "ab" for i in range(12)]
        for name, items in (("small", small), ("long", long_), ("burst", burst)):
            root = check.tree(name, items)
            rels = records(root, 0)
            attrs = ATTRS * (1 if name == "small" else 12)
            rows = [[value(r, a) for a in attrs] for r in rels]
            for num in (2, 3):
                for term, argv in (("\n", []), ("\0", ["-0"])):
                    jobs.append((f"{name} {term!r} j{num}", scenario(
                        ["--no-cache", f"-j{num}", "type=f", *starts(root), "-o", ",".join(attrs)] + argv,
                        cwd=root, options=options),
                        judge_records([" ".join(r) for r in rows], term),
                        2 if name == "small" and num == 2 else deep, {}))
                jobs.append((f"{name} sep j{num}", scenario(
                    ["--no-cache", f"-j{num}", "type=f", *starts(root), "-o", ",".join(attrs), "--sep", "\\t|"],
                    cwd=root, options=options),
                    judge_records(["\t|".join(r) for r in rows], "\n"), 1, {}))
                absolute = [{a: value(os.path.join(root, r), a) for a in attrs}
                            for r in rels]
                jobs.append((f"{name} jsonl j{num}", scenario(
                    ["--no-cache", f"-j{num}", "type=f", *starts(root), "-o", ",".join(attrs), "--jsonl"],
                    cwd=root, options=options),
                    judge_jsonl(absolute), deep if num == 2 else 1, {}))
        # long JSON records need more than one write each
        root = check.tree("verylong", [("f", "/".join([c * 250] * 14) + f"/{c}") for c in "ab"])
        attrs = ["path", "name", "dir", "pathx"]
        expected = [{a: value(os.path.join(root, r), a) for a in attrs}
                    for r in records(root, 0)]
        jobs.append(("very long jsonl j2", scenario(
            ["--no-cache", "-j2", "type=f", *starts(root), "-o", ",".join(attrs), "--jsonl"], cwd=root,
            options=options), judge_jsonl(expected), deep, {}))
        explore_scenarios(check, jobs)
        conformance(check)
        check.report.assumptions.append("write(2) of up to 4096 bytes to a pipe is atomic, longer "
                                        "ones are split there")
        return check.report.finish(
            rule="every execution with at most the given number of scheduler deviations at the "
                 "operations on shared objects, which include each write(2) to standard output")


def conformance(check):
    """Real processes writing to a real pipe."""
    import subprocess
    env = clean_env(check.scratch.home, {"PYTHONPATH": REPO})
    for name in ("small", "long", "burst"):
        root = os.path.join(check.scratch.path, "trees", name)
        attrs = ATTRS * (1 if name == "small" else 12)
        expected = [" ".join(value(r, a) for a in attrs) for r in records(root, 0)]
        for _ in range(5):
            proc = subprocess.run([PYTHON, "-m", "ff", "--no-cache", "-j3", "type=f", *starts(root),
                                   "-o", ",".join(attrs)], cwd=root, env=env, capture_output=True,
                                  timeout=100)
            check.report.count("traces_validated_against_impl")
            message = judge_records(expected, "\n")({
                "verdict": ("exit", ""), "out": proc.stdout, "code": proc.returncode, "err": ""})
            if message:
                check.report.violation(f"real run, {name}: {message}",
                                       {"err": proc.stderr.decode()[-1000:]})
