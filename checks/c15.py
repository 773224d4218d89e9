"""C15: the cache never changes a result."""

import hashlib
import itertools
import shutil

from .common import *

SEP = "\x1f"
T = 1_500_000_000 * 10 ** 9
SECOND = 10 ** 9

# What a file can be at one point of its history: (kind, content, modification time).  Two different
# contents always differ in size or modification time.
CONFIGS = {
    "absent": None, "a": ("file", "a", T), "b": ("file", "b", T + SECOND), "cc": ("file", "cc", T),
    "half": ("file", "d", T + SECOND // 2), "nano": ("file", "e", T + 1), "none": ("file", "!", T + 2 * SECOND),
    "raise": ("file", "?x", T + 3 * SECOND), "null": ("file", "0", T + 4 * SECOND), "empty": ("file", "", T + 5 * SECOND),
    "dir": ("directory", "", T), "link1": ("symlink", "../targets/one", T), "link2": ("symlink", "../targets/two", T),
    "dead": ("symlink", "../targets/none", T),
}
TARGETS = {"one": ("ONE", T + 7 * SECOND), "two": ("TWO", T + 8 * SECOND)}

# name: (plugin directory, arguments, fields, follow links)
A = ["ca.text", "ca.count", "ca.some"]
ACTIONS = {
    "A": ("plugins", [], A, False), "B": ("plugins", [], ["ca_b.back"], False),
    "AB": ("plugins", [], A + ["ca_b.back", "sha1.sha1"], False), "N": ("plugins2", [], A, False),
    "L": ("plugins", ["-L"], A + ["ca_b.back"], True), "S": ("plugins", ["-S", "ca.text,name"], A, False),
    "H": ("plugins", [], ["sha1.sha1", "md5.md5"], False), "T": ("plugins", ["ca.text~.", "or", "ca.count=0"], A, False),
    "J": ("plugins", ["-j3"], A + ["ca_b.back"], False),
    "C": ("plugins", ["--clean-cache"], None, False),
}


def truth(config, action):
    """The values of a file, by attribute; None if the search does not show it."""
    plugins, _, _, follow = ACTIONS[action]
    if CONFIGS[config] is None:
        return None
    kind, content, _ = CONFIGS[config]
    if kind == "symlink" and follow:
        name = os.path.basename(content)
        if name not in TARGETS:
            return None
        kind, content = "file", TARGETS[name][0]
    values = {"ca_b.back": content[::-1] if kind == "file" else f"<{kind}>"}
    if kind == "file":
        values["sha1.sha1"] = hashlib.sha1(content.encode()).hexdigest()
        values["md5.md5"] = hashlib.md5(content.encode()).hexdigest()
        if content.startswith("0"):
            values["ca.count"] = "0"
        elif not content.startswith(("!", "?")):
            values["ca.text"] = "new " + content.upper() if plugins == "plugins2" else content
            values["ca.count"] = str(len(content))
            values["ca.some"] = ",".join(sorted(set(content)))
    return values


class History:
    """One sequence of searches over files that go through all histories of configurations."""

    def __init__(self, root, sequence, configs, only=None):
        self.sequence = sequence
        self.root = root
        self.files = {}
        for number, history in enumerate(itertools.product(configs, repeat=len(sequence))):
            self.files[f"f{number}"] = history
        self.current = {}
        self.calls = 0
        os.makedirs(os.path.join(root, "files"))
        os.makedirs(os.path.join(root, "targets"))
        for name, (content, mtime) in TARGETS.items():
            self.write(os.path.join(root, "targets", name), ("file", content, mtime))

    @staticmethod
    def write(path, config):
        kind, content, mtime = config
        if kind == "file":
            with open(path, "w") as fobj:
                fobj.write(content)
        elif kind == "directory":
            os.mkdir(path)
        else:
            os.symlink(content, path)
        os.utime(path, ns=(tree.FUTURE, mtime), follow_symlinks=False)

    def change(self, step):
        for name, history in self.files.items():
            config = history[step]
            if self.current.get(name, "absent") == config:
                continue
            path = os.path.join(self.root, "files", name)
            if CONFIGS[self.current.get(name, "absent")] is not None:
                if os.path.isdir(path) and not os.path.islink(path):
                    os.rmdir(path)
                else:
                    os.unlink(path)
            if CONFIGS[config] is not None:
                self.write(path, CONFIGS[config])
            self.current[name] = config

    def scenario(self, step):
        _, argv, fields, _ = ACTIONS[self.sequence[step]]
        argv = ["--cache", os.path.join(self.root, "cache.db"), "-j1"] + argv
        if fields is not None:
            argv += ["-0", f"--sep={SEP}", "-o", ",".join(["name"] + [f + ":n" for f in fields]), "-D", "files"]
        return scenario(argv, cwd=self.root, env={"CHECK_CALLS": os.path.join(self.root, "calls")},
                        options={"max_steps": 4 * 10 ** 6})

    def judge(self, step, result):
        action = self.sequence[step]
        fields = ACTIONS[action][2]
        message = finished(result)
        if message or result["code"] or result["err"]:
            return message or f"status {result['code']} {err(result)[-300:]!r}"
        out = result["out"].decode()
        if fields is None:
            return f"output {out[:100]!r}" if out else None
        got = {}
        for record in out.split("\0")[:-1]:
            name, *values = record.split(SEP)
            if name in got:
                return f"{name} appears twice"
            got[name] = values
        for name, history in self.files.items():
            values = truth(history[step], action)
            if values is not None and action == "T" and not values.get("ca.text") and values.get("ca.count") != "0":
                values = None
            expected = None if values is None else [values.get(f, "") for f in fields]
            if got.get(name) != expected:
                return f"a file that was {', then '.join(history[:step + 1])} has {got.get(name)!r} instead of " \
                       f"{expected!r} for {fields}"
        if len(got) > len(self.files):
            return "unexpected entries"
        return None

    def count_calls(self):
        try:
            with open(os.path.join(self.root, "calls")) as fobj:
                self.calls = sum(1 for _ in fobj)
        except OSError:
            pass
        return self.calls


def run(check, name, sequences, configs, batch=64):
    report = check.report
    pools = {p: check.pool(extra_env={"FF_PLUGIN_DIRS": os.path.join(os.path.dirname(PLUGIN_DIR), p)})
             for p in ("plugins", "plugins2")}
    start = time.monotonic()
    complete = True
    runs = histories = calls = searched = 0
    for pos in range(0, len(sequences), batch):
        if time.monotonic() > check.deadline or report.full:
            complete = report.exhaustive = False
            break
        base = os.path.join(check.scratch.path, "h")
        group = [History(os.path.join(base, str(i)), s, configs) for i, s in enumerate(sequences[pos:pos + batch])]
        failed = set()
        for step in range(len(sequences[0])):
            for history in group:
                history.change(step)
            for plugins, pool in pools.items():
                part = [h for h in group if ACTIONS[h.sequence[step]][0] == plugins]
                if not part:
                    continue
                results = need(pool.map([{"scenario": h.scenario(step)} for h in part]))
                for history, result in zip(part, results):
                    runs += 1
                    report.case((name, history.sequence[:step + 1]), True)
                    report.count("transitions", len(history.files))
                    report.count("traces_validated_against_impl")
                    searched += sum(1 for h in history.files.values() if CONFIGS[h[step]] is not None)
                    message = history.judge(step, result)
                    if message and history not in failed:
                        failed.add(history)
                        report.violation(f"{name}: searches {' '.join(history.sequence[:step + 1])}: {message}", {
                            "sequence": history.sequence[:step + 1], "argv": history.scenario(step)["argv"],
                            "actions": {a: ACTIONS[a] for a in history.sequence}, "configs": {c: CONFIGS[c] for c in configs},
                            "out": result["out"][-1000:], "err": err(result)[-1000:]})
        histories += sum(len(h.files) for h in group)
        calls += sum(h.count_calls() for h in group)
        shutil.rmtree(base)
    report.count("states", histories)
    report.sample({"part": name, "sequence": sequences[-1], "configs": list(configs)})
    report.part(name, {"sequences": len(sequences), "runs": runs, "file_histories": histories, "lookups": searched,
                       "values_computed": calls, "complete": complete, "wall_s": round(time.monotonic() - start, 1)})
    return calls, searched


# (current directory, arguments, directories that are searched)
PLACES = [
    ("d", [], ["d", "d/d"]), ("e", [], ["e", "e/d"]), ("d/d", [], ["d/d"]), ("e/d", [], ["e/d"]), (".", ["-D", "d"], ["d", "d/d"]),
    (".", ["-D", "e"], ["e", "e/d"]), ("e", ["-D", "d"], ["e/d"]), ("d", ["-D", "../e/d"], ["e/d"]), ("e", ["-D", "../d", "-a"], ["d", "d/d"]),
    (".", ["d/"], ["d", "d/d"]), ("e", ["-D", "link"], ["d/d"]), ("d", ["-D", "ROOT/e"], ["e", "e/d"]), ("d/d", ["-D", "..", "-D", "../../e/d"], ["d", "d/d", "e/d"]),
    (".", ["-j3", "-a"], ["d", "d/d", "e", "e/d"]),
]


def places(check):
    """All sequences of searches from different directories, for files that differ in nothing but their place and contents."""
    report = check.report
    root = os.path.join(check.scratch.path, "places")
    contents = {where: f"{number}" for number, where in enumerate(("d", "d/d", "e", "e/d"))}
    for where, content in contents.items():
        os.makedirs(os.path.join(root, where), exist_ok=True)
        History.write(os.path.join(root, where, "a"), ("file", content, T))
    os.symlink("../d/d", os.path.join(root, "e", "link"))
    pool = check.pool(extra_env=PLUGIN_ENV)
    sequences = list(itertools.product(range(len(PLACES)), repeat=3 if check.thorough else 2))
    failed = set()
    for step in range(len(sequences[0])):
        todo = []
        for number, sequence in enumerate(sequences):
            cwd, args, _ = PLACES[sequence[step]]
            db = os.path.join(check.scratch.path, f"places{number}.db")
            todo.append(scenario(["--cache", db, "-j1"] + [a.replace("ROOT", root) for a in args if a != "d/"] +
                                 ["-0", f"--sep={SEP}", "-o", "ca.text:n,sha1.sha1:n"] + [a for a in args if a == "d/"] + ["type=f"], cwd=os.path.join(root, cwd)))
        results = need(pool.map([{"scenario": s} for s in todo]))
        for number, (sequence, result) in enumerate(zip(sequences, results)):
            report.case(("places", sequence[:step + 1]), True)
            report.count("states")
            report.count("transitions", result["steps"])
            message = finished(result)
            got = sorted(result["out"].decode().split("\0")[:-1])
            texts = sorted(contents[w] for w in PLACES[sequence[step]][2])
            expected = [SEP.join((t if t != "0" else "", hashlib.sha1(t.encode()).hexdigest())) for t in texts]
            expected.sort()
            if not message and (got != expected or result["code"] or result["err"]):
                message = f"{got} instead of {expected}, status {result['code']} {err(result)[-200:]!r}"
            if message and number not in failed:
                failed.add(number)
                history = [PLACES[s] for s in sequence[:step + 1]]
                report.violation(f"places: searches {history}: {message}", {"history": history})
    report.part("places", {"sequences": len(sequences), "places": len(PLACES)})


def main():
    with Check("C15") as check:
        places(check)
        thorough = check.thorough
        every = list(CONFIGS)
        few = ["absent", "a", "b", "cc", "half", "none", "dir"]
        actions = list(ACTIONS)

        def sequences(names, length):
            return [s for s in itertools.product(names, repeat=length) if s[-1] != "C" and s[0] != "C"]
        run(check, "two searches", sequences(actions, 2), every)
        run(check, "three searches", sequences(["A", "AB", "N", "L", "C", "S"], 3), few)
        run(check, "three searches, links and special values", sequences(["AB", "C", "L"], 3),
            ["absent", "a", "link1", "link2", "dead", "null", "raise", "nano", "empty"])
        run(check, "four searches", sequences(["A", "C", "AB"], 4), few[:5])
        if thorough:
            run(check, "three searches, all", sequences(actions, 3), few)
            run(check, "four searches with two versions of the plugin", sequences(["A", "N", "C", "S"], 4), few[:5])
            run(check, "five searches", sequences(["A", "C", "B"], 5), ["absent", "a", "cc", "half"])
        return check.report.finish(
            rule="all sequences of searches, updates of a plugin and cleanups up to the depth, over files which go "
                 "through all histories of kinds, contents, sizes and modification times; each search is compared with "
                 "the contents of the files")


if __name__ == "__main__":
    main()
