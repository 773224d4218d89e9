"""C02: every search terminates, whatever the schedule and whatever fails."""

from .common import *

# virtual seconds within which a run has to be over: failures are looked for every 10 seconds, and
# processes are waited for up to 10 seconds
LIMIT = 60

API = """
from ff import Find
for entry in Find({args}, cache=None, jobs=2):
    print(entry["path"])
"""

TREE = [("f", "a/f1"), ("f", "a/b/f2"), ("d", "c"), ("f", "g")]


def judge(result):
    message = finished(result)
    if message:
        return f"{message}; faults {result['faults']}"
    if result["vtime"] > LIMIT:
        return f"program takes {result['vtime']:.0f}s to end; faults {result['faults']}"
    if result["code"] is None or result["code"] < 0:
        return f"main process ended abnormally: {result['code']}"
    return None


def scenarios(check):
    root = check.tree("tiny", TREE)
    boom = check.tree("boom", TREE + [("f", "a/boom1"), ("f", "c/boom2")])
    wide = check.tree("wide", [("f", f"d{i:02d}/f") for i in range(12)])
    files = check.tree("files", tree.files("f", 6))
    env = {"FF_PLUGIN_DIRS": os.path.join(os.path.dirname(__file__), "plugins")}
    plain = {}
    plugins = {"extra_env": env}
    sub = {"install": {"subprocess": True}}
    jobs = []

    fast = {"timeout_scale": 20, "max_steps": 20000}

    def add(name, argv, cwd, bound, pool, options=None, calls=None, source=None, **extra):
        jobs.append((f"{name}: {source or ' '.join(argv)}",
                     scenario(None if source else ["--no-cache"] + argv, cwd=cwd, source=source,
                              options=options, calls=calls),
                     judge, bound, pool, extra))

    deep = 2 if check.thorough else 1
    # schedules, no failures
    for argv in (["-j1"], ["-j2"], ["-j2", "-S"], ["-j3", "--count"], ["-j2", "--json"]):
        add("no failure", argv, root, deep, plain)
    add("no failure", ["-j2"], wide, 1, plain)
    add("no failure", [], root, deep, plain, source=API.format(args="output=['path']"))
    add("no failure", ["-j2", "-x", "true"], root, deep, sub)
    add("no failure", ["-j2", "-S", "-x", "true"], root, deep, sub)

    # exceptions in processes
    for argv in (["-j1"], ["-j2"], ["-j2", "-S"], ["-j2", "--jsonl"], ["-j2", "-x", "true"]):
        add("exception", ["boom.num=1"] + argv, boom, deep if "-x" not in argv else 1,
            {**plugins, **(sub if "-x" in argv else {})})
    add("exception", [], boom, 1, plugins, source=API.format(args="'boom.num=1', output=['path']"))
    add("exception in main process", ["-j2", "-S", "boom.num"], boom, 1, plugins)

    # SIGKILL, SIGINT and a closed pipe at every point, alone and with one more deviation
    for argv in (["-j1"], ["-j2"], ["-j2", "-S"], ["-j2", "-x", "true"],
                 ["-j2", "-S", "-x", "true"], ["-j2", "--json"], ["-j1", "--count"]):
        pool = sub if "-x" in argv else plain
        add("kill", argv, root, 1, pool, {**fast, "alternatives": "k"})
        add("interrupt", argv, root, 1, pool, {"alternatives": "i"})
    add("kill+schedule", ["-j2"], root, 2, plain, {**fast, "alternatives": "kys"},
        restrict=one_fault if check.thorough else one_fault_get)
    add("interrupt+schedule", ["-j2", "-S"], root, 2, plain, {"alternatives": "iysd"},
        restrict=one_fault if check.thorough else one_fault_get)
    add("interrupt+exception", ["-j1", "boom.num=1"], boom, 2, plugins, {"alternatives": "iys"},
        restrict=one_fault)
    for argv in (["-j1"], ["-j2"], ["-j2", "--jsonl"], ["-j2", "-S"], ["-j2", "--json"]):
        add("broken pipe", argv, root, 2 if check.thorough and "-S" not in argv else 1, plain,
            {"vstdout": True, "alternatives": "pys" if "-S" not in argv else "p"})

    # failing commands
    calls = {"default": {"code": 0, "duration": 0.05}, "rules": [["f1", {"code": 1}],
                                                              ["f2", {"code": 1}]]}
    for halt in ("never", "soon", "now"):
        for argv in (["-j1"], ["-j2"], ["-j2", "-S"]):
            add("failing commands", argv + ["--halt", halt, "-x", "cmd"], root, 1, sub, calls=calls)
    long = {"default": {"code": 0, "duration": 3}, "rules": [["f000", {"code": 1}]]}
    for argv in (["-j2"], ["-j2", "-S"]):
        add("failing commands", argv + ["--halt", "now", "-x", "cmd"], files, 1, sub, calls=long)
    add("failing commands+interrupt", ["-j2", "--halt", "soon", "-x", "cmd"], root, 1, sub,
        {"alternatives": "i"}, calls=calls)
    explore_scenarios(check, jobs, outcome=lambda r: (r["verdict"][0], r["code"], hash(r["out"]),
                                                      tuple(r["faults"])))


def one_fault(dev, choice, alt):
    """Exactly one fault, the other deviation is one of the schedule."""
    if not dev:
        return True
    return (alt in "kip") != (dev[-1][1] in "kip")


def one_fault_get(dev, choice, alt):
    """The same, restricted to the operations at which processes wait for each other."""
    if alt not in "kip" and choice[4] not in ("q_get", "b_wait", "b_enter", "q_put"):
        return False
    return one_fault(dev, choice, alt)


def main():
    with Check("C02") as check:
        scenarios(check)
        conformance(check)
        check.report.assumptions += [
            "a killed process does not hold the semaphore inside a multiprocessing primitive",
            "virtual time advances only when no process can go on"]
        return check.report.finish(
            rule="every execution with the given number of deviations of the scheduler and faults "
                 "(SIGKILL of a worker, SIGINT of the main process, EPIPE, exceptions in plugins, "
                 "failing commands) at every operation on a shared object")


def conformance(check):
    """The real program with real processes, killed for real."""
    import subprocess
    import signal
    env = clean_env(check.scratch.home, {"PYTHONPATH": REPO, "FF_PLUGIN_DIRS":
                    os.path.join(os.path.dirname(__file__), "plugins")})
    root = os.path.join(check.scratch.path, "trees", "boom")
    for argv in (["-j2"], ["-j2", "-S"], ["-j2", "boom.num=1"], ["-j3", "-x", "true"],
                 ["-j2", "--halt", "soon", "-x", "false"], ["-j2", "--halt", "now", "-x", "false"],
                 ["-j2", "-S", "-x", "false"]):
        try:
            subprocess.run([PYTHON, "-m", "ff", "--no-cache"] + argv, cwd=root, env=env,
                           capture_output=True, timeout=100)
        except subprocess.TimeoutExpired:
            check.report.violation(f"real run of {argv} does not end", {"argv": argv})
        check.report.count("traces_validated_against_impl")
