"""Template process: imports the code under test once, then runs executions of it on request.

Started by ffmc.pool as `python [-O] -m ffmc.template <json options>`; requests and results are
pickles on stdin/stdout.
"""

import os
import sys
import json
import pickle
import struct
import shutil
import signal
import resource


def read_msg(fd):
    head = b""
    while len(head) < 8:
        data = os.read(fd, 8 - len(head))
        if not data:
            return None
        head += data
    size, = struct.unpack("<Q", head)
    chunks = []
    while size:
        data = os.read(fd, min(size, 1 << 20))
        if not data:
            return None
        chunks.append(data)
        size -= len(data)
    return pickle.loads(b"".join(chunks))


def write_msg(fd, obj):
    data = pickle.dumps(obj, 4)
    data = struct.pack("<Q", len(data)) + data
    view = memoryview(data)
    while view:
        view = view[os.write(fd, view[:1 << 20]):]


def cli_body(scenario):
    def body():
        import runpy
        setup_env(scenario)
        sys.argv = ["ff"] + list(scenario["argv"])
        runpy.run_path(os.path.join(scenario["repo"], "ff", "__main__.py"), run_name="__main__")
    return body


def func_body(scenario):
    """Run a Python function given as source text (used for the API and for multi-step bodies)."""
    def body():
        setup_env(scenario)
        ns = {"__name__": "__body__", "scenario": scenario, "sys": sys, "os": os}
        exec(compile(scenario["source"], scenario.get("source_name", "<body>"), "exec"), ns)
    return body


def setup_env(scenario):
    os.chdir(scenario["cwd"])
    for key, value in (scenario.get("env") or {}).items():
        if value is None:
            os.environ.pop(key, None)
        else:
            os.environ[key] = value
    if scenario.get("umask") is not None:
        os.umask(scenario["umask"])
    if scenario.get("uid"):
        os.setgroups([])
        os.setgid(scenario["uid"])
        os.setuid(scenario["uid"])
    if scenario.get("prelude"):
        ns = {"scenario": scenario}
        exec(compile(scenario["prelude"], "<prelude>", "exec"), ns)
    from . import client
    if os.scandir is client.fs_scandir:
        client._FS.root = os.getcwd()
        client._FS.private = client._FS.root != os.path.realpath(scenario["cwd"])


def make_call_spec(spec):
    if spec is None:
        return lambda args: {}

    def call_spec(args):
        if spec.get("e2big_args") is not None and len(args) > spec["e2big_args"]:
            return {"errno": 7}
        if spec.get("e2big_bytes") is not None and \
                sum(len(os.fsencode(a)) + 1 for a in args) > spec["e2big_bytes"]:
            return {"errno": 7}
        for needle, result in spec.get("rules", ()):
            if any(needle in a for a in args):
                return result
        return spec.get("default", {})
    return call_spec


SNAPSHOTS = {}


def get_snapshot(key, body, options, request):
    """Return a snapshot execution for `key` (created on demand, at most four are kept)."""
    from . import server
    if key not in SNAPSHOTS:
        while len(SNAPSHOTS) >= 4:
            old = SNAPSHOTS.pop(next(iter(SNAPSHOTS)))
            if old is not None:
                old._cleanup()
        base = server.Execution(body, options, (), trace=True)
        base.run(snapshot=True)
        SNAPSHOTS[key] = base if base.snapshot else None
    return SNAPSHOTS[key]


def run_request(request):
    from . import server
    scenario = request["scenario"]
    options = dict(scenario.get("options") or {})
    options["call_spec"] = make_call_spec(scenario.get("calls"))
    body = (func_body if "source" in scenario else cli_body)(scenario)
    ex = server.Execution(body, options, request.get("deviations") or (),
                          trace=request.get("trace", False))
    try:
        if request.get("snapshot") and not options.get("no_snapshot"):
            base = get_snapshot(request["snapshot"], body, options, request)
            if base is not None:
                ex.run_from(base)
            else:
                ex.run()
        else:
            ex.run()
    except server.HarnessError as exc:
        return {"harness_error": str(exc)}
    finally:
        if options.get("work") and ex.main_pid is not None:
            shutil.rmtree(os.path.join(options["work"], str(ex.main_pid)), ignore_errors=True)
    keep = {
        "verdict": ex.verdict, "code": ex.main_status, "out": ex.output, "raw_out": ex.stdout,
        "err": ex.stderr, "steps": ex.steps, "vtime": ex.now, "calls": ex.calls,
        "faults": ex.faults, "deaths": ex.deaths, "body_done": ex.body_done,
        "main_code": ex.main_code,
    }
    if request.get("choices"):
        keep["choices"] = ex.choices
    if request.get("writes"):
        keep["writes"] = ex.writes
    if request.get("trace"):
        keep["log"] = ex.log
    return keep


def preload_plugins():
    """Import the plugins once here instead of in every execution (only a speed-up: if the code does
       not look as expected, every execution loads them itself)."""
    import types
    try:
        from libff.registry import Registry
        from libff.logger import Logger
        if Registry.registered_plugins or Registry.attributes:
            return
        reg = Registry.__new__(Registry)
        reg.context = types.SimpleNamespace(logger=Logger(), global_lock=None)
        reg.load_plugins()
    except BaseException:
        try:
            Registry.registered_plugins.clear()
            Registry.registered_types.clear()
            Registry.attributes.clear()
        except BaseException:
            pass


def main():
    cfg = json.loads(sys.argv[1])
    if cfg.get("cpu") is not None:
        # explorer and explored processes alternate strictly: one core avoids costly wake-ups
        try:
            cpus = sorted(os.sched_getaffinity(0))
            os.sched_setaffinity(0, {cpus[cfg["cpu"] % len(cpus)]})
        except OSError:
            pass
    # stdin/stdout are the control channel, keep them away from the code under test
    rfd = os.dup(0)
    wfd = os.dup(1)
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    if cfg.get("log"):
        os.dup2(os.open(cfg["log"], os.O_WRONLY | os.O_CREAT | os.O_APPEND), 2)
    os.set_inheritable(rfd, False)
    os.set_inheritable(wfd, False)

    from . import client
    client.install(cfg.get("install") or {})
    sys.path.insert(0, cfg["repo"])
    import runpy, sqlite3, hashlib, tarfile, shlex, pickle as _p, tempfile, subprocess, pwd, grp  # noqa
    for name in ("magic", "pymediainfo", "xattr", "pyxattr", "cython"):
        try:
            __import__(name)
        except Exception:
            pass
    import libff.main, libff.find, libff.processing, libff.walk  # noqa
    try:
        import ff  # noqa
    except Exception:
        pass
    if cfg.get("preload"):
        preload_plugins()
    client.patch_libff()
    signal.signal(signal.SIGPIPE, signal.SIG_IGN)
    import gc
    gc.collect()
    gc.freeze()
    gc.disable()

    while True:
        requests = read_msg(rfd)
        if requests is None:
            return
        results = []
        for request in requests:
            try:
                results.append(run_request(request))
            except Exception as exc:       # pragma: no cover
                import traceback
                results.append({"harness_error": traceback.format_exc()})
        write_msg(wfd, results)


if __name__ == "__main__":
    main()
