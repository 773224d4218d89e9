"""A pool of template processes (one per core and interpreter mode)."""

import os
import sys
import json
import queue
import shutil
import tempfile
import threading
import subprocess

from . import template

REPO = os.environ.get("FFMC_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class HarnessError(Exception):
    pass


def clean_env(home, extra=None):
    env = {
        "PATH": "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "HOME": home, "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "TZ": "UTC",
        "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONPYCACHEPREFIX": os.path.join(home, "pycache"),
        "GIT_CONFIG_NOSYSTEM": "1", "GIT_CONFIG_GLOBAL": "/dev/null",
    }
    env.update(extra or {})
    return env


class Scratch:
    """The scratch directory of a check; everything that is created lives below it."""

    def __init__(self, tag="ffmc"):
        base = os.environ.get("FFMC_TMP") or tempfile.gettempdir()
        self.path = os.path.realpath(tempfile.mkdtemp(prefix=f"{tag}-", dir=base))
        os.chmod(self.path, 0o755)
        self.home = os.path.join(self.path, "home")
        os.makedirs(os.path.join(self.home, ".cache"))

    def sub(self, name):
        path = os.path.join(self.path, name)
        os.makedirs(path, exist_ok=True)
        return path

    def close(self):
        subprocess.run(["chmod", "-R", "u+rwx", self.path], stderr=subprocess.DEVNULL)
        shutil.rmtree(self.path, ignore_errors=True)


class Template:
    def __init__(self, scratch, optimize=False, install=None, hashseed="0", extra_env=None,
                 preload=True, cpu=None):
        env = clean_env(scratch.home, {"PYTHONPATH": HERE, "PYTHONHASHSEED": hashseed})
        env.update(extra_env or {})
        # let bytecode be cached in the scratch directory: faster plugin loading
        env.pop("PYTHONDONTWRITEBYTECODE")
        cfg = {"repo": REPO, "install": install or {}, "preload": preload, "cpu": cpu,
               "log": os.path.join(scratch.path, "template.log")}
        argv = [PYTHON] + (["-" + "O" * int(optimize)] if optimize else []) + ["-m", "ffmc.template", json.dumps(cfg)]
        self.proc = subprocess.Popen(argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                     cwd=scratch.path, env=env, bufsize=0)
        self.log = cfg["log"]

    def run(self, requests):
        try:
            template.write_msg(self.proc.stdin.fileno(), requests)
        except BrokenPipeError:
            pass
        results = template.read_msg(self.proc.stdout.fileno())
        if results is None:
            try:
                log = open(self.log, errors="replace").read()[-3000:]
            except OSError:
                log = ""
            raise HarnessError(f"template died:\n{log}")
        return results

    def close(self):
        self.proc.stdin.close()
        try:
            self.proc.wait(5)
        except subprocess.TimeoutExpired:
            self.proc.kill()
            self.proc.wait()
        self.proc.stdout.close()


class Pool:
    """Run requests on `num` templates; results come back in the order of the requests."""

    def __init__(self, scratch, num=None, optimize=False, install=None, hashseed="0",
                 extra_env=None, preload=True, first_cpu=0):
        self.scratch = scratch
        self.num = num or int(os.environ.get("FFMC_JOBS", "0")) or min(8, os.cpu_count() or 1)
        self.args = dict(optimize=optimize, install=install, hashseed=hashseed,
                         extra_env=extra_env, preload=preload)
        self.templates = [Template(scratch, cpu=first_cpu + i, **self.args) for i in range(self.num)]

    def close(self):
        for tmpl in self.templates:
            tmpl.close()

    def map(self, requests, batch=None, progress=None):
        """Run all requests (list), return the list of results."""
        requests = list(requests)
        results = [None] * len(requests)
        if batch is None:
            batch = max(1, min(32, len(requests) // (self.num * 4) or 1))
        todo = queue.SimpleQueue()
        for pos in range(0, len(requests), batch):
            todo.put(pos)
        errors = []

        def work(tmpl):
            while not errors:
                try:
                    pos = todo.get_nowait()
                except queue.Empty:
                    return
                try:
                    results[pos:pos + batch] = tmpl.run(requests[pos:pos + batch])
                except Exception as exc:
                    errors.append(exc)
                    return

        threads = [threading.Thread(target=work, args=(t,)) for t in self.templates]
        for thread in threads:
            thread.start()
        for thread in threads:
            thread.join()
        if errors:
            raise errors[0]
        return results


def scenario(argv=None, cwd=None, source=None, env=None, options=None, calls=None, **extra):
    """Build a scenario dictionary."""
    result = {"repo": REPO, "cwd": cwd}
    if argv is not None:
        result["argv"] = argv
    if source is not None:
        result["source"] = source
    if env:
        result["env"] = env
    if options:
        result["options"] = options
    if calls is not None:
        result["calls"] = calls
    result.update(extra)
    return result
