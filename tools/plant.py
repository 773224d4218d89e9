#!/usr/bin/env python3
"""Make and verify a planted bug: plant.py SPEC.py  or verify again: plant.py --verify ID [--check CHECK].

SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (the body of main(tmp, ff))."""

import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"

HEAD = '''import os, sys, subprocess, tempfile, textwrap, json, time, signal, threading

REPO = os.getcwd()
PYTHON = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


class Result:
    def __init__(self, code, out, err):
        self.code, self.out, self.err = code, out, err
        self.lines = sorted(out.split("\\n")[:-1])


def environment(tmp, env=None):
    base = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "FF_", "LS_COLORS"))}
    home = os.path.join(tmp, "home")
    os.makedirs(os.path.join(home, ".cache"), exist_ok=True)
    base.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", HOME=home, LANG="C.UTF-8", TZ="UTC")
    base.pop("XDG_CACHE_HOME", None)
    base.update(env or {})
    return base


def make_ff(tmp):
    def ff(*args, cwd=None, env=None, timeout=100, cache=False, python=()):
        """Run the program; the status is 'timeout' if it does not end."""
        argv = [PYTHON, *python, "-m", "ff", *([] if cache else ["--no-cache"]), *args]
        proc = subprocess.Popen(argv, cwd=cwd or tmp, env=environment(tmp, env), stdin=subprocess.DEVNULL,
                stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="surrogateescape",
                start_new_session=True)
        try:
            out, err = proc.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(proc.pid, signal.SIGKILL)
            out, err = proc.communicate()
            return Result("timeout", out, err)
        return Result(proc.returncode, out, err)
    return ff


def write(path, content=""):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as fobj:
        fobj.write(textwrap.dedent(content))
    return path


'''

TAIL = '''

if __name__ == "__main__":
    with tempfile.TemporaryDirectory() as tmp:
        tmp = os.path.realpath(tmp)
        try:
            main(tmp, make_ff(tmp))
        except AssertionError as exc:
            print("FAILED:", exc)
            sys.exit(1)
    print("ok")
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def verify(ident, check=None, skip_tests=False):
    path = os.path.join(HERE, "seeded", ident)
    meta = json.load(open(os.path.join(path, "meta.json")))
    patch = os.path.join(path, "patch.diff")
    assert not sh(["git", "-C", REPO, "status", "--porcelain"]).stdout, "repo not clean"
    clean = sh(["bash", os.path.join(path, "demo.sh")], cwd=REPO)
    ok = clean.returncode == 0
    print(ident, "clean demo:", clean.returncode, clean.stdout[-300:], clean.stderr[-500:])
    proc = sh(["git", "-C", REPO, "apply", patch])
    if proc.returncode:
        print(proc.stderr)
        return False
    try:
        if not skip_tests:
            build = sh(["bash", "/opt/vp/build.sh"])
            print("build", build.returncode, build.stderr[-300:])
            sh(["bash", "/opt/vp/test.sh", "/tmp/plant.json"])
            base = json.load(open("/opt/vp/BASELINE.json"))
            got = set(json.load(open("/tmp/plant.json"))["passed"])
            lost = [t for t in base["stable"] if t not in got]
            print("lost tests", lost)
            ok = ok and not build.returncode and not lost
        demo = sh(["bash", os.path.join(path, "demo.sh")], cwd=REPO)
        print("patched demo:", demo.returncode, demo.stdout[-300:], demo.stderr[-300:])
        ok = ok and demo.returncode != 0
        for name in ([check] if check else [meta["property"]]):
            if os.path.exists(os.path.join(HERE, "checks", name.lower() + ".py")):
                env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
                proc = sh([os.path.join(HERE, "check"), name], cwd=HERE, env=env)
                hits = [l for l in proc.stdout.splitlines() if l.startswith("VIOLATION")]
                print(f"check {name}: status {proc.returncode}, {len(hits)} violations",
                      "CAUGHT" if proc.returncode == 1 and hits else "MISSED")
                print("\n".join(proc.stdout.splitlines()[:3])[:700], proc.stderr[-800:])
    finally:
        subprocess.run(["git", "-C", REPO, "checkout", "-q", "--", "."], check=True)
    print(ident, "COUNTS" if ok else "DOES NOT COUNT")
    return ok


def make(spec_path):
    spec = {}
    exec(open(spec_path).read(), spec)
    path = os.path.join(HERE, "seeded", spec["ID"])
    os.makedirs(path, exist_ok=True)
    assert not sh(["git", "-C", REPO, "status", "--porcelain"]).stdout, "repo not clean"
    try:
        for name, old, new in spec["EDITS"]:
            full = os.path.join(REPO, name)
            text = open(full).read()
            assert text.count(old) == 1, (name, old, text.count(old))
            open(full, "w").write(text.replace(old, new))
        diff = sh(["git", "-C", REPO, "diff"]).stdout
    finally:
        subprocess.run(["git", "-C", REPO, "checkout", "-q", "--", "."], check=True)
    open(os.path.join(path, "patch.diff"), "w").write(diff)
    demo = HEAD + "def main(tmp, ff):\n" + "\n".join(
        "    " + l if l else "" for l in spec["DEMO"].strip("\n").splitlines()) + "\n" + TAIL
    open(os.path.join(path, "demo.py"), "w").write(demo)
    open(os.path.join(path, "demo.sh"), "w").write(
        '#!/bin/bash\nP=/opt/venv/bin/python; [ -x "$P" ] || P=python3\nexec "$P" -B "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(path, "demo.sh"), 0o755)
    json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"],
               "what_it_breaks": spec["BREAKS"]}, open(os.path.join(path, "meta.json"), "w"), indent=1)
    # Every removed or changed line must be one of the original repository.
    base = sh(["git", "-C", REPO, "rev-list", "--max-parents=0", "HEAD"]).stdout.split()
    for name, old, _ in spec["EDITS"]:
        base_text = sh(["git", "-C", REPO, "show", f"c0d55ac:{name}"]).stdout.splitlines()
        for line in diff.splitlines():
            if line.startswith("-") and not line.startswith("---") and line[1:] not in base_text:
                print("NOTE: changed line is not original:", line)
    return spec["ID"]


if __name__ == "__main__":
    if sys.argv[1] == "--verify":
        check = sys.argv[sys.argv.index("--check") + 1] if "--check" in sys.argv else None
        sys.exit(not verify(sys.argv[2], check, "--skip-tests" in sys.argv))
    results = {}
    for name in sys.argv[1:]:
        ident = make(name)
        results[ident] = verify(ident)
    print(results)
