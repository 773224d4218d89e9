"""Run in a mount namespace of its own: mount file systems, search, and tell what the kernel says."""

import ctypes
import json
import os
import re
import shutil
import stat
import subprocess
import sys

libc = ctypes.CDLL(None, use_errno=True)
FIELDS = ["path", "mpath", "devname", "fstype", "pseudofs", "mount", "samedev", "device"]


def mount(source, target):
    if libc.mount(os.fsencode(source), os.fsencode(target), b"tmpfs", 0, b"size=64k") != 0:
        raise OSError(ctypes.get_errno(), "mount")


def plain(text):
    return re.sub(rb"\\([0-7]{3})", lambda m: bytes([int(m.group(1), 8)]), text)


def truth(path):
    """The mount a path is on; None if an invisible mount makes that hard to tell."""
    rows, order = {}, []
    with open("/proc/self/mountinfo", "rb") as fobj:
        for line in fobj.read().split(b"\n")[:-1]:
            parts = line.split(b" ")
            rest = parts[parts.index(b"-") + 1:]
            rows[parts[0]] = tuple(os.fsdecode(plain(p)) for p in (parts[4], rest[1], rest[0]))
            order.append(parts[0])
    fd = os.open(path, os.O_PATH | os.O_NOFOLLOW)
    try:
        with open(f"/proc/self/fdinfo/{fd}", "rb") as fobj:
            ident = next(line.split()[1] for line in fobj if line.startswith(b"mnt_id:"))
    finally:
        os.close(fd)
    best = None
    for number in order:
        where = rows[number][0]
        if (path + "/").startswith(where.rstrip("/") + "/") and (best is None or len(where) >= len(rows[best][0])):
            best = number
    return rows[ident] if best == ident else None


def fill(directory):
    for name in ("b", "ab", "d"):
        os.makedirs(os.path.join(directory, name), exist_ok=True)
    for name, target in (("l", "b"), ("back", "../ab"), ("self", "d")):
        path = os.path.join(directory, name)
        if not os.path.lexists(path):
            os.symlink(target, path)
    with open(os.path.join(directory, "f"), "w"):
        pass


def expected(base, follow):
    result = {}
    device = os.stat(base).st_dev
    pending = [base]
    while pending:
        directory = pending.pop()
        for name in os.listdir(directory):
            path = os.path.join(directory, name)
            link = os.path.islink(path)
            if follow and not os.path.exists(path):
                continue
            status = os.stat(path) if follow else os.lstat(path)
            is_dir = stat.S_ISDIR(status.st_mode)
            values = {"mount": str(is_dir and os.path.ismount(os.path.realpath(path))).lower(), "samedev": str(status.st_dev == device).lower(),
                      "device": str(status.st_dev)}
            real = os.path.realpath(directory) == directory
            mounted = truth(path) if real and not (follow and link) else None
            if mounted:
                values.update(mpath=mounted[0], devname=mounted[1], fstype=mounted[2],
                              pseudofs=str(mounted[2] in ("tmpfs", "proc", "sysfs", "devpts", "devtmpfs")).lower())
            result[path] = values
            if is_dir and path.count("/") < base.count("/") + 4:
                pending.append(path)
    return result


def main():
    repo, scratch, python = sys.argv[1:4]
    for number, config in enumerate(json.load(sys.stdin)):
        base = os.path.join(scratch, f"m{number}")
        os.makedirs(base)
        names = ["a", "ab", "a b", "a\nb", "a\\b", "a\\040b", "a\tb", "ä", "a#"]
        for name in names:
            fill(os.path.join(base, name))
        os.symlink("a/d", os.path.join(base, "to-d"))
        os.symlink("a", os.path.join(base, "to-a"))
        mounted = []
        try:
            for source, target in config["mounts"]:
                target = os.path.join(base, target)
                mount(source, target)
                mounted.append(target)
                fill(target)
            argv = ["--no-cache", "-j1", "-0", "--sep=\x01", "-d-4", "-o", ",".join(f + ":n" for f in FIELDS), "-D", base, "-I"] + config["options"]
            proc = subprocess.run([python, "-m", "ff"] + argv, cwd=base, capture_output=True, timeout=300, stdin=subprocess.DEVNULL,
                                  env={**os.environ, "PYTHONPATH": repo})
            seen = {}
            for record in os.fsdecode(proc.stdout).split("\0")[:-1]:
                record = dict(zip(FIELDS, record.split("\x01")))
                seen[record["path"]] = record
            message, compared = None, 0
            for path, values in expected(base, "-L" in config["options"]).items():
                if path not in seen:
                    if path.count("/") <= base.count("/") + 2:
                        message = f"{path!r} is missing"
                    continue
                for name, value in values.items():
                    compared += 1
                    if (seen[path][name].rstrip("/") or "/") != (value.rstrip("/") or "/"):
                        message = f"{path[len(base):]!r}: {name} is {seen[path][name]!r} instead of {value!r}"
            if proc.returncode:
                message = f"status {proc.returncode} {proc.stderr[-300:]!r}"
            print(json.dumps({"message": message, "compared": compared}), flush=True)
        finally:
            for target in reversed(mounted):
                libc.umount2(os.fsencode(target), 2)
            shutil.rmtree(base)


if __name__ == "__main__":
    main()
