"""What is true about the entries of a tree, straight from the operating system."""

import grp
import errno
import os
import pwd
import stat
import time

KINDS = {stat.S_IFREG: "file", stat.S_IFDIR: "directory", stat.S_IFLNK: "symlink",
         stat.S_IFIFO: "fifo", stat.S_IFSOCK: "socket", stat.S_IFCHR: "char", stat.S_IFBLK: "block"}

TOTALS = ("size", "vz", "vd")


def user(uid):
    try:
        return pwd.getpwuid(uid).pw_name
    except KeyError:
        return ""


def group(gid):
    try:
        return grp.getgrgid(gid).gr_name
    except KeyError:
        return ""


def extension(name):
    """The extension without the dot; dots at the start do not begin one."""
    rest = name.lstrip(".")
    stem, dot, ext = rest.rpartition(".")
    return ext if dot and stem else ""


def without_extension(name):
    ext = extension(name)
    if ext:
        return name[:-len(ext) - 1]
    # a single dot at the end is cut off, too
    if name.endswith(".") and name.lstrip(".")[:-1]:
        return name[:-1]
    return name


def attributes(cwd, start, rel, follow=False, absolute=False):
    """The file attributes of the entry `rel` below the start directory `start` (relative to cwd)."""
    root = os.path.normpath(os.path.join(cwd, start)) if absolute else start
    full = os.path.join(cwd, start, rel)
    path = rel if root == "." else os.path.join(root, rel)
    name = os.path.basename(rel)
    status = os.stat(full) if follow else os.lstat(full)
    kind = KINDS[stat.S_IFMT(status.st_mode)]
    directory = os.path.dirname(path)
    values = {
        "path": path, "root": root, "relpath": rel, "dir": directory, "name": name,
        "ext": extension(name), "pathx": os.path.join(directory, without_extension(name)),
        "namex": without_extension(name), "mode": status.st_mode, "type": kind,
        "device": status.st_dev, "inode": status.st_ino,
        "samedev": status.st_dev == os.stat(os.path.join(cwd, start)).st_dev,
        "depth": rel.count("/"),
        "exec": kind not in ("directory", "symlink") and bool(status.st_mode & 0o111),
        "size": status.st_size if kind == "file" else 0,
        "mtime": status.st_mtime_ns // 10**9, "ctime": status.st_ctime_ns // 10**9,
        "atime": status.st_atime_ns // 10**9, "time": status.st_mtime_ns // 10**9,
        "perm": status.st_mode & 0o7777, "links": status.st_nlink, "uid": status.st_uid,
        "gid": status.st_gid, "user": user(status.st_uid), "group": group(status.st_gid),
        "hide": name.startswith("."),
        "hidden": any(part.startswith(".") for part in path.split("/")),
        "empty": kind == "file" and status.st_size == 0 or
        kind == "directory" and not os.listdir(full),
        "broken": False,
    }
    if kind == "symlink":
        values["link"] = os.readlink(full)
        values["target"] = os.path.realpath(full)
        values["broken"] = not os.path.exists(full)
        try:
            os.stat(full)
        except OSError as exc:
            if exc.errno == errno.ELOOP:
                values["target"] = None  # a link to itself has no target, any name is as good
    return values


PATHS = ("path", "root", "relpath", "dir", "pathx", "namex", "link", "target", "vp")
MODES = ("mode", "perm", "vm")
SIZES = ("size", "vz")
TIMES = ("mtime", "ctime", "atime", "time", "vt")
NUMBERS = ("device", "inode", "depth", "links", "uid", "gid", "vn", "vd") + SIZES + TIMES


def human_size(value, si=False):
    """Only for sizes below one megabyte; see C08 for the others."""
    base = 1000 if si else 1024
    if value < base:
        return str(value)
    number = round(value / base, 1)
    assert number < base
    return (f"{number:.1f}" if number < 10 else str(int(number))) + ("KB" if si else "K")


def human_duration(value):
    hours, rest = divmod(value, 3600)
    minutes, seconds = divmod(rest, 60)
    return f"{hours}h{minutes:02d}m{seconds:02d}s" if hours else f"{minutes}m{seconds:02d}s"


def text(name, value, modifier=None, si=False):
    """The value as it is printed."""
    if isinstance(value, bool):
        return "true" if value else "false"
    if isinstance(value, (list, set)):
        return ",".join(sorted(value) if isinstance(value, set) else value)
    if isinstance(value, str):
        return value
    if modifier == "x" and name in NUMBERS + MODES:
        return format(value, "x")
    if modifier == "o" and name in NUMBERS + MODES:
        return format(value, "o")
    if modifier == "h":
        if name in SIZES:
            return human_size(value, si)
        if name in TIMES:
            return time.strftime("%Y-%m-%d %H:%M:%S", time.localtime(value))
        if name in MODES:
            return stat.filemode(value)
        if name == "vd":
            return human_duration(value)
    return str(value)
