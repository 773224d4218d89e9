"""Small file trees.

A tree is a list of items: ("d", path), ("f", path, content), ("l", path, target), ("p", path) with
an optional trailing dict of {"mode":, "mtime":}.
"""

import os
import shutil


# 2100-01-01
FUTURE = 4102444800 * 10 ** 9


def unread(mtime_ns):
    """An access time that reading does not change (it is behind the modification time)."""
    return max(FUTURE, mtime_ns + 86400 * 10 ** 9)


def settle(root):
    """Set the access times to the future, so that (with relatime) reading does not change them."""
    for dirpath, dirnames, filenames in os.walk(root):
        for name in dirnames + filenames + [""]:
            path = os.path.join(dirpath, name)
            status = os.lstat(path)
            os.utime(path, ns=(unread(status.st_mtime_ns), status.st_mtime_ns), follow_symlinks=False)


def build(root, items):
    """Create the tree below `root` (which is created if necessary); returns root."""
    os.makedirs(root, exist_ok=True)
    late = []
    for item in items:
        attrs = item[-1] if isinstance(item[-1], dict) else {}
        args = item[:-1] if attrs else item
        kind, path = args[0], os.path.join(root, args[1])
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if kind == "d":
            os.makedirs(path, exist_ok=True)
        elif kind == "f":
            content = args[2] if len(args) > 2 else b""
            if isinstance(content, str):
                content = content.encode("utf-8", "surrogateescape")
            with open(path, "wb") as fobj:
                fobj.write(content)
        elif kind == "l":
            os.symlink(args[2], path)
        elif kind == "p":
            os.mkfifo(path)
        elif kind == "s":
            import socket
            cwd = os.getcwd()
            os.chdir(os.path.dirname(path))
            try:
                sock = socket.socket(socket.AF_UNIX)
                sock.bind(os.path.basename(path))
                sock.close()
            finally:
                os.chdir(cwd)
        if attrs:
            late.append((path, attrs))
    settle(root)
    for path, attrs in late:
        if "mtime" in attrs:
            os.utime(path, ns=(unread(int(attrs["mtime"] * 10 ** 9)), int(attrs["mtime"] * 10 ** 9)), follow_symlinks=False)
        if "mode" in attrs and not os.path.islink(path):
            os.chmod(path, attrs["mode"])
    return root


def files(prefix, num, content=""):
    return [("f", f"{prefix}{i:03d}", content) for i in range(num)]


def walk(root):
    """All paths below root, relative to it: the reference for `everything`."""
    result = []
    for dirpath, dirnames, filenames in os.walk(root):
        for name in dirnames + filenames:
            result.append(os.path.relpath(os.path.join(dirpath, name), root))
    return sorted(result)


def remove(root):
    shutil.rmtree(root, ignore_errors=True)
