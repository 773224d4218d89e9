"""C28: the attributes of the plugins that come with ff equal the facts about the files."""

import bz2
import gzip
import hashlib
import io
import itertools
import json
import lzma
import os
import struct
import subprocess
import tarfile
import zlib

from .common import *

OPTIONS = {"max_steps": 200000, "real_timeout": 120.0}


def show(value):
    text = repr(value)
    return text if len(text) < 160 else text[:160] + "..."


class Files:
    """A directory of files, each of which has to have certain attributes.  `expected` maps the path
       of a file to the values in the order of `attributes`, None for no value."""

    def __init__(self, check, name, attributes, size=300):
        self.size = size
        self.check, self.name, self.attributes = check, name, attributes
        self.dir = os.path.join(check.scratch.path, "files", name)
        os.makedirs(self.dir)
        self.expected, self.contents = {}, {}

    def add(self, path, content, *expected):
        full = os.path.join(self.dir, f"b{len(self.expected) // self.size:03}", path)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, "wb") as fobj:
            fobj.write(content)
        self.last = full
        self.expected[full] = list(expected)
        self.contents[full] = content

    def argv(self, *args):
        return ["--jsonl", "--all", "-o", ",".join(["path"] + self.attributes), *args]

    def judge(self, only=None, normal=lambda row: row):
        expected = {p: v for p, v in self.expected.items() if only is None or only(p)}

        def judge(result):
            if has_traceback(result) or result["code"]:
                return f"status {result['code']}: {err(result)[-400:]!r}"
            if err(result):
                return f"messages {err(result)[:300]!r}"
            rows = [json.loads(line) for line in result["out"].decode().splitlines()]
            got = {row["path"]: normal([row[a] for a in self.attributes]) for row in rows}
            for path, values in expected.items():
                if path not in got:
                    return f"{path} is missing"
                if got[path] != values:
                    return f"{os.path.basename(path)} {show(self.contents.get(path))}: {self.attributes} is {show(got[path])} " \
                           f"instead of {show(values)}"
            if only is None and len(got) != len(rows):
                return "files are reported twice"
            return None
        return judge

    def run(self, env=None, normal=lambda row: row, real=True, extra=()):
        """All files in batches below the controlled scheduler, and all of them with real processes."""
        cases = []
        for name in sorted({os.path.relpath(path, self.dir).split("/")[0] for path in self.expected}):
            prefix = os.path.join(self.dir, name) + "/"
            cases.append((f"{self.name} {name}", scenario(
                ["--no-cache", "-j1", *self.argv("-D", name), *extra], cwd=self.dir, env=env, options=OPTIONS),
                          self.judge(lambda p, x=prefix: p.startswith(x), normal), True))
        for path in self.expected:
            self.check.report.case((self.name, path))
        self.check.report.count("states", len(self.expected))
        run_cases(self.check, self.name, cases)
        if real:
            jobs = [case(f"{self.name} -j4", ["-j4", *self.argv(), *extra], self.judge(None, normal), self.dir, env=env)]
            # with a fresh cache, and a second time with a filled one
            argv = ["-j4", *self.argv(), *extra]
            jobs += [(f"{self.name} cache {n}", scenario(argv, cwd=self.dir, env=env), self.judge(None, normal), True) for n in (1, 2)]
            real_runs(self.check, jobs, {"HOME": self.check.scratch.home})


def grep(check):
    tokens = [b"a", b"\n", b"\r", b"\r\n", b"\0", "é".encode(), b"\xff", b"\x0c", "\u2028".encode(), b"\xef\xbb\xbf", b"\x85", b"\xc3", b"b\n"]
    files = Files(check, "grep", ["text", "linecount", "grep.lines"])
    seen = set()
    for depth in range(5 if check.thorough else 4):
        for combo in itertools.product(tokens, repeat=depth):
            content = b"".join(combo)
            if content in seen:
                continue
            seen.add(content)
            try:
                text = content.decode("utf-8")
            except UnicodeDecodeError:
                expected = False, None, None
            else:
                rows = text.replace("\r\n", "\n").replace("\r", "\n").split("\n")
                rows = [row + "\n" for row in rows[:-1]] + ([rows[-1]] if rows[-1] else [])
                expected = True, len(rows), rows
            files.add(f"{len(seen):05}", content, *expected)
    # a character at the border of a block
    for size in (4095, 4096, 8191, 8192, 8193, 16383, 65535):
        for tail, text in (("é\n", True), ("\r\nb", True), (b"\xc3", False), (b"\xc3\n", False), ("\r", True)):
            content = b"a" * size + (tail.encode() if text else tail)
            rows = ["a" * size + "é\n"] if tail == "é\n" else ["a" * size + "\n", "b"] if tail == "\r\nb" else ["a" * size + "\n"]
            files.add(f"big{size}.{len(files.expected)}", content,
                      *((True, len(rows), rows) if text else (False, None, None)))
    files.run()
    others(check, files)


def others(check, files):
    """What is not a regular file has none of the attributes."""
    cwd = check.tree(f"others-{files.name}", [("d", "d"), ("d", "d.tar"), ("d", "d.py"), ("d", "d.tgz")])
    for name in ("p", "p.tar", "p.py", "p.tgz", "p.mp3", "p.png"):
        os.mkfifo(os.path.join(cwd, name))
    for name in ("l", "l.py", "l.tar"):
        os.symlink("nowhere", os.path.join(cwd, name))
    names = [a for a in files.attributes if "xattr" not in a]

    def judge(result):
        rows = [json.loads(line) for line in result["out"].decode().splitlines()]
        wrong = [row for row in rows if any(row[a] is not None for a in names)]
        return f"{wrong[:3]} {err(result)[-200:]!r}" if wrong or len(rows) != 13 or result["code"] else None
    run_cases(check, f"{files.name}: other types", [
        case(f"{files.name} {flag}", ["-j1", *flag, *files.argv()], judge, cwd) for flag in ([], ["-L"]) if not flag])


def hashes(check):
    names = sorted(hashlib.algorithms_guaranteed)
    files = Files(check, "hash", [f"{n}.{n}" for n in names])
    contents = [b"x" * size for size in (0, 1, 55, 56, 63, 64, 65, 127, 128, 4096, 8191, 8192, 8193, 16383, 16384, 16385, 100000)]
    contents += [b"\0" * size for size in (1, 8192, 8193)] + [b"\n", b"\r\n", b"\x1a", bytes(range(256)) * 33]
    contents += [bytes(c) for n in (1, 2, 3) for c in itertools.product((0, 10, 255), repeat=n)]
    for number, content in enumerate(contents):
        values = []
        for name in names:
            h = hashlib.new(name)
            for pos in range(0, len(content), 1000):
                h.update(content[pos:pos + 1000])
            values.append(h.hexdigest(int(name[6:]) // 4) if name.startswith("shake") else h.hexdigest())
        files.add(f"{number:03}", content, *values)
    files.run()
    others(check, files)


def archive(members, compress, fmt):
    fobj = io.BytesIO()
    with tarfile.open(fileobj=fobj, mode="w", format=fmt) as tar:
        for name, typ in members:
            info = tarfile.TarInfo(name)
            info.type = typ
            if typ == tarfile.REGTYPE:
                info.size = 3
                tar.addfile(info, io.BytesIO(b"abc"))
            else:
                if typ in (tarfile.SYMTYPE, tarfile.LNKTYPE):
                    info.linkname = "a"
                tar.addfile(info)
    data = fobj.getvalue()
    return {"": lambda d: d, "gz": lambda d: gzip.compress(d, mtime=0), "bz2": bz2.compress, "xz": lzma.compress,
            "lzma": lambda d: lzma.compress(d, format=lzma.FORMAT_ALONE)}[compress](data)


def normal_members(row):
    return [sorted(row[0]) if row[0] is not None else None]


def tar(check):
    files = Files(check, "tar", ["members"])
    names = ["a", "d/b", "é", "x" * 120, "d/" + "y" * 99, "a b", "../up", "/abs", "new\nline"]
    extensions = {"": ("tar",), "gz": ("tar.gz", "tgz", "taz", "tpz"), "bz2": ("tar.bz2", "tb2", "tbz", "tbz2", "tz2"),
                  "xz": ("tar.xz", "txz"), "lzma": ("tar.lzma", "tlz")}
    number = 0
    for count in (0, 1, 2, 3):
        for combo in itertools.product(names[:5] if count == 3 else names, repeat=count):
            number += 1
            types = [tarfile.REGTYPE, tarfile.DIRTYPE, tarfile.SYMTYPE, tarfile.LNKTYPE, tarfile.FIFOTYPE]
            members = [(name, types[(number + i * 3) % 5]) for i, name in enumerate(combo)]
            kind = list(extensions)[number % 5]
            ext = extensions[kind][number // 5 % len(extensions[kind])]
            fmt = (tarfile.GNU_FORMAT, tarfile.PAX_FORMAT)[number // 7 % 2]
            # the contents are what counts, not the extension
            if number % 11 == 0:
                ext = "tar.bz2" if kind != "bz2" else "tgz"
            files.add(f"f{number:05}.{ext}", archive(members, kind, fmt), sorted(set(combo)))
    some = archive([("a", tarfile.REGTYPE)], "gz", tarfile.GNU_FORMAT)
    for name in ("x.gz", "x.zip", "tar", "x.tar.", "xtar", "x.TAR", "x.tar~", "x.tar.gz.txt", "tgz"):
        files.add(name, some, None)
    for name in (".tar", "..tgz", "a b.tar", "x.y.tar.xz"):
        files.add(name, some, ["a"])
    for i, content in enumerate((b"", b"\n", b"hello", b"\0" * 100, b"\0" * 511, b"a" * 512, b"a" * 10240, b"\x1f\x8b", b"BZh9", b"\xfd7zXZ\0", some[:20],
                                 b"ustar" * 300, zlib.compress(b"x"))):
        files.add(f"bad{i}.tar", content, None)
    for i, content in enumerate((b"\0" * 1024, b"\0" * 512, b"\0" * 10240)):
        files.add(f"nothing{i}.tar", content, [])
    files.run(normal=normal_members)
    others(check, files)


def damaged(check):
    """Every damaged byte and every truncation of an archive: either its members or no attribute."""
    for kind, ext in (("gz", "tgz"), ("bz2", "tbz"), ("xz", "txz"), ("", "tar"), ("lzma", "tlz")):
        files = Files(check, f"damaged-{ext}", ["members"], 1000)
        data = archive([("a", tarfile.REGTYPE), ("d/b", tarfile.REGTYPE)], kind, tarfile.GNU_FORMAT)
        number = 0
        stop = min(len(data), 1100)
        values = (0, 0x30, 0x37, 0x39, 0x4b, 0x4c, 0x53, 0x67, 0x78, 0x7f, 0x80, 0xff) if check.thorough or kind else (0, 0x39, 0x4c, 0x53, 0x78, 0x80, 0xff)
        variants = [data[:n] for n in range(0, stop, 1 if kind else 13)]
        for pos in range(stop):
            if not kind and 260 < pos < 510 or 700 < pos < 1000:
                continue
            variants += [data[:pos] + bytes([v]) + data[pos + 1:] for v in (*values, data[pos] ^ 1)]
        for content in variants:
            number += 1
            try:
                with tarfile.open(fileobj=io.BytesIO(content)) as tar:
                    expected = sorted(set(tar.getnames()))
            except Exception:
                expected = None
            files.add(f"{number:05}.{ext}", content, expected)
        files.run(normal=normal_members, real=False)


def shebang(check):
    files = Files(check, "shebang", ["shebang"])
    tokens = [b"#!", b"/bin/sh", b" ", b"\n", b"\r\n", b"#", b"!", b"\t", b"env -S x=1", b"\0", b"\x1f"]
    seen = set()
    for depth in range(5 if check.thorough else 4):
        for combo in itertools.product(tokens, repeat=depth):
            content = b"".join(combo)
            if content in seen:
                continue
            seen.add(content)
            first = content.split(b"\n", 1)[0]
            value = first[2:].decode("ascii").rstrip() if first.startswith(b"#!") else None
            files.add(f"{len(seen):05}", content, value)
    files.add("long", b"#!/" + b"x" * 70000 + b"\nrest", "/" + "x" * 70000)
    files.add("binary", b"\xff\xfe" * 100, None)
    files.add("second", b"\n#!/bin/sh\n", None)
    files.add("rest", b"#!/bin/sh\n\xff\xfe\n", "/bin/sh")
    files.run()
    others(check, files)


STATEMENTS = [
    ("import aa", ["aa"]), ("import aa.bb", ["aa.bb"]), ("import aa as b, cc.dd as e, ff", ["aa", "cc.dd", "ff"]), ("from aa import b", ["aa"]),
    ("from aa.bb import (c,\n    d)", ["aa.bb"]), ("from aa import *", ["aa"]), ("from .mod import x", ["pkg.mod"]), ("import aa; import gg", ["aa", "gg"]),
    ("x = 'import no'", []), ("# import no", []), ('"""\nimport no\n"""', []), ("importx = 1", []), ("import \\\n  hh", ["hh"]), ("x = '\\d'", []),
    ("__import__('no')", []),
]
AROUND = ["{}", "def f():\n{}", "class C:\n{}\n  def f(self):\n    pass", "try:\n{}\nexcept ImportError:\n  pass", "try:\n  pass\nexcept ImportError:\n{}", "if 0:\n{}",
          "if 1:\n  pass\nelse:\n{}", "while 0:\n{}", "with x:\n{}", "async def f():\n{}", "try:\n  pass\nfinally:\n{}", "for x in y:\n{}"]


def indent(text):
    return "\n".join("  " + line for line in text.split("\n"))


def py(check):
    files = Files(check, "py", ["py.imports"])
    number = 0
    for count in (1, 2):
        for combo in itertools.product(STATEMENTS, repeat=count):
            for around in AROUND if count == 1 or check.thorough else AROUND[:1]:
                number += 1
                if around != "{}" and ("*" in combo[0][0] or '"""' in combo[0][0]) or len(combo) > 1 and around != "{}" and \
                        any("*" in c[0] or '"""' in c[0] for c in combo):
                    continue  # not allowed there
                body = [around.format(c[0] if around == "{}" else indent(c[0] + "\npass")) for c in combo]
                end = ("\n", "", "\r\n", "\n\n")[number % 4]
                text = "\n".join(body) + end
                if "\r" in end:
                    text = text.replace("\r\n", "\n").replace("\n", "\r\n")
                expected = sorted(m for c in combo for m in c[1])
                name = (f"{number:05}.py", f"{number:05}.PY", f"{number:05}")[number % 3]
                if number % 3 == 2:
                    text = "#!/usr/bin/env python3\n" + text
                files.add(f"{number:05}d/pkg/{name}", text.encode(), expected)
    # encodings
    for i, (content, expected) in enumerate((
            (b"\xef\xbb\xbfimport aa\n", ["aa"]), (b"# -*- coding: latin-1 -*-\nimport aa # \xe9\n", ["aa"]),
            (b"#!/usr/bin/python\n# vim: set fileencoding=cp1252 :\nimport aa\nx = '\x80'\n", ["aa"]), ("import é\n".encode(), ["é"]),
            ("# coding: utf-8\nx='é'\nimport aa\n".encode(), ["aa"]), (b"# coding: nonsense\nimport aa\n", None),
            (b"import aa\n\0", None), (b"import aa\nimport\n", None), (b"import aa\n  import bb\n", None), (b"", []), (b"\n", []), (b"import aa" * 2, None),
            (b"print 'x'\n", None), (b"x = " + b"(" * 300 + b")" * 300, None), (b"import aa\n\x0c\nimport bb\n", ["aa", "bb"]),
            (b"import aa\rimport bb\r", ["aa", "bb"]), (b"if 1:\n\timport aa\n", ["aa"]), (b"x = '''\n#!\nimport no\n'''\n", []),
            (b"match x:\n  case 1:\n    import aa\n", ["aa"]), (b"\xff\xfei\0m\0", None))):
        files.add(f"enc{i}/pkg/e.py", content, expected)
    for i, (content, expected) in enumerate((
            (b"import aa\n", None), (b"#!/bin/sh\nimport aa\n", None), (b"#! /usr/bin/python -u\nimport aa\n", ["aa"]), (b"\n#!/usr/bin/python\nimport aa\n", None),
            (b"#!/usr/bin/python3.12", []), (b"#!/usr/bin/perl python\nimport aa\n", ["aa"]), (b"", None), (b"# python\nimport aa\n", None))):
        files.add(f"script{i}/pkg/tool", content, expected)
    files.add("txt/pkg/x.txt", b"import aa\n", None)
    files.run()
    others(check, files)


def xattr(check):
    files = Files(check, "xattr", ["xattrs"])
    pairs = [("user.a", b"1"), ("user.b", b""), ("user.a.b", "é".encode()), ("user.é", b"x=y"), ("user.c", b"two words\n")]
    number = 0
    try:
        for count in range(len(pairs) + 1):
            for combo in itertools.combinations(pairs, count):
                number += 1
                files.add(f"{number:03}", b"x", sorted(f"{k}={v.decode()}" for k, v in combo))
                for key, value in combo:
                    os.setxattr(files.last, key, value)
    except OSError as exc:
        check.report.part("xattr", f"no extended attributes here: {exc}")
        return

    def normal(row):
        return [sorted(x for x in row[0] if x.startswith("user.")) if row[0] is not None else None]
    files.run(normal=normal)
    cwd = check.tree("xattr-types", [("d", "d"), ("f", "f", "x"), ("f", "u", "x"), ("l", "l", "f")])
    os.setxattr(os.path.join(cwd, "d"), "user.a", b"dir")
    os.setxattr(os.path.join(cwd, "f"), "user.a", b"file")
    run_cases(check, "xattr: types", [
        case("values", ["-j1", "xattrs=user.a=dir"], expect_lines(["d"]), cwd),
        case("values 2", ["-j1", "xattrs~user.a="], expect_lines(["d", "f"]), cwd),
        case("values 3", ["-j1", "type=f", "xattrs~user.a="], expect_lines(["f"]), cwd),
        case("values -L", ["-j1", "-L", "xattrs=user.a=file"], expect_lines(["f", "l"]), cwd)])


def png(width, height):
    def part(name, data):
        return struct.pack(">I", len(data)) + name + data + struct.pack(">I", zlib.crc32(name + data))
    return b"\x89PNG\r\n\x1a\n" + part(b"IHDR", struct.pack(">IIBBBBB", width, height, 8, 0, 0, 0, 0)) + \
        part(b"IDAT", zlib.compress((b"\0" + b"\0" * width) * height)) + part(b"IEND", b"")


def wav(seconds, rate=8000):
    data = b"\x80" * int(rate * seconds)
    return b"RIFF" + struct.pack("<I", 36 + len(data)) + b"WAVEfmt " + struct.pack("<IHHIIHH", 16, 1, 1, rate, rate, 1, 8) + \
        b"data" + struct.pack("<I", len(data)) + data


def gif(width, height):
    return b"GIF89a" + struct.pack("<HHBBB", width, height, 0x80, 0, 0) + b"\0\0\0\xff\xff\xff" + b"," + \
        struct.pack("<HHHHB", 0, 0, width, height, 0) + b"\x02\x02\x44\x01\x00;"


def medium(check):
    probe = subprocess.run([PYTHON, "-c", "import pymediainfo; assert pymediainfo.MediaInfo.can_parse()"], capture_output=True, check=False)
    if probe.returncode:
        check.report.part("medium", "pymediainfo is not installed")
        return
    files = Files(check, "medium", ["medium.format", "width", "height", "medium.duration"])
    sizes = (1, 2, 7, 300)
    for width, height in itertools.product(sizes, repeat=2):
        files.add(f"i{width}x{height}.png", png(width, height), "png", width, height, None)
        files.add(f"i{width}x{height}.gif", gif(width, height), "gif", width, height, None)
    for seconds in (0.5, 1, 1.5, 2, 59, 61):
        files.add(f"s{seconds}.wav", wav(seconds), None, None, None, int(seconds))
    for name in ("x.txt", "png", "x", "x.png.txt"):
        files.add(name, png(3, 3), None, None, None, None)
    for name, content in (("a.png", b""), ("a.mp3", b"no"), ("a.gif", b"GIF89a"), ("a.wav", wav(1)[:20]), ("a.mp4", b"\0" * 100)):
        files.add(name, content, None, None, None, None)
        if name in ("a.gif", "a.wav"):
            files.expected.pop(files.last)
    files.run()
    others(check, files)


def mime(check):
    probe = subprocess.run([PYTHON, "-c", "import magic; magic.detect_from_filename"], capture_output=True, check=False)
    if probe.returncode:
        check.report.part("mime", "file-magic is not installed")
        return
    files = Files(check, "mime", ["mime.mime", "mime.type", "mime.subtype", "mime.encoding", "mime.name"])
    tokens = [b"a", b"\n", b"\0", "é".encode(), b"\xff", b"#!/bin/sh\n", b"<?xml version=\"1.0\"?>", b"%PDF-1.4", b"PK\x03\x04", b"\x7fELF", b"GIF89a",
              b"{\"a\": 1}", b"<html>", b"\x1f\x8b\x08", b"import os\n", b"\xef\xbb\xbf"]
    contents = [b"".join(c) for n in range(4 if check.thorough else 3) for c in itertools.product(tokens, repeat=n)]
    contents += [png(3, 4), wav(1), gif(2, 2)]
    paths = []
    for number, content in enumerate(contents):
        files.add(f"{number:04}", content)
        paths.append(files.last)

    def ask(*args):
        proc = subprocess.run(["file", "--brief", "--no-pad", *args, "-f", "-"], input="\n".join(paths).encode(), capture_output=True, check=True)
        return proc.stdout.decode("utf-8", "backslashreplace").split("\n")
    types, encodings, names = ask("--mime-type"), ask("--mime-encoding"), ask()
    for path, typ, encoding, name in zip(paths, types, encodings, names):
        files.expected[path] = [typ, typ.split("/")[0], typ.split("/")[1], encoding, name]
    files.run()
    others(check, files)
    # unreadable files have no content type
    cwd = check.tree("unreadable", [("f", "f", "#!/bin/sh\nimport os\n"), ("f", "g.py", "#!/bin/sh\nimport os\n"), ("f", "x.tar", "x"), ("f", "x.png", "x")])
    os.chmod(check.scratch.path, 0o755)
    for name in ("f", "g.py", "x.tar", "x.png"):
        os.chmod(os.path.join(cwd, name), 0)
    attributes = ["mime.mime", "mime.type", "shebang", "py.imports", "members", "text", "linecount", "md5", "width"]

    def judge(result):
        rows = [json.loads(line) for line in result["out"].decode().splitlines()]
        wrong = [row for row in rows if any(row[a] is not None for a in attributes)]
        return f"{wrong[:2]} status {result['code']} {err(result)[-300:]!r}" if wrong or len(rows) != 4 or result["code"] else None
    run_cases(check, "unreadable", [case(f"unreadable {a}", ["-j1", "--jsonl", "--all", "-o", "path," + ",".join(attributes)], judge, cwd, uid=65534)
                                    for a in (1,)])


# -- git ---------------------------------------------------------------------------------------

GIT_ENV = {"GIT_CONFIG_NOSYSTEM": "1", "GIT_CONFIG_GLOBAL": "/dev/null", "GIT_AUTHOR_NAME": "a", "GIT_AUTHOR_EMAIL": "a@b", "GIT_COMMITTER_NAME": "a",
           "GIT_COMMITTER_EMAIL": "a@b", "GIT_AUTHOR_DATE": "1500000000 +0000", "GIT_COMMITTER_DATE": "1500000000 +0000", "LC_ALL": "C.UTF-8"}
TEXTS = {1: "one\n" * 20, 2: "two\n" * 20}


def git(cwd, *args):
    env = {k: v for k, v in os.environ.items() if not k.startswith("GIT_")}
    subprocess.run(["git", "-C", cwd, "-c", "protocol.file.allow=always", *args], env={**env, **GIT_ENV}, check=True, stdout=subprocess.DEVNULL,
                   stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)


def put(root, state):
    """Make the files of `state` {path: 0 absent, 1, 2 contents}."""
    for path, value in state.items():
        full = os.path.join(root, path)
        if value:
            os.makedirs(os.path.dirname(full), exist_ok=True)
            with open(full, "w") as fobj:
                fobj.write(TEXTS[value])
        elif os.path.lexists(full):
            os.unlink(full)


PATHS = ["a", "d/b"]


def make_repo(args):
    root, head, index, work = args
    os.makedirs(root)
    git(root, "init", "-q")
    put(root, dict(zip(PATHS, head)))
    with open(os.path.join(root, "always"), "w") as fobj:
        fobj.write("x")
    git(root, "add", "-A")
    git(root, "commit", "-qm", "c")
    if index != head:
        put(root, dict(zip(PATHS, index)))
        git(root, "add", "-A")
    if work != index:
        put(root, dict(zip(PATHS, work)))
    os.makedirs(os.path.join(root, "d"), exist_ok=True)


def repositories(check):
    """All states of a repository with two files: the contents in the last commit, in the index and in the directory."""
    from concurrent.futures import ThreadPoolExecutor
    files = Files(check, "git", ["tracked", "dirty", "repo", "repo_dir"])
    todo = []
    values = list(itertools.product((0, 1, 2), repeat=2))
    for number, (head, index, work) in enumerate(itertools.product(values, repeat=3)):
        # contents are symmetric: the first that appears is 1
        used = [v for v in (*head, *index, *work) if v]
        if used and used[0] == 2:
            continue
        root = os.path.join(files.dir, f"b{len(todo) // 60:03}", f"r{number:03}")
        todo.append((root, head, index, work))
        files.contents[root] = (head, index, work)
        full = os.path.join(root, "always")
        files.expected[full] = [True, False, False, root]
        dirty = [h != i or i != w for h, i, w in zip(head, index, work)]
        tracked = [bool(i) for i in index]
        changed = [d and t for d, t in zip(dirty, tracked)]
        for path, t, c, w in zip(PATHS, tracked, changed, work):
            if w:
                files.expected[os.path.join(root, path)] = [t, c, False, root]
                files.contents[os.path.join(root, path)] = (head, index, work)
        for path, own in ((root, True), (os.path.join(root, "d"), False)):
            which = (0, 1) if own else (1,)
            # a staged removal of a file that is (not) there is left open, as is where a renamed file comes from
            if any(not tracked[i] and head[i] for i in (0, 1)):
                files.expected[path] = [any(tracked[i] for i in which) or own, None, own, root]
            else:
                files.expected[path] = [any(tracked[i] for i in which) or own, any(changed[i] for i in which), own, root]
            files.contents[path] = (head, index, work)
    with ThreadPoolExecutor(8) as pool:
        list(pool.map(make_repo, todo))
    unknown = {p for p, v in files.expected.items() if v[1] is None}

    def judge(only=None, normal=None):

        def check_result(result):
            if has_traceback(result) or result["code"] or err(result):
                return f"status {result['code']}: {err(result)[-400:]!r}"
            got = {}
            for line in result["out"].decode().splitlines():
                row = json.loads(line)
                got[row["path"]] = [row[a] for a in files.attributes]
            for path, vals in files.expected.items():
                if only is not None and not only(path):
                    continue
                if path not in got:
                    return f"{path} is missing"
                mine = list(got[path])
                if path in unknown:
                    mine[1] = None
                if mine != vals:
                    return f"{os.path.relpath(path, files.dir)} (commit, index, directory) {files.contents.get(path)}: {files.attributes} is " \
                           f"{mine} instead of {vals}"
            return None
        return check_result
    files.judge = judge
    envs = [GIT_ENV, {**GIT_ENV, "GIT_CONFIG_COUNT": "1", "GIT_CONFIG_KEY_0": "status.renames", "GIT_CONFIG_VALUE_0": "copies"},
            {**GIT_ENV, "GIT_CONFIG_COUNT": "1", "GIT_CONFIG_KEY_0": "status.branch", "GIT_CONFIG_VALUE_0": "true"},
            {**GIT_ENV, "GIT_CONFIG_COUNT": "1", "GIT_CONFIG_KEY_0": "status.relativePaths", "GIT_CONFIG_VALUE_0": "false"},
            {**GIT_ENV, "GIT_CONFIG_COUNT": "1", "GIT_CONFIG_KEY_0": "status.short", "GIT_CONFIG_VALUE_0": "true"}]
    for number, env in enumerate(envs if check.thorough else envs[:2]):
        files.run(env=env, real=number == 0, extra=["-e", "name=.git"])


def layouts(check):
    """Names, nested repositories, submodules, worktrees, conflicts, links and the inside of .git."""
    root = os.path.join(check.scratch.path, "layouts")
    names = ["a b", "a\"b", "a\\b", "-x", "?? x", " lead", "trail ", "R  x", "é", "new\nline", "t\tab", "->", "a -> b", ".hidden", "d/-y", "[x]", "a*"]
    plain, dirty = os.path.join(root, "names"), os.path.join(root, "dirty")
    facts = {}

    def fact(path, *values):
        facts[path] = list(values)
    for where, changed in ((plain, False), (dirty, True)):
        os.makedirs(where)
        git(where, "init", "-q")
        put(where, {n: 1 for n in names})
        git(where, "add", "-A")
        git(where, "commit", "-qm", "c")
        if changed:
            put(where, {n: 2 for n in names})
        put(where, {"untracked " + n.replace("/", "_"): 1 for n in names})
        for n in names:
            fact(os.path.join(where, n), True, changed, False, where)
            fact(os.path.join(where, "untracked " + n.replace("/", "_")), False, False, False, where)
        fact(os.path.join(where, "d"), True, changed, False, where)
    # a repository without commits, an empty one, ignored and untracked directories
    where = os.path.join(root, "fresh")
    os.makedirs(where)
    git(where, "init", "-q")
    put(where, {"staged": 1, "u/x": 1, "ignored/x": 1, ".gitignore": 1, "i2": 1, "i1/a": 1})
    with open(os.path.join(where, ".gitignore"), "w") as fobj:
        fobj.write("/ignored\ni1/\ni2\n")
    git(where, "add", "staged")
    git(where, "add", "-f", "i1/a")
    for path, values in (("staged", (True, True)), ("u", (False, False)), ("u/x", (False, False)), ("ignored", (False, False)), ("ignored/x", (False, False)),
                         (".gitignore", (False, False)), ("i2", (False, False)), ("i1", (True, True)), ("i1/a", (True, True))):
        fact(os.path.join(where, path), *values, False, where)
    where = os.path.join(root, "empty")
    os.makedirs(where)
    git(where, "init", "-q")
    fact(where, False, False, True, where)
    # one inside of another, and names that are the beginning of another one
    where = os.path.join(root, "outer")
    os.makedirs(where)
    git(where, "init", "-q")
    put(where, {"x/a": 1, "xy/a": 1, "x.txt": 1, "z/z/z": 1})
    git(where, "add", "-A")
    git(where, "commit", "-qm", "c")
    put(where, {"xy/a": 2})
    inner = os.path.join(where, "x", "inner")
    os.makedirs(inner)
    git(inner, "init", "-q")
    put(inner, {"in": 1, "new": 1})
    git(inner, "add", "in")
    fact(inner, True, True, True, inner)
    fact(os.path.join(inner, "in"), True, True, False, inner)
    fact(os.path.join(inner, "new"), False, False, False, inner)
    for path, values in (("x", (True, False)), ("x/a", (True, False)), ("xy", (True, True)), ("xy/a", (True, True)), ("x.txt", (True, False)),
                         ("z", (True, False)), ("z/z/z", (True, False))):
        fact(os.path.join(where, path), *values, False, where)
    fact(where, True, True, True, where)
    # renamed files that were modified afterwards, in the working directory or in the index as well, next to an unchanged file
    where = os.path.join(root, "renamed")
    os.makedirs(where)
    git(where, "init", "-q")
    long = "".join(f"line {i}\n" for i in range(50))

    def write(name, contents):
        os.makedirs(os.path.dirname(os.path.join(where, name)), exist_ok=True)
        with open(os.path.join(where, name), "w") as fobj:
            fobj.write(contents)
    for name in ("a", "xy/a", "wz", "??/wz", "   e"):
        write(name, name + long)
    write("e", "e" + long)
    git(where, "add", "-A")
    git(where, "commit", "-qm", "c")
    for old, new in (("xy/a", "xy/b"), ("??/wz", "??/y"), ("   e", "f")):
        git(where, "mv", old, new)
    write("xy/b", "xy/a" + long + "more\n")
    write("f", "   e" + long + "staged\n")
    git(where, "add", "f")
    write("f", "   e" + long + "staged\nmore\n")
    for path, changed in (("a", False), ("xy/b", True), ("wz", False), ("??/y", True), ("e", False), ("f", True), ("xy", True), ("??", True)):
        fact(os.path.join(where, path), True, changed, False, where)
    # a copy of a file that was modified as well
    where = os.path.join(root, "copied")
    os.makedirs(where)
    git(where, "init", "-q")
    git(where, "config", "status.renames", "copies")
    for name in ("a", "xy/a"):
        write(name, name + long)
    git(where, "add", "-A")
    git(where, "commit", "-qm", "c")
    write("c", "xy/a" + long)
    write("xy/a", "xy/a" + long + "more\n")
    git(where, "add", "-A")
    for path, changed in (("a", False), ("xy/a", True), ("c", True), ("xy", True)):
        fact(os.path.join(where, path), True, changed, False, where)
    # modes, links and types
    where = os.path.join(root, "modes")
    os.makedirs(where)
    git(where, "init", "-q")
    put(where, {n: 1 for n in ("exec", "link2", "type", "same")})
    os.symlink("same", os.path.join(where, "link"))
    os.symlink("nowhere", os.path.join(where, "dangling"))
    git(where, "add", "-A")
    git(where, "commit", "-qm", "c")
    os.chmod(os.path.join(where, "exec"), 0o755)
    os.unlink(os.path.join(where, "link2"))
    os.symlink("same", os.path.join(where, "link2"))
    os.utime(os.path.join(where, "same"), (1, 1))
    os.symlink("same", os.path.join(where, "untracked link"))
    for name, values in (("exec", (True, True)), ("link", (True, False)), ("dangling", (True, False)), ("link2", (True, True)), ("same", (True, False)),
                         ("untracked link", (False, False)), ("type", (True, False))):
        fact(os.path.join(where, name), *values, False, where)
    # a merge with a conflict
    where = os.path.join(root, "conflict")
    os.makedirs(where)
    git(where, "init", "-q", "-b", "one")
    put(where, {"c": 1, "keep": 1, "del": 1})
    git(where, "add", "-A")
    git(where, "commit", "-qm", "c")
    git(where, "checkout", "-qb", "two")
    put(where, {"c": 2, "del": 2})
    git(where, "commit", "-qam", "two")
    git(where, "checkout", "-q", "one")
    with open(os.path.join(where, "c"), "w") as fobj:
        fobj.write("three\n")
    git(where, "rm", "-q", "del")
    git(where, "commit", "-qam", "three")
    try:
        git(where, "merge", "two")
    except subprocess.CalledProcessError:
        pass
    fact(os.path.join(where, "c"), True, True, False, where)
    fact(os.path.join(where, "keep"), True, False, False, where)
    fact(os.path.join(where, "del"), True, True, False, where)
    # a submodule and a worktree have a file .git instead of a directory
    where = os.path.join(root, "super")
    os.makedirs(where)
    git(where, "init", "-q")
    git(where, "submodule", "--quiet", "add", plain, "sub")
    git(where, "commit", "-qm", "c")
    sub = os.path.join(where, "sub")
    fact(sub, True, False, True, sub)
    fact(os.path.join(sub, "a b"), True, False, False, sub)
    fact(os.path.join(sub, "d"), True, False, False, sub)
    fact(os.path.join(where, ".gitmodules"), True, False, False, where)
    tree_dir = os.path.join(root, "worktree")
    git(plain, "worktree", "add", "-q", tree_dir)
    put(tree_dir, {"é": 2, "new": 1})
    fact(tree_dir, True, True, True, tree_dir)
    fact(os.path.join(tree_dir, "a b"), True, False, False, tree_dir)
    fact(os.path.join(tree_dir, "é"), True, True, False, tree_dir)
    fact(os.path.join(tree_dir, "new"), False, False, False, tree_dir)
    # no repository at all
    os.makedirs(os.path.join(root, "none", "d"))
    put(os.path.join(root, "none"), {"f": 1, "gitx/f": 1})
    for path in ("none", "none/d", "none/f", "none/gitx", "none/gitx/f"):
        fact(os.path.join(root, path), None, None, None, None)
    attributes = ["tracked", "dirty", "repo", "repo_dir"]

    def judge(result):
        if has_traceback(result) or result["code"] or err(result):
            return f"status {result['code']}: {err(result)[-400:]!r}"
        got = {}
        for line in result["out"].decode().splitlines():
            row = json.loads(line)
            got[row["path"]] = [row[a] for a in attributes]
        for path in got:
            # the inside of .git is never tracked
            if "/.git" in path and not path.endswith((".gitignore", ".gitmodules")) and os.path.isdir(path.split("/.git")[0] + "/.git") and got[path][0]:
                return f"{path} is tracked"
        for path, values in facts.items():
            if path not in got:
                if start and not path.startswith(start + "/"):
                    continue
                return f"{path} is missing"
            if got[path] != values:
                return f"{os.path.relpath(path, root)}: {attributes} is {got[path]} instead of {values}"
        return None
    start = ""
    for path in facts:
        check.report.case(("layouts", path))
    check.report.count("states", len(facts))
    argv = ["--jsonl", "--all", "-o", "path," + ",".join(attributes)]
    run_cases(check, "layouts", [
        ("from above", scenario(["--no-cache", "-j1", *argv], cwd=root, env=GIT_ENV, options=OPTIONS), judge, True),
        ("-j2", scenario(["--no-cache", "-j2", *argv], cwd=root, env=GIT_ENV, options=OPTIONS), judge, True)])
    real_runs(check, [case("layouts", ["-j4", *argv], judge, root)], GIT_ENV)
    # a search that begins somewhere inside
    for sub_dir in ("outer/xy", "renamed/xy", "outer/x/inner", "names/d", "dirty", "super/sub", "fresh/i1"):
        start = os.path.join(root, sub_dir)
        inside = [p for p in facts if p.startswith(start + "/")]

        def judge_inside(result, inside=tuple(inside)):
            if has_traceback(result) or result["code"] or err(result):
                return f"status {result['code']}: {err(result)[-400:]!r}"
            got = {}
            for line in result["out"].decode().splitlines():
                row = json.loads(line)
                got[row["path"]] = [row[a] for a in attributes]
            for path in inside:
                if got.get(path) != facts[path]:
                    return f"{os.path.relpath(path, root)}: {attributes} is {got.get(path)} instead of {facts[path]}"
            return None
        run_cases(check, f"layouts {sub_dir}", [
            ("inside", scenario(["--no-cache", "-j1", *argv], cwd=start, env=GIT_ENV, options=OPTIONS), judge_inside, True),
            ("by name", scenario(["--no-cache", "-j1", *argv, "-D", os.path.relpath(start, os.path.dirname(start))], cwd=os.path.dirname(start),
                                 env=GIT_ENV, options=OPTIONS), judge_inside, True),
            ("from elsewhere", scenario(["--no-cache", "-j1", *argv, "-D", "../" + sub_dir], cwd=plain, env=GIT_ENV, options=OPTIONS),
             judge_inside, True)])


def filesystems(check):
    cases = []
    for path in ("/proc/sys/kernel", "/sys/kernel", "/dev/shm", check.scratch.path, "/dev/pts"):
        try:
            name = subprocess.run(["stat", "-f", "-c", "%T", path], capture_output=True, check=True).stdout.decode().strip()
            number = len(os.listdir(path))
        except (OSError, subprocess.CalledProcessError):
            continue
        if name.startswith("UNKNOWN"):
            continue
        # these four are local, whatever the scratch directory may be in
        remotes = ("true", "false") if path == check.scratch.path else ("false",)

        def judge(result, name=name, path=path, remotes=remotes):
            got = set(olines(result))
            return None if got <= {f"{name} {r}" for r in remotes} and not result["code"] else f"{path}: {got} instead of {name}"
        # symbolic links belong to the directory they are in; other file systems below are mount points
        if number:
            cases.append(case(f"fs {path}", ["-j1", "-d0", "-o", "fs.type,remote", "type=f"], judge, path))

    def type_of(path):
        return subprocess.run(["stat", "-f", "-c", "%T", path], capture_output=True, check=True).stdout.decode().strip()
    cwd = check.tree("filesystems", [("d", "d"), ("f", "f", "x"), ("l", "d/shm", "/dev/shm"), ("l", "proc", "/proc"), ("l", "file", "/proc/version"),
                                     ("l", "dangling", "/proc/nowhere"), ("d", "d/-"), ("l", "d/-/null", "/dev/null"), ("l", "d/-/up", "..")])
    own = type_of(cwd)
    if not own.startswith("UNKNOWN"):
        expected = {p: own for p in ("d", "f", "d/shm", "proc", "file", "dangling", "d/-", "d/-/null", "d/-/up")}

        def judge_links(result):
            got = {r["path"]: r["fs.type"] for r in map(json.loads, result["out"].decode().splitlines())}
            got = {os.path.relpath(os.path.join(cwd, p), cwd): v for p, v in got.items()}
            return None if got == expected and not result["code"] else f"file systems {got} instead of {expected}"
        for start in ((), ("-D", "."), ("-D", cwd), ("-a",)):
            cases.append(case(f"fs links {start}", ["-j1", "--jsonl", "-o", "path,fs.type", *start], judge_links, cwd))
        cases.append(case("fs one directory", ["-j1", "-o", "fs.type", "-D", "d/-"], expect_lines([own, own]), cwd))
    # mount points
    tops = {}
    for path in ("/dev", "/proc", "/sys", "/etc"):
        try:
            tops[path] = type_of(path)
        except (OSError, subprocess.CalledProcessError):
            continue
    tops = {p: t for p, t in tops.items() if not t.startswith("UNKNOWN")}

    def judge_tops(result):
        got = {r["path"]: r["fs.type"] for r in map(json.loads, result["out"].decode().splitlines())}
        return None if {p: got.get(p) for p in tops} == tops and not result["code"] else f"file systems {got} instead of {tops}"
    if not any(map(os.path.islink, tops)):
        cases.append(case("fs mount points", ["-j1", "-d0", "-D", "/", "--jsonl", "-o", "path,fs.type", "type=d"], judge_tops, cwd))
    run_cases(check, "filesystems", cases)
    real_runs(check, cases)


def pacman(check):
    """All ways in which two packages own five paths, with a stand-in for the package manager that lists them."""
    cwd = check.tree("pacman", [("f", "d/a b", "x"), ("f", "d/aa", "x"), ("f", "\udcff", "x"), ("f", "end ", "x"), ("f", "d/a", "x"), ("l", "l", "d/a")])
    paths = ["d", "d/a", "d/a b", "\udcff", "end ", "l"]
    others = ["d/aa"]
    attributes = ["pacman.installed", "pacman.pkgname"]
    everything = list(itertools.product((0, 1, 2), repeat=len(paths)))
    if not check.thorough:
        everything = [o for o in everything if sum(map(bool, o)) <= 2 or all(o)]
    cases = []
    for number, owners in enumerate(everything):
        bindir = os.path.join(check.scratch.path, "pacman-bin", str(number))
        os.makedirs(bindir)
        with open(os.path.join(bindir, "list"), "wb") as fobj:
            for name in ("one", "two"):
                fobj.write(f"{name} /\n{name} {os.path.dirname(cwd)}/\n".encode())
                for path, owner in zip(paths, owners):
                    if owner == ("one", "two").index(name) + 1:
                        fobj.write(os.fsencode(f"{name} {cwd}/{path}{'/' * (path == 'd')}\n"))
                fobj.write(f"{name} /nowhere/d/a\n{name} /d/aa\n".encode())
        with open(os.path.join(bindir, "pacman"), "w") as fobj:
            fobj.write(f"#!/bin/sh\n[ \"$*\" = -Ql ] && exec cat {bindir}/list\nexit 1\n")
        os.chmod(os.path.join(bindir, "pacman"), 0o755)
        expected = {path: [owner > 0, (None, "one", "two")[owner]] for path, owner in zip(paths, owners)}
        expected.update({path: [False, None] for path in others})

        def judge(result, expected=expected):
            if result["code"] or err(result):
                return f"status {result['code']} {err(result)[-300:]!r}"
            got = {}
            for line in result["out"].decode().splitlines():
                row = json.loads(line)
                got[os.path.relpath(row["path"], cwd)] = [row[a] for a in attributes]
            return None if got == expected else f"{got} instead of {expected}"
        env = {"PATH": bindir + os.pathsep + os.environ["PATH"]}
        cases.append(case(f"pacman {owners}", ["-j1", "--jsonl", "-o", "path," + ",".join(attributes)], judge, cwd, env=env))
        lines = [path.encode("utf-8", "backslashreplace").decode() for path, values in expected.items() if values[0]]
        for argv, prefix in ((["-a"], cwd + "/"), (["-D", "."], ""), (["-D", cwd], cwd + "/"), ([cwd + "/"], cwd + "/")):
            cases.append(case(f"pacman {argv} {owners}", ["-j1", *argv[:-1], *([argv[-1]] if argv else []), "installed=yes"],
                              expect_lines([prefix + line for line in lines]), cwd, env=env))
        for package, owner in (("one", 1), ("two", 2)):
            cases.append(case(f"pacman {package} {owners}", ["-j1", f"pkgname={package}", "-Dd"],
                              expect_lines([p for p, o in zip(paths, owners) if o == owner and p.startswith("d/")]), cwd, env=env))
    run_cases(check, "pacman", cases)
    check.report.count("states", len(everything))
    real_runs(check, cases[:6])


def main():
    with Check("C28") as check:
        for part in (pacman, grep, hashes, tar, damaged, shebang, py, xattr, medium, mime, repositories, layouts, filesystems):
            part(check)
        return check.report.finish(
            rule="a state is one file with its contents (or one path of a repository in one state) and the attributes it has to have")
