"""C16: the cache survives concurrent searches, kills, errors and damage."""

import hashlib
import itertools
import shutil
import struct
import sqlite3
import subprocess

from .common import *

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEP = "\x1f"
INSTALL = {"install": {"sqlite": True}, "extra_env": PLUGIN_ENV}
FIELDS = ["ca.text", "ca.count", "ca.some", "ca_b.back"]
ARGS = ["-o", ",".join(["name"] + [f + ":n" for f in FIELDS]), f"--sep={SEP}", "type=file"]

# The steps of a history: every program is a process of its own.  DIR is replaced by a directory that
# belongs to the execution, it has a copy of the prepared cache.
BODY = """
import shutil, runpy, time, multiprocessing
work = os.path.join(scenario["options"]["work"], str(os.getppid() if False else os.getpid()))
os.makedirs(work, 0o777)
os.chmod(work, 0o777)
if scenario["seed"]:
    shutil.copytree(scenario["seed"], work, symlinks=True, dirs_exist_ok=True)
exec(scenario["prepare"] or "")

def program(number, argv):
    def run():
        fd = os.open(f"{work}/out{number}", os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o666)
        os.dup2(fd, 1)
        os.close(fd)
        fd = os.open(f"{work}/err{number}", os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o666)
        os.dup2(fd, 2)
        os.close(fd)
        if scenario["user"]:
            os.setgroups([])
            os.setgid(scenario["user"])
            os.setuid(scenario["user"])
        if argv[0] == "new":
            # a newer version of the plugins
            os.environ["FF_PLUGIN_DIRS"] += "2"
            del argv[0]
        sys.argv = ["ff"] + [a.replace("DIR", work) for a in argv]
        runpy.run_path(os.path.join(scenario["repo"], "ff", "__main__.py"), run_name="__main__")
    return multiprocessing.Process(target=run)

number = 0
codes = []
for group in scenario["groups"]:
    processes = []
    for argv in group:
        if isinstance(argv, str):
            # program text instead of a search
            processes.append(multiprocessing.Process(target=lambda text=argv: exec(text, globals())))
        else:
            processes.append(program(number, argv))
        number += 1
    for process in processes:
        process.start()
    for process in processes:
        process.join()
        codes.append(process.exitcode)
report = [codes, []]
for i in range(number):
    texts = []
    for name in ("out", "err"):
        try:
            with open(f"{work}/{name}{i}", "rb") as fobj:
                texts.append(fobj.read())
        except OSError:
            texts.append(b"")
    report[1].append(tuple(texts))
report.append(eval(scenario["finish"]) if scenario["finish"] else None)
sys.stdout.write(repr(report))
sys.stdout.flush()
"""


def history(check, groups, cwd, seed=None, prepare=None, finish=None, user=None, **options):
    """A scenario in which groups of programs run one after another, those of a group at once."""
    os.makedirs(os.path.join(check.scratch.path, "work"), exist_ok=True)
    os.chmod(os.path.join(check.scratch.path, "work"), 0o777)
    options = {"work": os.path.join(check.scratch.path, "work"), "no_snapshot": True, "max_steps": 20000,
               "max_vtime": 600.0, **options}
    scen = scenario([], cwd=cwd, options=options, source=BODY)
    scen.update(groups=groups, seed=seed, prepare=prepare, finish=finish, user=user)
    return scen


def results(result):
    try:
        return eval(result["out"].decode("latin-1"))
    except SyntaxError:
        return None


def program_error(expected, code, texts, codes=(0,)):
    """None if a program ended as expected."""
    out, error = (t.decode("utf-8", "surrogateescape") for t in texts)
    if "Traceback" in error:
        return f"traceback {error[-300:]!r}"
    if code not in codes:
        return f"status {code}: {error[-300:]!r}"
    if expected is not None and sorted(out.split("\n")[:-1]) != expected:
        got = out.split("\n")[:-1]
        return f"missing {[e for e in expected if e not in got][:3]!r}, " \
               f"extra {[g for g in got if g not in expected][:3]!r}, number {len(got)}"
    return None


def judge_all(expected, clean=()):
    """Judge a history: all programs but one of which a process was killed are exact."""
    def judge(result):
        if finished(result):
            return finished(result)
        report = results(result)
        if report is None:
            return f"no report: {err(result)[-300:]!r}"
        if err(result):
            return f"harness output {err(result)[-300:]!r}"
        killed = any(f[0] == "kill" for f in result["faults"])
        for number, (code, texts) in enumerate(zip(*report[:2])):
            if expected[number] == "text":
                continue
            message = program_error(expected[number], code, texts, (0, 2) if number in clean else (0,))
            if message and killed and code:
                killed = False
            elif message:
                return f"program {number}: {message}"
        return None
    return judge


def truth(contents, new=False):
    """The output of the standard search over files with these contents."""
    lines = []
    for name, content in contents.items():
        values = {"ca_b.back": content[::-1]}
        if content.startswith("0"):
            values["ca.count"] = "0"
        elif not content.startswith("!"):
            values.update({"ca.text": "new " + content.upper() if new else content, "ca.count": str(len(content)), "ca.some": ",".join(sorted(set(content)))})
        lines.append(SEP.join([name] + [values.get(f, "") for f in FIELDS]))
    return sorted(lines)


def search(jobs=1, extra=()):
    return ["--cache", "DIR/c.db", f"-j{jobs}"] + ARGS + list(extra)


CLEAN = ["--cache", "DIR/c.db", "--clean-cache"]
HOLDER = """
import sqlite3, time
conn = sqlite3.connect(work + "/c.db", timeout=0, isolation_level=None)
try:
    conn.execute("begin {mode}")
    time.sleep({seconds})
    conn.execute("commit")
except sqlite3.OperationalError:
    pass
conn.close()
"""


def run_real(check, argv, cwd, env=None, **kwargs):
    env = {**clean_env(check.scratch.home, {"PYTHONPATH": REPO, **PLUGIN_ENV}), **(env or {})}
    return subprocess.run([PYTHON, "-m", "ff"] + argv, cwd=cwd, env=env, capture_output=True, stdin=subprocess.DEVNULL,
                          timeout=100, **kwargs)


class Setup:
    """A tree and caches of several kinds for it, made by the real program."""

    def __init__(self, check, number):
        contents = {f"f{i}": ("abcxyz"[i % 6] * (i % 3 + 1) if i % 4 else ("!no", "0x", "?ab")[i // 4 % 3])
                    for i in range(1, number + 1)}
        contents = {k: v for k, v in contents.items() if not v.startswith("?")}
        self.root = os.path.join(check.scratch.path, f"files{number}")
        self.seeds = {}
        os.makedirs(os.path.join(self.root, "gone"))
        for kind in ("none", "stale", "full"):
            seed = os.path.join(check.scratch.path, f"seed{number}-{kind}")
            os.makedirs(seed)
            cache = os.path.join(seed, "c.db")
            for position, (name, content) in enumerate(contents.items()):
                old = kind == "stale" and position % 2
                with open(os.path.join(self.root, name), "w") as fobj:
                    fobj.write("old" if old else content)
                os.utime(os.path.join(self.root, name), (1.5e9 - old, 1.5e9 - old))
            gone = os.path.join(self.root, "gone", "x")
            if kind == "stale":
                with open(gone, "w") as fobj:
                    fobj.write("gone")
            if kind != "none":
                proc = run_real(check, ["--cache", cache, "-j1"] + ARGS, self.root)
                if proc.returncode or not os.path.exists(cache):
                    check.report.violation("cannot make a cache", {"err": proc.stderr.decode(errors="replace")[-2000:]})
            if kind == "stale":
                os.unlink(gone)
            self.seeds[kind] = seed
        self.truth = truth(contents)
        self.new_truth = truth(contents, True)


def database(dev, choice, alt):
    """Deviations at database operations only."""
    return choice[4] in ("db", "sleep")


def schedules(check, setup, thorough):
    """Searches that run at the same time, with every interleaving of their database operations."""
    more = 1 if thorough else 0
    jobs = []

    def job(name, groups, seed, bound, clean=(), restrict=None, preload=True, **options):
        judge = judge_all([None if number in clean else "text" if isinstance(argv, str) else
                           setup.new_truth if argv[0] == "new" else setup.truth
                           for number, argv in enumerate(a for group in groups for a in group)], clean)
        scen = history(check, groups, setup.root, setup.seeds[seed], **options)
        jobs.append((f"{name} ({seed} cache)", scen, judge, bound, {**INSTALL, "preload": preload},
                     {"restrict": restrict} if restrict else {}))

    for seed in ("none", "stale", "full"):
        job("jobs", [[search(2)], [search()]], seed, 1 + more, alternatives="ys")
        job("two searches", [[search(), search()], [search()]], seed, 1 + more, alternatives="ys")
        job("killed", [[search(2)], [CLEAN], [search()]], seed, 1 + more, clean=(1,), alternatives="k" + "y" * more)
        job("two searches, one killed", [[search(), search()], [search()]], seed, 1 + more, alternatives="k" + "y" * more)
        job("errors", [[search(2)], [CLEAN], [search()]], seed, 1 + more, clean=(1,), alternatives="elfcr" + "y" * more)
        job("search and clean", [[search(), CLEAN], [search()]], seed, 1 + more, clean=(1,), alternatives="ys")
        job("errors of two searches", [[search(), search()], [search()]], seed, 1 + more, alternatives="elfcr" + "y" * more)
    for mode, seconds in itertools.product(("exclusive", "immediate"), (1, 20, 40, 150)):
        holder = HOLDER.format(mode=mode, seconds=seconds)
        job(f"{mode} lock for {seconds} s", [[holder, search(2)], [search()]], "stale", 1, alternatives="s", stall=0.5)
    for seed in ("none", "stale"):
        job("two searches, database operations", [[search(), search()], [search()]], seed, 2 + more, alternatives="y",
            restrict=database)
    for seed in ("none", "full"):
        job("two versions of the plugins", [[search(), ["new"] + search()], [search()]], seed, 1 + more, alternatives="y",
            preload=False, restrict=database)
    job("cleaned twice", [[CLEAN, CLEAN], [search()]], "stale", 1 + more, clean=(0, 1), alternatives="ys")
    explore_scenarios(check, jobs, groups=4)



def read_log(name):
    """The notes of ffmc/wlog.c: (operation, path, offset, data)."""
    data = open(name, "rb").read() if os.path.exists(name) else b""
    ops = []
    position = 0
    while position < len(data):
        op, offset, size, length = struct.unpack_from("<c7xQQQ", data, position)
        position += 32
        path = data[position:position + length].decode()
        position += length
        content = data[position:position + size]
        position += size
        ops.append((op.decode(), path, offset, content))
    return ops


def apply(content, op):
    kind, offset, data = op
    if kind == "t":
        return content[:offset].ljust(offset, b"\0")
    return content[:offset].ljust(offset, b"\0") + data + content[offset + len(data):]


def variants(content, pending, full):
    """What may be left of a file with writes that have not been synced."""
    yield pending
    if not pending:
        return
    yield []
    kind, offset, data = pending[-1]
    if kind == "w" and len(data) > 512:
        cuts = range(512, len(data), 512) if full else (512, len(data) // 1024 * 512)
        for cut in cuts:
            yield pending[:-1] + [(kind, offset, data[:cut])]
            yield pending[:-1] + [(kind, offset + cut, data[cut:])]
    if full or len(pending) < 10:
        for number in range(len(pending)):
            yield pending[:number] + pending[number + 1:]
            yield pending[number:number + 1]


def images(before, ops, base, full=False):
    """All states of the files that a crash during the operations can leave behind: writes that were not
       synced may be missing or torn, everything else is as it was."""
    durable = dict(before)
    pending = {}
    for number in range(len(ops) + 1):
        sets = []
        for name, content in durable.items():
            states = []
            for left in variants(content, pending.get(name, []), full):
                state = content
                for op in left:
                    state = apply(state, op)
                if state not in states:
                    states.append(state)
            sets.append([(name, state) for state in states])
        for image in itertools.product(*sets) if full else (
                tuple(c[(i if j == k else 0)] for k, c in enumerate(sets))
                for j in range(max(1, len(sets))) for i in range(len(sets[j]) if sets else 1)):
            yield number, dict(image)
        if number == len(ops):
            break
        kind, path, offset, data = ops[number]
        name = "c.db" + path[len(base):]
        if kind in "wt":
            if name not in durable:
                durable[name] = b""
            pending.setdefault(name, []).append((kind, offset, data))
        elif kind == "s":
            content = durable.get(name, b"")
            for op in pending.pop(name, []):
                content = apply(content, op)
            durable[name] = content
        elif kind == "u":
            durable.pop(name, None)
            pending.pop(name, None)
        else:
            old = "c.db" + data.decode()[len(base):]
            for table in (durable, pending):
                if old in table:
                    table[name] = table.pop(old)


def crash_cases(check, setup, library):
    """Searches and cleaning after a crash at any point of a program that changes the cache."""
    programs = {"search": ARGS, "clean": ["--clean-cache"]}
    for seed, program in (("none", "search"), ("stale", "search"), ("stale", "clean")):
        work = os.path.join(check.scratch.path, f"crash-{seed}-{program}")
        shutil.copytree(setup.seeds[seed], work)
        before = {n: open(os.path.join(work, n), "rb").read() for n in os.listdir(work)}
        base = os.path.join(work, "c.db")
        log = os.path.join(check.scratch.path, f"log-{seed}-{program}")
        proc = run_real(check, ["--cache", base, "-j1"] + programs[program], setup.root,
                        env={"LD_PRELOAD": library, "FFMC_WLOG": log, "FFMC_WLOG_PATH": base})
        check.report.count("real_runs")
        ops = read_log(log)
        # the notes are complete: they explain the files that are there now
        final = last_state(before, ops, base)
        for name in set(final) | set(os.listdir(work)):
            path = os.path.join(work, name)
            if not name.endswith("-shm") and (not os.path.exists(path) or open(path, "rb").read() != final.get(name)):
                raise HarnessError(f"{seed} {program}: the notes about {name} are not complete {proc.stderr[-300:]}")
        check.report.part(f"crash of {program} ({seed} cache)", {"file operations": len(ops)})
        seen = set()
        for number, image in images(before, ops, base, check.thorough):
            mark = frozenset((k, hashlib.sha1(v).digest()) for k, v in image.items())
            if mark in seen:
                continue
            seen.add(mark)
            expected = [None, setup.truth, setup.truth] if len(seen) % 2 else [setup.truth, None, setup.truth]
            groups = [[CLEAN], [search()], [search()]] if len(seen) % 2 else [[search()], [CLEAN], [search()]]
            scen = history(check, groups, setup.root)
            scen["files"] = image
            scen["prepare"] = PREPARE_FILES
            yield (f"crash of {program} ({seed} cache) at {number}, image {len(seen)}", scen,
                   judge_all(expected, clean=[expected.index(None)]), True)


def last_state(before, ops, base):
    """The files after all operations."""
    for number, image in images(before, ops, base):
        if number == len(ops):
            return image
    return {}


PREPARE_FILES = """
for name, data in scenario["files"].items():
    with open(os.path.join(work, name), "wb") as fobj:
        fobj.write(data)
"""


def damage_cases(check, setup):
    """Searches with damaged and impossible caches."""
    thorough = check.thorough
    with open(os.path.join(setup.seeds["full"], "c.db"), "rb") as fobj:
        good = fobj.read()
    page = int.from_bytes(good[16:18], "big") or 65536
    pages = len(good) // page

    def files(name, content, clean_fails=True, **more):
        scen = history(check, [[search()], [CLEAN], [search(2)]], setup.root, **more)
        scen["files"] = {"c.db": content}
        scen["prepare"] = PREPARE_FILES
        judge = judge_all([setup.truth, None, setup.truth], clean=[1] if clean_fails else [])
        return name, scen, judge, True

    cuts = {0, 1, 15, 16, 17, 50, 99, 100, 101, len(good) - 1}
    for position in range(0, len(good), page if not thorough else 512):
        cuts.update((position - 1, position, position + 1, position + page // 2))
    for cut in sorted(c for c in cuts if 0 <= c < len(good)):
        yield files(f"cut at {cut}", good[:cut], cut > 0)
    for number in range(pages):
        for name, fill in (("zeros", b"\0"), ("ones", b"\xff"), ("text", b"text")):
            content = (fill * page)[:page]
            yield files(f"page {number} is {name}", good[:number * page] + content + good[(number + 1) * page:])
            half = page // 2
            yield files(f"half page {number} is {name}", good[:number * page] + content[:half] + good[number * page + half:])
    for position in range(100):
        for value in (0, 1, 0x7f, 0xff) if not thorough else range(256):
            if good[position] != value:
                yield files(f"header byte {position} is {value}", good[:position] + bytes([value]) + good[position + 1:])
    # the headers of the pages of the tables
    for number in range(pages):
        start = number * page + (100 if number == 0 else 0)
        for position in range(start, start + 12):
            for value in (0, 0x7f, 0xff) if not thorough else range(0, 256, 3):
                if good[position] != value:
                    yield files(f"page {number} byte {position - start} is {value}",
                                good[:position] + bytes([value]) + good[position + 1:])
    for name, content in (("text", b"this is not a database\n" * 300), ("short text", b"x"), ("binary", bytes(range(256)) * 64),
                          ("zeros", bytes(8192)), ("magic", b"SQLite format 3\0"), ("appended", good + b"garbage" * 99)):
        yield files(f"file with {name}", content)


# name: (commands that prepare the cache, path of the cache, may be cleaned, what stays the same)
OBSTACLES = {
    "missing directory": ("", "DIR/no/c.db"),
    "directory": ("os.mkdir(work + '/c.db')", "DIR/c.db"),
    "below a file": ("open(work + '/f', 'w').close()", "DIR/f/c.db"),
    "dangling link": ("os.symlink('nothing', work + '/c.db')", "DIR/c.db"),
    "link into nowhere": ("os.symlink('no/nothing', work + '/c.db')", "DIR/c.db"),
    "link to itself": ("os.symlink('c.db', work + '/c.db')", "DIR/c.db"),
    "fifo": ("os.mkfifo(work + '/c.db'); os.chmod(work + '/c.db', 0o666)", "DIR/c.db"),
    "null": ("", "/dev/null"),
    "full": ("", "/dev/full"),
    "long name": ("", "DIR/" + "x" * 300),
    "long path": ("", "DIR" + "/x" * 3000),
    "empty name": ("", ""),
    "memory": ("", ":memory:"),
    "journal is a directory": ("os.mkdir(work + '/c.db-journal')", "DIR/c.db"),
    "garbage journal": ("open(work + '/c.db-journal', 'wb').write(os.urandom(0) + bytes(range(256)) * 40)", "DIR/c.db"),
    "read-only": ("os.chmod(work + '/c.db', 0o444)", "DIR/c.db"),
    "unreadable": ("os.chmod(work + '/c.db', 0)", "DIR/c.db"),
    "in a read-only directory": ("os.mkdir(work + '/ro'); shutil.move(work + '/c.db', work + '/ro/c.db'); "
                                 "os.chmod(work + '/ro/c.db', 0o666); os.chmod(work + '/ro', 0o555)", "DIR/ro/c.db"),
    "in a closed directory": ("os.mkdir(work + '/ro'); os.chmod(work + '/ro', 0)", "DIR/ro/c.db"),
    "undecodable": ("shutil.copy(work + '/c.db', work + '/c' + os.fsdecode(b'\\xff') + '.db')", "DIR/c\udcff.db"),
    "special characters": ("", "DIR/a?mode=ro&x=%00#y z'\".db"),
    "looks like a URI": ("", "file:DIR/c.db?mode=ro"),
}

# SQL that is run on a good cache; TABLE is each of its tables
SCHEMAS = {
    "other columns": ["create table other (a, b)", "drop table TABLE", "create table TABLE (a, b, c, d)"],
    "fewer columns": ["drop table TABLE", "create table TABLE (path)"],
    "a view": ["drop table TABLE", "create table x_TABLE (path, tag, data)", "create view TABLE as select * from x_TABLE"],
    "no index": ["drop index TABLE_idx"],
    "garbage data": ["update TABLE set data = x'80049500ff'"],
    "empty data": ["update TABLE set data = x''"],
    "text data": ["update TABLE set data = 'text'"],
    "number data": ["update TABLE set data = 5"],
    "class that is missing": [r"update TABLE set data = cast('cnosuchmodule' || char(10) || 'Name' || char(10) || '.' as blob)"],
    "text path": ["update TABLE set path = cast(path as text)"],
    "null tag": ["update TABLE set tag = x''"],
    "other tables": ["create table plugin_ca_123 (x)", "create table plugin_cax_1 (path)", "create table 'a b' (path, c)"],
    "version": ["pragma user_version = 99"], "wal": ["pragma journal_mode = wal"], "trigger":
    ["create trigger t_TABLE before insert on TABLE begin select raise(abort, 'no'); end"],
    "utf16": ["pragma encoding = 'UTF-16'"], "auto vacuum": ["pragma auto_vacuum = 1", "vacuum"],
    "page size": ["pragma page_size = 512", "vacuum"], "locking": ["pragma locking_mode = exclusive"],
}


def obstacle_cases(check, setup):
    for name, (prepare, path) in OBSTACLES.items():
        for user in (None, 12345):
            groups = [[["--cache", path] + search()[2:]], [["--cache", path, "--clean-cache"]], [["--cache", path] + search(2)[2:]]]
            exists = name in ("read-only", "unreadable", "journal is a directory", "garbage journal", "in a read-only directory",
                              "undecodable")
            scen = history(check, groups, setup.root, setup.seeds["full"] if exists else None, prepare, user=user)
            yield f"{name}, user {user}", scen, judge_all([setup.truth, None, setup.truth], clean=[1]), True
    for name, statements in SCHEMAS.items():
        work = os.path.join(check.scratch.path, "schema")
        shutil.copytree(setup.seeds["full"], work)
        conn = sqlite3.connect(os.path.join(work, "c.db"), isolation_level=None)
        tables = [r[0] for r in conn.execute("select name from sqlite_master where type = 'table'")]
        for statement in statements:
            for table in tables if "TABLE" in statement else [""]:
                conn.execute(statement.replace("TABLE", table))
        conn.close()
        data = {n: open(os.path.join(work, n), "rb").read() for n in os.listdir(work)}
        shutil.rmtree(work)
        for groups in ([[search()], [CLEAN], [search(2)]], [[CLEAN], [search()], [search()]]):
            scen = history(check, groups, setup.root)
            scen.update(files=data, prepare=PREPARE_FILES)
            expected = [None if a[0] == CLEAN else setup.truth for a in groups]
            yield f"{name} {groups[0][0][-1]}", scen, judge_all(expected, clean=[expected.index(None)]), True


def foreign_cases(check, setup):
    """Files that are not caches are never changed."""
    for name, content in (("text", b"my precious text\n" * 1000), ("binary", bytes(range(256)) * 64)):
        scen = history(check, [[search()], [CLEAN], [search(2)]], setup.root,
                       finish="open(work + '/c.db', 'rb').read() == scenario['files']['c.db']")
        scen.update(files={"c.db": content}, prepare=PREPARE_FILES)

        def judge(result, inner=judge_all([setup.truth, None, setup.truth], clean=[1])):
            message = inner(result)
            if message is None and not results(result)[2]:
                message = "the file was changed"
            return message
        yield name, scen, judge, True


def main():
    with Check("C16") as check:
        small = Setup(check, 3)
        medium = Setup(check, 14)
        library = os.path.join(check.scratch.path, "wlog.so")
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", library, os.path.join(ROOT, "ffmc", "wlog.c"), "-ldl"], check=True)
        pool = {"extra_env": PLUGIN_ENV}
        run_cases(check, "obstacles", obstacle_cases(check, small), **pool)
        run_cases(check, "foreign files", foreign_cases(check, small), **pool)
        run_cases(check, "damage", damage_cases(check, small), **pool)
        run_cases(check, "crashes", crash_cases(check, medium, library), **pool)
        schedules(check, small, check.thorough)
        check.report.assumptions += [
            "single operations of SQLite are atomic in the interleavings; what happens inside of them is covered by the crash "
            "images, in which writes that were not synced may be missing or torn at multiples of 512 bytes",
            "a plugin's data is not altered inside of an intact database page"]
        return check.report.finish(
            rule="every interleaving of the database operations of two programs or several jobs within the deviation bound, "
                 "with at most one fault (SIGKILL, I/O error, locked, disk full, corrupt, read-only) at every operation; every "
                 "crash point of a search and of --clean-cache with all prefixes and torn writes of what was not synced; every "
                 "page and header byte of the file damaged; every obstacle and schema of the tables")


if __name__ == "__main__":
    main()
