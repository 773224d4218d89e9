"""Client side of the controlled scheduler ("vmp").

Runs inside the processes that execute the real code of ff.  The code under test is not modified:
`install()` replaces the public constructors of `multiprocessing`, `threading`, `queue`, `subprocess`
and `time` that ff uses by virtual counterparts.  Processes are still real (os.fork, so memory is
really private), but every synchronisation operation is a remote call to the explorer
(ffmc.server), which lets exactly one entity run at a time and decides which one, when timeouts
expire, when a queue's feeder thread gets to write, and so on.
"""

import io
import os
import sys
import time
import zlib
import errno
import builtins
import queue
import pickle
import marshal
import struct
import signal
import sqlite3
import socket
import threading
import traceback
import subprocess
import multiprocessing
import multiprocessing.util
import multiprocessing.process
import multiprocessing.context
import multiprocessing.popen_fork
import multiprocessing.sharedctypes

_HDR = struct.Struct("<I")
_real_time = time.time
_RealThread = threading.Thread
_RealPopen = subprocess.Popen
_tls = threading.local()


class Divergence(BaseException):
    """Raised inside an entity when the explorer tells it to go away."""


class Proc:
    """Per process client state."""
    pool = []            # child ends of all channels, by index
    main_chan = None     # channel index of the process' main thread
    name = "main"
    options = None
    snapshot = False     # stop and fork executions at the first interesting operation
    feed = {}            # qid -> list of objects not yet pickled ("buffer of the feeder thread")
    obj_seq = 0


def _fd():
    chan = getattr(_tls, "chan", None)
    if chan is None:
        chan = Proc.main_chan
    return Proc.pool[chan]


def send_msg(fd, obj):
    data = marshal.dumps(obj)
    data = _HDR.pack(len(data)) + data
    view = memoryview(data)
    while view:
        view = view[os.write(fd, view):]


def _read_exact(fd, num):
    chunks = b""
    while len(chunks) < num:
        data = os.read(fd, num - len(chunks))
        if not data:
            os._exit(97)      # explorer went away
        chunks += data
    return chunks


def recv_msg(fd):
    size, = _HDR.unpack(_read_exact(fd, 4))
    return marshal.loads(_read_exact(fd, size))


SNAPSHOT_OPS = ("q_put", "sq_put", "spawn_process", "spawn_thread", "w_write")


def serve_snapshot():
    """Become a fork server: every execution starts from a copy of this process."""
    fd = _fd()
    send_msg(fd, ("snapshot",))
    sock = socket.socket(fileno=fd)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    while True:
        msg, fds, _, _ = socket.recv_fds(sock, 16, 250)
        if not msg:
            os._exit(0)
        pid = os.fork()
        if pid == 0:
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            outfd, errfd, *pool = fds
            os.dup2(outfd, 1)
            os.dup2(errfd, 2)
            os.close(outfd)
            os.close(errfd)
            sock.detach()
            for old in Proc.pool:
                os.close(old)
            Proc.pool = pool
            send_msg(_fd(), ("hello", os.getpid()))
            recv_msg(_fd())
            return
        for fd in fds:
            os.close(fd)


def rpc(*op):
    """Send an operation to the explorer and wait until it has been executed."""
    if Proc.snapshot and op[0] in SNAPSHOT_OPS:
        Proc.snapshot = False
        serve_snapshot()
    fd = _fd()
    send_msg(fd, op)
    while True:
        msg = recv_msg(fd)
        kind = msg[0]
        if kind == "ok":
            return msg[1]
        elif kind == "flush":
            # The explorer lets the feeder thread of this process write the next object.
            send_msg(fd, ("flushed", _feed_next(msg[1])))
        elif kind == "interrupt":
            raise KeyboardInterrupt
        elif kind == "oserror":
            raise OSError(msg[1], os.strerror(msg[1]))
        else:
            os._exit(98)


def _feed_next(qid):
    """Pickle the oldest object in the feeder buffer; None if it cannot be pickled (the real feeder
       thread prints a traceback and drops the object in this case)."""
    obj = Proc.feed[qid].pop(0)
    try:
        return bytes(multiprocessing.reduction.ForkingPickler.dumps(obj))
    except Exception:
        traceback.print_exc()
        return None


def _new_id(kind):
    return rpc("new", kind)


# ---------------------------------------------------------------------------------------------
# multiprocessing primitives
# ---------------------------------------------------------------------------------------------

class VQueue:
    """multiprocessing.Queue: put() hands the object to a feeder, it becomes visible when the
       feeder has pickled and written it; qsize() counts from put() to get()."""

    def __init__(self, maxsize=0, *, ctx=None):
        self._maxsize = max(maxsize, 0)
        self._id = rpc("new_q", self._maxsize)
        self._closed = False

    def put(self, obj, block=True, timeout=None):
        if self._closed:
            raise ValueError(f"Queue {self!r} is closed")
        Proc.feed.setdefault(self._id, []).append(obj)
        mode = rpc("q_put", self._id, bool(block), timeout)
        if mode == "full":
            Proc.feed[self._id].pop()
            raise queue.Full

    def get(self, block=True, timeout=None):
        if self._closed:
            raise ValueError(f"Queue {self!r} is closed")
        data = rpc("q_get", self._id, bool(block), timeout)
        if data is None:
            raise queue.Empty
        return pickle.loads(data)

    def put_nowait(self, obj):
        return self.put(obj, False)

    def get_nowait(self):
        return self.get(False)

    def qsize(self):
        return rpc("q_size", self._id)

    def empty(self):
        return rpc("q_empty", self._id)

    def full(self):
        return self._maxsize > 0 and rpc("q_size", self._id) >= self._maxsize

    def close(self):
        self._closed = True

    def join_thread(self):
        rpc("q_join_feeder", self._id)

    def cancel_join_thread(self):
        rpc("q_cancel_join", self._id)


class VJoinableQueue(VQueue):
    def __init__(self, maxsize=0, *, ctx=None):
        super().__init__(maxsize)
        self._cond = VCondition()
        self._unfinished = VRawValue("i", 0)

    def put(self, obj, block=True, timeout=None):
        with self._cond:
            self._unfinished.value += 1
        super().put(obj, block, timeout)

    def task_done(self):
        with self._cond:
            num = self._unfinished.value - 1
            if num < 0:
                raise ValueError("task_done() called too many times")
            self._unfinished.value = num
            if num == 0:
                self._cond.notify_all()

    def join(self):
        with self._cond:
            if self._unfinished.value:
                self._cond.wait()


class VSimpleQueue:
    """multiprocessing.SimpleQueue: put() writes synchronously."""

    def __init__(self, *, ctx=None):
        self._id = rpc("new_q", 0)

    def put(self, obj):
        rpc("sq_put", self._id, bytes(multiprocessing.reduction.ForkingPickler.dumps(obj)))

    def get(self):
        return pickle.loads(rpc("q_get", self._id, True, None))

    def empty(self):
        return rpc("q_empty", self._id)

    def close(self):
        pass


class VLock:
    _kind = "lock"

    def __init__(self, *args, **kwargs):
        self._id = rpc("new_lock", self._kind)

    def acquire(self, block=True, timeout=None):
        if timeout is not None and timeout < 0:
            timeout = None
        return rpc("l_acquire", self._id, bool(block), timeout)

    def release(self):
        if not rpc("l_release", self._id):
            raise ValueError("semaphore or lock released too many times")

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *args):
        self.release()

    def locked(self):
        return rpc("l_locked", self._id)


class VRLock(VLock):
    _kind = "rlock"


class VSemaphore:
    def __init__(self, value=1, *, ctx=None):
        self._id = rpc("new_sem", value, 0)

    def acquire(self, block=True, timeout=None):
        return rpc("s_acquire", self._id, bool(block), timeout)

    def release(self, n=1):
        for _ in range(n):
            if not rpc("s_release", self._id):
                raise ValueError("semaphore or lock released too many times")

    def get_value(self):
        return rpc("s_value", self._id)

    __enter__ = acquire

    def __exit__(self, *args):
        self.release()


class VBoundedSemaphore(VSemaphore):
    def __init__(self, value=1, *, ctx=None):
        self._id = rpc("new_sem", value, value)


class VCondition:
    def __init__(self, lock=None, *, ctx=None):
        self._lock = lock if lock is not None else VRLock()
        self._id = rpc("new_cond")
        self.acquire = self._lock.acquire
        self.release = self._lock.release

    def __enter__(self):
        return self._lock.acquire()

    def __exit__(self, *args):
        self._lock.release()

    def __getstate__(self):
        return self._lock, self._id

    def __setstate__(self, state):
        self._lock, self._id = state
        self.acquire = self._lock.acquire
        self.release = self._lock.release

    def wait(self, timeout=None):
        count = rpc("c_enqueue", self._id, self._lock._id)
        try:
            return rpc("c_wait", self._id, timeout)
        finally:
            rpc("l_reacquire", self._lock._id, count)

    def wait_for(self, predicate, timeout=None):
        deadline = None if timeout is None else vtime() + timeout
        result = predicate()
        while not result:
            left = None
            if deadline is not None:
                left = deadline - vtime()
                if left <= 0:
                    break
            self.wait(left)
            result = predicate()
        return result

    def notify(self, n=1):
        rpc("c_notify", self._id, n)

    def notify_all(self):
        rpc("c_notify", self._id, -1)


class VEvent:
    def __init__(self, *, ctx=None):
        self._id = rpc("new_event")

    def is_set(self):
        return rpc("e_is_set", self._id)

    isSet = is_set

    def set(self):
        rpc("e_set", self._id, True)

    def clear(self):
        rpc("e_set", self._id, False)

    def wait(self, timeout=None):
        return rpc("e_wait", self._id, timeout)


class VBarrier:
    """multiprocessing.Barrier / threading.Barrier as an atomic state machine; the states are those
       of threading.Barrier: 0 filling, 1 draining, -1 resetting, -2 broken."""

    def __init__(self, parties, action=None, timeout=None, *, ctx=None):
        self._id = rpc("new_barrier", parties)
        self._action = action
        self._timeout = timeout
        self._parties = parties

    def wait(self, timeout=None):
        if timeout is None:
            timeout = self._timeout
        index = rpc("b_enter", self._id)
        if index == -2:
            raise threading.BrokenBarrierError
        if index == self._parties - 1 and self._action is not None:
            try:
                self._action()
            except BaseException:
                rpc("b_abort", self._id)
                raise
        if not rpc("b_wait", self._id, index, timeout):
            raise threading.BrokenBarrierError
        return index

    def reset(self):
        rpc("b_reset", self._id)

    def abort(self):
        rpc("b_abort", self._id)

    @property
    def parties(self):
        return self._parties

    @property
    def n_waiting(self):
        return rpc("b_n_waiting", self._id)

    @property
    def broken(self):
        return rpc("b_broken", self._id)


class VRawValue:
    def __init__(self, typecode, *args, **_):
        value = args[0] if args else (b"\0" if typecode == "c" else 0.0 if typecode in "fd" else 0)
        self._id = rpc("new_value", value)
        self._lock_id = None

    @property
    def value(self):
        return rpc("v_get", self._id, self._lock_id)

    @value.setter
    def value(self, value):
        rpc("v_set", self._id, self._lock_id, value)


class VValue(VRawValue):
    def __init__(self, typecode, *args, lock=True, ctx=None):
        super().__init__(typecode, *args)
        self._lock = VRLock() if lock in (True, None) else lock
        self._lock_id = self._lock._id

    def get_lock(self):
        return self._lock

    def get_obj(self):
        raw = VRawValue.__new__(VRawValue)
        raw._id = self._id
        raw._lock_id = None
        return raw

    def __enter__(self):
        return self._lock.acquire()

    def __exit__(self, *args):
        self._lock.release()


def v_value(typecode, *args, lock=True, ctx=None):
    if lock is False:
        return VRawValue(typecode, *args)
    return VValue(typecode, *args, lock=lock)


class VArray:
    def __init__(self, typecode, init, *, lock=True, ctx=None):
        if isinstance(init, int):
            init = [0] * init
        self._cells = [VRawValue(typecode, v) for v in init]
        self._lock = VRLock() if lock in (True, None) else lock or None

    def get_lock(self):
        return self._lock

    def __len__(self):
        return len(self._cells)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return [c.value for c in self._cells[i]]
        return self._cells[i].value

    def __setitem__(self, i, v):
        self._cells[i].value = v

    def __iter__(self):
        return iter([c.value for c in self._cells])


class VPopenFork:
    """Process launcher that goes with VProcess (replaces multiprocessing.popen_fork.Popen)."""
    method = "fork"

    def __init__(self, process_obj):
        multiprocessing.util._flush_std_streams()
        self.returncode = None
        self.finalizer = None
        chan, name = rpc("spawn_process", process_obj.name)
        self._name = name
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                Proc.main_chan = chan
                Proc.name = name
                Proc.feed = {}
                _tls.__dict__.clear()
                rpc("hello", os.getpid())
                code = process_obj._bootstrap()
            except Divergence:
                os._exit(99)
            finally:
                try:
                    rpc("exiting")
                    rpc("exit", code)
                finally:
                    os._exit(code)
        self.pid = pid
        self.sentinel = -1

    def duplicate_for_child(self, fd):
        return fd

    def _reap(self):
        if self.returncode is None:
            try:
                _, status = os.waitpid(self.pid, 0)
                self.returncode = os.waitstatus_to_exitcode(status)
            except OSError:
                return None
        return self.returncode

    def poll(self, flag=os.WNOHANG):
        if self.returncode is None and rpc("p_poll", self._name):
            return self._reap()
        return self.returncode

    def wait(self, timeout=None):
        if self.returncode is None:
            if not rpc("p_wait", self._name, timeout):
                return None
            return self._reap()
        return self.returncode

    def _send_signal(self, sig):
        if self.returncode is None:
            rpc("p_kill", self._name, int(sig))

    def terminate(self):
        self._send_signal(signal.SIGTERM)

    def kill(self):
        self._send_signal(signal.SIGKILL)

    def interrupt(self):
        self._send_signal(signal.SIGINT)

    def close(self):
        pass


class VProcess(multiprocessing.process.BaseProcess):
    _start_method = "fork"

    @staticmethod
    def _Popen(process_obj):
        return VPopenFork(process_obj)

    @staticmethod
    def _after_fork():
        pass


# ---------------------------------------------------------------------------------------------
# threads inside one process
# ---------------------------------------------------------------------------------------------

class VThread(_RealThread):
    """A real thread that runs only when the explorer lets it."""

    def start(self):
        self._vchan, self._vname = rpc("spawn_thread", self.name)
        super().start()

    def run(self):
        _tls.chan = self._vchan
        rpc("hello", 0)
        try:
            super().run()
        except SystemExit:
            pass
        except Divergence:
            return
        except BaseException:
            traceback.print_exc()
        rpc("thread_exit")

    def join(self, timeout=None):
        if hasattr(self, "_vname"):
            rpc("p_wait", self._vname, timeout)

    def is_alive(self):
        return hasattr(self, "_vname") and not rpc("p_poll", self._vname)


class VThreadQueue:
    """queue.Queue between threads of one process: objects stay local, the explorer sees tokens."""
    _kind = "fifo"

    def __init__(self, maxsize=0):
        self._id = rpc("new_q", max(maxsize, 0))
        self._objs = {}
        self._next = 0
        self.maxsize = maxsize
        self._unfinished = 0

    def put(self, item, block=True, timeout=None):
        key = self._next
        self._next += 1
        self._objs[key] = item
        self._unfinished += 1
        if rpc("tq_put", self._id, self._kind, key, bool(block), timeout) == "full":
            self._unfinished -= 1
            del self._objs[key]
            raise queue.Full

    def get(self, block=True, timeout=None):
        key = rpc("q_get", self._id, bool(block), timeout)
        if key is None:
            raise queue.Empty
        return self._objs.pop(key[0])

    def put_nowait(self, item):
        self.put(item, False)

    def get_nowait(self):
        return self.get(False)

    def qsize(self):
        return rpc("q_size", self._id)

    def empty(self):
        return rpc("q_empty", self._id)

    def full(self):
        return 0 < self.maxsize <= self.qsize()

    def task_done(self):
        self._unfinished -= 1
        rpc("tq_done", self._id)

    def join(self):
        rpc("tq_join", self._id)


class VLifoQueue(VThreadQueue):
    _kind = "lifo"


def vtime():
    if not Proc.pool:
        return _real_time()
    return rpc("now")


def vtime_ns():
    return int(vtime() * 1000000000)


def vsleep(seconds):
    rpc("sleep", float(seconds))


# ---------------------------------------------------------------------------------------------
# subprocesses
# ---------------------------------------------------------------------------------------------

class VPopen:
    """subprocess.Popen without a real subprocess: the explorer keeps the list of calls and decides
       the outcome (exit code, duration, errno) according to the scenario."""

    def __init__(self, args, *_, **kwargs):
        if isinstance(args, (str, bytes)):
            args = [args]
        self.args = list(args)
        self.returncode = None
        self.stdin = self.stdout = self.stderr = None
        for arg in self.args:
            if "\0" in arg:
                raise ValueError("embedded null byte")
            os.fsencode(arg)
        fs_args = [os.fsdecode(a) for a in self.args]
        self.pid = rpc("x_spawn", fs_args)

    def __class_getitem__(cls, _):
        return cls

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.wait()

    def poll(self):
        if self.returncode is None:
            self.returncode = rpc("x_poll", self.pid)
        return self.returncode

    def wait(self, timeout=None):
        if self.returncode is None:
            code = rpc("x_wait", self.pid, timeout)
            if code is None:
                raise subprocess.TimeoutExpired(self.args, timeout)
            self.returncode = code
        return self.returncode

    def communicate(self, input=None, timeout=None):
        self.wait(timeout)
        return None, None

    def send_signal(self, sig):
        if self.returncode is None:
            rpc("x_kill", self.pid, int(sig))

    def terminate(self):
        self.send_signal(signal.SIGTERM)

    def kill(self):
        self.send_signal(signal.SIGKILL)


# ---------------------------------------------------------------------------------------------
# standard output
# ---------------------------------------------------------------------------------------------

class VRaw(io.RawIOBase):
    """File descriptor 1: every write(2) is an operation the explorer schedules."""

    def writable(self):
        return True

    def fileno(self):
        return 1

    def isatty(self):
        return False

    def write(self, data):
        data = bytes(data)
        chunk = Proc.options.get("pipe_chunk", 4096)
        pos = 0
        while pos < len(data):
            error = rpc("w_write", data[pos:pos + chunk])
            if error == "epipe":
                raise BrokenPipeError(32, "Broken pipe")
            if error == "enospc":
                raise OSError(28, "No space left on device")
            pos += chunk
        return len(data)


# ---------------------------------------------------------------------------------------------
# sqlite
# ---------------------------------------------------------------------------------------------

DB_FAULTS = {
    "e": (sqlite3.OperationalError, "disk I/O error"),
    "l": (sqlite3.OperationalError, "database is locked"),
    "f": (sqlite3.OperationalError, "database or disk is full"),
    "c": (sqlite3.DatabaseError, "database disk image is malformed"),
    "r": (sqlite3.OperationalError, "attempt to write a readonly database"),
}


def _db(conn, what, sql, params, func):
    """Do a database operation on the real database when the explorer lets this process continue.
       Waiting for locks happens in virtual time."""
    fault = rpc("db", what, sql[:60])
    if fault is not None:
        exc_class, message = DB_FAULTS[fault]
        raise exc_class(message)
    waited = 0
    pause = 0.05
    digest = 0
    try:
        while True:
            try:
                result = func()
            except sqlite3.OperationalError as exc:
                if "locked" not in str(exc) or waited >= conn._vtimeout:
                    digest = 1
                    raise
                rpc("sleep", pause)
                waited += pause
                pause = min(pause * 2, 2.0)
            else:
                if not sql.lstrip().lower().startswith("select"):
                    digest = zlib.crc32(repr((what, sql, params)).encode())
                return result
    finally:
        rpc("db_done", digest)


class VCursor(sqlite3.Cursor):
    def execute(self, sql, *params):
        return _db(self.connection, "execute", sql, params, lambda: sqlite3.Cursor.execute(self, sql, *params))

    def executemany(self, sql, params):
        params = list(params)
        return _db(self.connection, "executemany", sql, params, lambda: sqlite3.Cursor.executemany(self, sql, params))

    def executescript(self, sql):
        return _db(self.connection, "executescript", sql, (), lambda: sqlite3.Cursor.executescript(self, sql))


class VConnection(sqlite3.Connection):
    """A real connection; each operation is one atomic step of the explorer."""
    _vtimeout = 5.0

    def cursor(self, factory=VCursor):
        return super().cursor(factory)

    def execute(self, sql, *params):
        return self.cursor().execute(sql, *params)

    def executemany(self, sql, params):
        return self.cursor().executemany(sql, params)

    def executescript(self, sql):
        return self.cursor().executescript(sql)

    def commit(self):
        return _db(self, "commit", "", (), lambda: sqlite3.Connection.commit(self))

    def rollback(self):
        return _db(self, "rollback", "", (), lambda: sqlite3.Connection.rollback(self))

    def __exit__(self, typ, value, tb):
        if typ is None:
            self.commit()
        else:
            self.rollback()
        return False


_real_connect = sqlite3.connect


def v_connect(database, timeout=5.0, *args, **kwargs):
    fault = rpc("db", "connect", "")
    if fault is not None:
        raise sqlite3.OperationalError("unable to open database file")
    try:
        kwargs.setdefault("factory", VConnection)
        conn = _real_connect(database, 0, *args, **kwargs)
        conn._vtimeout = timeout
        return conn
    finally:
        rpc("db_done", 0)


# -- system calls on entries ------------------------------------------------------------------
FS_FAULTS = {"N": errno.ENOENT, "A": errno.EACCES, "I": errno.EIO, "D": errno.ENOTDIR,
             "L": errno.ELOOP, "S": errno.ESTALE}


class _FS:
    """The real functions."""
    root = None
    private = False      # root is a copy that only this execution uses
    scandir = os.scandir
    stat = os.stat
    lstat = os.lstat
    readlink = os.readlink
    listdir = os.listdir
    open = builtins.open


def _fs(kind, path):
    """Ask the explorer whether this system call fails."""
    if _FS.root is None or not isinstance(path, (str, bytes, os.PathLike)):
        return None
    path = os.fsdecode(path)
    full = os.path.normpath(os.path.join(_FS.root, path))
    if not full.startswith(_FS.root + "/"):
        return None
    rel = full[len(_FS.root) + 1:]
    fault = rpc("fs", kind, rel)
    if fault in FS_FAULTS:
        code = FS_FAULTS[fault]
        raise OSError(code, os.strerror(code), path)
    if fault == "V":
        _remove(full)
    return fault


def _remove(path):
    """Remove the entry for real, always inside the private copy of the tree of this execution."""
    if not _FS.private or not path.startswith(_FS.root + "/"):
        os._exit(97)
    try:
        os.unlink(path)
    except IsADirectoryError:
        with _FS.scandir(path) as entries:
            names = [entry.name for entry in entries]
        for name in names:
            _remove(path + "/" + name)
        os.rmdir(path)
    except FileNotFoundError:
        pass


class _After:
    """Some system call on `path`, possibly followed by a removal."""

    def __init__(self, kind, path):
        self.path = path
        self.fault = _fs(kind, path)

    def __enter__(self):
        return self.fault

    def __exit__(self, *args):
        if self.fault in ("W", "P"):
            full = os.path.normpath(os.path.join(_FS.root, os.fsdecode(self.path)))
            _remove(full if self.fault == "W" else os.path.dirname(full))


class VDirEntry:
    """A directory entry whose stat() may fail."""

    def __init__(self, entry):
        self._entry = entry
        self.name = entry.name
        self.path = entry.path

    def __fspath__(self):
        return self.path

    def __repr__(self):
        return repr(self._entry)

    def inode(self):
        return self._entry.inode()

    def stat(self, *, follow_symlinks=True):
        with _After("stat", self.path):
            return self._entry.stat(follow_symlinks=follow_symlinks)

    def is_dir(self, *, follow_symlinks=True):
        return self._entry.is_dir(follow_symlinks=follow_symlinks)

    def is_file(self, *, follow_symlinks=True):
        return self._entry.is_file(follow_symlinks=follow_symlinks)

    def is_symlink(self):
        return self._entry.is_symlink()


class VScandir:
    def __init__(self, path):
        # the order in which a file system lists a directory must not matter
        with _After("scandir", path):
            with _FS.scandir(path) as entries:
                self._entries = sorted(entries, key=lambda entry: entry.name)
        self._path = path

    def __iter__(self):
        return self

    def __next__(self):
        _fs("readdir", self._path)
        if not self._entries:
            raise StopIteration
        return VDirEntry(self._entries.pop(0))

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return None

    def close(self):
        self._entries = []


class VFailingRaw(io.FileIO):
    def readinto(self, buf):
        raise OSError(errno.EIO, os.strerror(errno.EIO))

    def read(self, size=-1):
        raise OSError(errno.EIO, os.strerror(errno.EIO))

    def readall(self):
        raise OSError(errno.EIO, os.strerror(errno.EIO))


def fs_scandir(path="."):
    return VScandir(path)


def fs_stat(path, *, dir_fd=None, follow_symlinks=True):
    with _After("stat", path):
        return _FS.stat(path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)


def fs_lstat(path, *, dir_fd=None):
    with _After("stat", path):
        return _FS.lstat(path, dir_fd=dir_fd)


def fs_readlink(path, *, dir_fd=None):
    with _After("readlink", path):
        return _FS.readlink(path, dir_fd=dir_fd)


def fs_listdir(path="."):
    with _After("scandir", path):
        return _FS.listdir(path)


def fs_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True,
            opener=None):
    with _After("open", file) as fault:
        if fault != "R":
            return _FS.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        raw = VFailingRaw(file, mode.replace("b", "").replace("t", ""))
        if "b" in mode:
            return raw if buffering == 0 else io.BufferedReader(raw)
        return io.TextIOWrapper(io.BufferedReader(raw), encoding, errors, newline)


def install_fs():
    os.scandir, os.stat, os.lstat = fs_scandir, fs_stat, fs_lstat
    os.readlink, os.listdir = fs_readlink, fs_listdir
    os.supports_follow_symlinks.add(fs_stat)
    os.supports_dir_fd.update((fs_stat, fs_lstat, fs_readlink))
    os.supports_fd.update((fs_stat, fs_scandir, fs_listdir))
    builtins.open = io.open = fs_open
    import tarfile
    tarfile.bltn_open = fs_open


class _Context:
    """What multiprocessing.get_context() returns."""


class OrderedSet(dict):
    """multiprocessing polls its children in the order of a set of objects, i.e. of addresses."""

    def add(self, obj):
        self[obj] = None

    def discard(self, obj):
        self.pop(obj, None)

    remove = discard


def install(options):
    """Replace the primitives.  Must run in the template process before libff is imported, because
       some names may be imported with from-imports."""
    mp = multiprocessing
    table = {
        "Queue": VQueue, "JoinableQueue": VJoinableQueue, "SimpleQueue": VSimpleQueue,
        "Lock": VLock, "RLock": VRLock, "Semaphore": VSemaphore,
        "BoundedSemaphore": VBoundedSemaphore, "Condition": VCondition, "Event": VEvent,
        "Barrier": VBarrier, "Value": v_value, "Array": VArray, "RawValue": VRawValue,
        "Process": VProcess,
    }
    mp.process._children = OrderedSet()
    ctx = _Context()
    for name, obj in table.items():
        setattr(mp, name, obj)
        setattr(ctx, name, staticmethod(obj) if False else obj)
    cpus = options.get("cpus", 4)
    mp.cpu_count = lambda: cpus
    os.cpu_count = lambda: cpus
    if hasattr(os, "sched_getaffinity"):
        os.sched_getaffinity = lambda pid=0: set(range(cpus))
    ctx.cpu_count = mp.cpu_count
    ctx.get_start_method = lambda *a, **k: "fork"
    mp.get_context = lambda method=None: ctx
    mp.sharedctypes.RawValue = VRawValue
    mp.sharedctypes.Value = v_value
    mp.sharedctypes.Array = VArray
    if options.get("threads", True):
        threading.Thread = VThread
        queue.Queue = VThreadQueue
        queue.SimpleQueue = VThreadQueue
        queue.LifoQueue = VLifoQueue
    if options.get("subprocess", False):
        subprocess.Popen = VPopen
    if options.get("sqlite", False):
        sqlite3.connect = sqlite3.dbapi2.connect = v_connect
    if options.get("fs", False):
        install_fs()
    if options.get("time", True):
        time.time = vtime
        time.monotonic = time.perf_counter = vtime
        time.time_ns = time.monotonic_ns = time.perf_counter_ns = vtime_ns
        time.sleep = vsleep


class ThreadPrimitives:
    """Virtual threading.Lock etc. are only installed into libff's own modules (the interpreter and
       the standard library need the real ones)."""
    names = {"Lock": VLock, "RLock": VRLock, "Semaphore": VSemaphore,
             "BoundedSemaphore": VBoundedSemaphore, "Condition": VCondition, "Event": VEvent,
             "Barrier": VBarrier}


class _ModuleProxy:
    def __init__(self, module, overrides):
        self.__dict__["_module"] = module
        self.__dict__.update(overrides)

    def __getattr__(self, name):
        return getattr(self.__dict__["_module"], name)


def patch_libff():
    """Give modules of the code under test virtual threading primitives."""
    proxy = _ModuleProxy(threading, {**ThreadPrimitives.names, "Thread": VThread})
    reals = {id(getattr(threading, name)): obj for name, obj in ThreadPrimitives.names.items()}
    for name, module in list(sys.modules.items()):
        if name != "libff" and not name.startswith("libff."):
            continue
        for key, val in list(vars(module).items()):
            if val is threading:
                setattr(module, key, proxy)
            elif id(val) in reals:
                setattr(module, key, reals[id(val)])
