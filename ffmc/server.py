"""Explorer side of the controlled scheduler: runs one execution of the real code under a given list
of deviations and records everything that happened.

An execution is a sequence of atomic operations on virtual synchronisation objects.  By default the
scheduler is non-preemptive (the running entity goes on until it blocks, then the next entity in
round-robin order), queue feeders write at once, and virtual time only advances to the earliest
deadline when nothing else can run.  A deviation changes one decision:

    y   yield: the entity that is about to execute its operation goes to the back of the queue
    s   stall: the entity is suspended for `stall` seconds of virtual time before its operation
    d   (queue put) the feeder thread of the process writes the object `stall` seconds later
    k   (fault) the process is killed with SIGKILL before its operation
    i   (fault) KeyboardInterrupt is raised in the main process instead of the operation
    p   (fault) standard output breaks: this and all later writes fail with EPIPE
    e   (fault) a database operation fails with an I/O error; likewise l: locked, f: disk full,
        c: corrupt, r: read-only
    N A I D L S   (fault) a system call on an entry below the current directory fails with ENOENT,
        EACCES, EIO, ENOTDIR, ELOOP, ESTALE; R: an opened file cannot be read (EIO); V, W: the entry is really removed
        before or after the call, P: its directory is removed after it

All executions with at most N deviations are enumerated by ffmc.explore.
"""

import os
import copy
import time
import fcntl
import select
import signal
import socket
import marshal

from . import client

send_msg, recv_msg = client.send_msg, client.recv_msg

READY, RUNNING, DONE = "ready", "running", "done"

BLOCKING_NEVER = frozenset()


def _frozen(op):
    if op is not None and any(isinstance(part, list) for part in op):
        return tuple(tuple(part) if isinstance(part, list) else part for part in op)
    return op


class HarnessError(Exception):
    """The execution left what the virtual primitives can represent."""


class Entity:
    __slots__ = ("name", "chan", "fd", "pid", "pidfd", "proc", "state", "op", "deadline", "timed_out",
                 "stall_until", "hist", "interrupt", "steps", "is_thread", "exitcode", "arrived",
                 "started_op")

    def __init__(self, name, chan, fd, proc, is_thread):
        self.name = name
        self.chan = chan
        self.fd = fd
        self.pid = 0
        self.pidfd = None
        self.proc = proc
        self.is_thread = is_thread
        self.state = RUNNING
        self.op = None
        self.deadline = None
        self.timed_out = False
        self.stall_until = None
        self.hist = 0
        self.interrupt = False
        self.steps = 0
        self.exitcode = None
        self.arrived = 0


class VQ:
    __slots__ = ("maxsize", "count", "pipe", "pipe_bytes", "buffers", "cancel_join", "rlock_dead",
                 "unfinished", "waiting_flush")

    def __init__(self, maxsize):
        self.maxsize = maxsize
        self.count = 0
        self.pipe = []          # visible messages (bytes) or (key,) tokens
        self.pipe_bytes = 0
        self.buffers = {}       # process -> list of wake times of objects in its feeder buffer
        self.cancel_join = set()
        self.rlock_dead = False
        self.unfinished = 0


class Execution:
    """One controlled execution."""

    POOL = 16

    def __init__(self, body, options, deviations=(), trace=False):
        self.body = body
        self.options = options
        self.deviations = dict(deviations)
        self.stall = options.get("stall", 0.025)
        self.pipe_cap = options.get("pipe_cap", 65536)
        self.max_steps = options.get("max_steps", 6000)
        self.max_vtime = options.get("max_vtime", 120.0)
        self.max_choice_steps = options.get("max_choice_steps", 10 ** 9)
        self.real_timeout = options.get("real_timeout", 30.0)
        self.alternatives = options.get("alternatives", "ysd")
        self.max_faults = options.get("max_faults", 1)
        self.time_base = options.get("time_base", 1.6e9)
        self.trace = trace

        self.entities = {}
        self.order = []          # round robin order of entity names
        self.current = None
        self.now = 0.0
        self.steps = 0
        self.objects = []
        self.choices = []        # [(step, alternatives, state hash)]
        self.log = []            # trace of operations
        self.writes = []         # [(entity, bytes)]
        self.calls = []          # subprocess calls: dicts
        self.broken_pipe = False
        self.finished = None
        self.verdict = None
        # short polling timeouts may be late, which saves operations if much time has to pass
        self.timeout_scale = options.get("timeout_scale", 1)
        self.next_chan = 1
        self.pool_size = options.get("channels", self.POOL)
        self.counter = {}
        self.faults = []
        self.main_code = None
        self.deaths = []

    # -- life cycle ---------------------------------------------------------------------------
    def _open_channels(self):
        self.pairs = [socket.socketpair() for _ in range(self.pool_size)]
        self.outfd = os.memfd_create("out", 0)
        self.errfd = os.memfd_create("err", 0)
        for fd in (self.outfd, self.errfd):
            fcntl.fcntl(fd, fcntl.F_SETFL, fcntl.fcntl(fd, fcntl.F_GETFL) | os.O_APPEND)
        self.parent_fds = [p[0].fileno() for p in self.pairs]
        return [p[1].fileno() for p in self.pairs]

    def _close_child_ends(self):
        for pair in self.pairs:
            pair[1].close()

    def run(self, snapshot=False):
        """Run from the start; with `snapshot` stop at the first interesting operation (self.snapshot
           is then True and the execution can be used as a base of `run_from`)."""
        child_fds = self._open_channels()
        self.prefix_out = self.prefix_err = b""
        self.snapshot = False
        pid = os.fork()
        if pid == 0:
            try:
                for pair in self.pairs:
                    pair[0].close()
                self._child(child_fds, self.outfd, self.errfd, snapshot)
            finally:
                os._exit(96)
        self._close_child_ends()
        self.main_pid = pid
        main = self._add_entity("main", 0, "main", False)
        main.pid = pid
        main.pidfd = os.pidfd_open(pid)
        try:
            self._recv(main)
            self._loop()
        finally:
            if not self.snapshot:
                self._cleanup()
        return self

    def run_from(self, base):
        """Run from the snapshot `base` (an Execution whose main process serves forks)."""
        child_fds = self._open_channels()
        self.snapshot = False
        self.prefix_out = os.pread(base.outfd, os.fstat(base.outfd).st_size, 0)
        self.prefix_err = os.pread(base.errfd, os.fstat(base.errfd).st_size, 0)
        for name in ("now", "steps", "whash", "dbhash", "broken_pipe", "next_chan", "body_done"):
            setattr(self, name, getattr(base, name))
        for name in ("objects", "writes", "calls", "counter", "choices", "log", "faults"):
            setattr(self, name, copy.deepcopy(getattr(base, name)))
        socket.send_fds(base.pairs[0][0], [b"fork"], [self.outfd, self.errfd] + child_fds)
        self._close_child_ends()
        self.main_pid = None
        main = self._add_entity("main", 0, "main", False)
        main.hist = base.entities["main"].hist
        try:
            self._recv(main)            # hello
            if main.op[0] != "hello":
                raise HarnessError("snapshot failed")
            main.op = None
            main.state = RUNNING
            send_msg(main.fd, ("ok", None))
            self._recv(main)
            self._loop()
        finally:
            self._cleanup()
        return self

    def _cleanup(self):
        for entity in self.entities.values():
            if entity.pidfd is not None and (entity.state != DONE or entity.name == "main"):
                try:
                    signal.pidfd_send_signal(entity.pidfd, signal.SIGKILL)
                except OSError:
                    pass
        self.main_status = None
        if self.main_pid is not None:
            _, status = os.waitpid(self.main_pid, 0)
            self.main_status = os.waitstatus_to_exitcode(status)
        if isinstance(self.entities["main"].exitcode, int):
            self.main_status = self.entities["main"].exitcode & 0xff
        for entity in self.entities.values():
            if entity.pidfd is not None:
                os.close(entity.pidfd)
        for pair in self.pairs:
            pair[0].close()
        self.stdout = self.prefix_out + self._slurp(self.outfd)
        self.stderr = self.prefix_err + self._slurp(self.errfd)

    @staticmethod
    def _slurp(fd):
        size = os.fstat(fd).st_size
        data = os.pread(fd, size, 0) if size else b""
        os.close(fd)
        return data

    def _child(self, child_fds, outfd, errfd, snapshot):
        import io
        import sys
        import atexit
        import threading
        import multiprocessing.util
        client.Proc.pool = child_fds
        client.Proc.main_chan = 0
        client.Proc.name = "main"
        client.Proc.options = self.options
        client.Proc.feed = {}
        devnull = os.open(os.devnull, os.O_RDONLY)
        os.dup2(devnull, 0)
        os.dup2(outfd, 1)
        os.dup2(errfd, 2)
        encoding, _, errors = os.environ.get("PYTHONIOENCODING", "utf-8").partition(":")
        if self.options.get("vstdout", False):
            raw = client.VRaw()
        else:
            raw = io.FileIO(1, "w", closefd=False)
        sys.stdout = io.TextIOWrapper(io.BufferedWriter(raw, 4096), encoding=encoding,
                                      errors=errors or "strict")
        sys.stderr = io.TextIOWrapper(io.FileIO(2, "w", closefd=False), encoding="utf-8",
                                      errors="backslashreplace", write_through=True)
        sys.__stdout__, sys.__stderr__ = sys.stdout, sys.stderr
        code = 0
        import traceback
        client.rpc("hello", os.getpid())
        client.Proc.snapshot = snapshot
        try:
            self.body()
        except SystemExit as exc:
            if exc.code is None:
                code = 0
            elif isinstance(exc.code, int):
                code = exc.code
            else:
                print(exc.code, file=sys.stderr)
                code = 1
        except client.Divergence:
            os._exit(99)
        except KeyboardInterrupt:
            traceback.print_exc()
            code = 130
        except BaseException:
            traceback.print_exc()
            code = 1
        try:
            client.rpc("mark", "body_done", code)
            # What the interpreter does at exit: non-daemon threads, atexit, streams.
            for thread in list(threading.enumerate()):
                if isinstance(thread, client.VThread) and not thread.daemon:
                    thread.join()
            multiprocessing.util._exit_function()
            try:
                sys.stdout.flush()
            except OSError:
                code = 120
            sys.stderr.flush()
        except BaseException:
            traceback.print_exc()
        client.rpc("exit", code)
        os._exit(code & 0xff)

    def _add_entity(self, name, chan, proc, is_thread):
        entity = Entity(name, chan, self.parent_fds[chan], proc, is_thread)
        self.entities[name] = entity
        self.order.append(name)
        return entity

    # -- receiving ----------------------------------------------------------------------------
    def _recv(self, entity):
        """Receive the next operation of a running entity (or notice that it died)."""
        poll = select.poll()
        poll.register(entity.fd, select.POLLIN)
        owner = self.entities[entity.proc]
        if owner.pidfd is not None:
            poll.register(owner.pidfd, select.POLLIN)
        end = time.monotonic() + self.real_timeout
        while True:
            left = end - time.monotonic()
            if left <= 0:
                self._finish("stuck", f"{entity.name} computes without end")
                return None
            events = dict(poll.poll(int(left * 1000) + 1))
            if entity.fd in events:
                msg = recv_msg(entity.fd)
                self._arrive(entity, msg)
                return msg
            if owner.pidfd is not None and owner.pidfd in events:
                self._process_died(owner)
                return None

    def _process_died(self, owner):
        self.deaths.append(owner.name)
        for entity in self.entities.values():
            if entity.proc == owner.name and entity.state != DONE:
                if entity.op is not None and entity.op[0] == "q_get":
                    self.objects[entity.op[1]].rlock_dead = True
                if entity.op is not None and entity.op[0] == "b_wait":
                    self.objects[entity.op[1]]["dead"] += 1
                entity.state = DONE
                entity.op = None
        if owner.exitcode is None:
            owner.exitcode = "died"
        for obj in self.objects:
            if isinstance(obj, VQ):
                obj.buffers.pop(owner.name, None)

    def _arrive(self, entity, msg):
        op = msg[0]
        if op == "snapshot":
            self.snapshot = True
            self._finish("snapshot")
            return
        if op == "hello":
            entity.pid = msg[1]
            if not entity.is_thread and entity.pidfd is None:
                entity.pidfd = os.pidfd_open(msg[1])
            msg = ("hello",)
        entity.op = msg
        entity.state = READY
        entity.timed_out = False
        self.arrival = getattr(self, "arrival", 0) + 1
        entity.arrived = self.arrival
        timeout = self._timeout_of(msg)
        if timeout and timeout < 0.1 and self.timeout_scale != 1:
            timeout *= self.timeout_scale
        entity.deadline = None if timeout is None else self.now + max(timeout, 0.0)

    @staticmethod
    def _timeout_of(msg):
        op = msg[0]
        if op in ("q_get", "q_put", "l_acquire", "s_acquire"):
            if not msg[2]:
                return 0.0
            return msg[3]
        if op == "tq_put":
            return msg[5] if msg[4] else 0.0
        if op in ("c_wait", "e_wait", "p_wait"):
            return msg[2]
        if op == "b_wait":
            return msg[3]
        if op == "x_wait":
            return msg[2]
        if op == "sleep":
            return msg[1]
        return None

    # -- main loop ----------------------------------------------------------------------------
    def _finish(self, verdict, detail=""):
        if self.finished is None:
            self.finished = verdict
            self.verdict = (verdict, detail)

    def _loop(self):
        entities = self.entities
        while self.finished is None:
            main = entities["main"]
            if main.state == DONE:
                self._finish("exit")
                break
            if self.steps >= self.max_steps:
                self._finish("hang", f"no end after {self.steps} operations "
                                     f"({self.now:.2f}s of virtual time)")
                break

            # Free operations never are scheduling points.
            entity = self._pick()
            if entity is None:
                if not self._advance():
                    waiting = ", ".join(f"{e.name}:{e.op[0]}" for e in entities.values()
                                        if e.state == READY)
                    self._finish("deadlock", f"nothing can run: {waiting}")
                elif self.now > self.max_vtime:
                    self._finish("hang", f"no end after {self.now:.1f}s of virtual time")
                continue

            choice = self._choice_point(entity)
            if choice == "y":
                self.order.remove(entity.name)
                self.order.append(entity.name)
                self.current = None
                continue
            elif choice == "s":
                entity.stall_until = self.now + self.stall
                if self.current == entity.name:
                    self.current = None
                continue
            elif choice == "k":
                self.faults.append(("kill", entity.name, entity.op[0]))
                self._kill(self.entities[entity.proc], signal.SIGKILL)
                continue

            self._execute(entity, choice)

    def _runnable(self, entity):
        return entity.state == READY and entity.stall_until is None and self._enabled(entity)

    def _pick(self):
        if self.current is not None:
            entity = self.entities[self.current]
            if self._runnable(entity):
                if entity.steps < 400:
                    return entity
                entity.steps = 0
                self.order.remove(entity.name)
                self.order.append(entity.name)
                self.current = None
        order = self.order
        start = 0
        if self.current is not None:
            start = order.index(self.current) + 1
        num = len(order)
        for i in range(num):
            entity = self.entities[order[(start + i) % num]]
            if self._runnable(entity):
                entity.steps = 0
                return entity
        return None

    def _advance(self):
        """Nothing can run: let the virtual time advance to the next event."""
        best = None
        for entity in self.entities.values():
            if entity.state != READY:
                continue
            if entity.stall_until is not None:
                key = (entity.stall_until, 0, entity.arrived)
                if best is None or key < best[0]:
                    best = (key, "stall", entity)
            elif entity.deadline is not None and not entity.timed_out:
                key = (entity.deadline, 1, entity.arrived)
                if best is None or key < best[0]:
                    best = (key, "timer", entity)
        for qid, obj in enumerate(self.objects):
            if isinstance(obj, VQ):
                for proc, wakes in obj.buffers.items():
                    if wakes and (obj.pipe_bytes < self.pipe_cap or not obj.pipe):
                        key = (max(wakes[0], self.now), 0, -1)
                        if best is None or key < best[0]:
                            best = (key, "feed", (qid, proc))
        for call in self.calls:
            if call["end"] is not None and call["code"] is None:
                key = (call["end"], 0, -2)
                if best is None or key < best[0]:
                    best = (key, "call", call)
        if best is None:
            return False
        self.now = max(self.now, best[0][0])
        kind, what = best[1], best[2]
        if kind == "stall":
            what.stall_until = None
        elif kind == "timer":
            what.timed_out = True
        elif kind == "feed":
            self._feed(*what)
        elif kind == "call":
            what["code"] = what["result"]
        return True

    # -- choice points ------------------------------------------------------------------------
    FREE = frozenset(("hello", "mark", "new", "now", "new_q", "new_lock", "new_sem", "new_cond",
                      "db_done", "new_event", "new_barrier", "new_value", "q_join_feeder", "q_cancel_join"))

    def _choice_point(self, entity):
        op = entity.op[0]
        if op in self.FREE or self.steps >= self.max_choice_steps or entity.timed_out and False:
            return None
        others = any(e is not entity and self._runnable(e) for e in self.entities.values())
        alts = ""
        alive = sum(1 for e in self.entities.values() if e.state != DONE)
        if op == "exiting" and not any(
                isinstance(o, VQ) and o.buffers.get(entity.proc) for o in self.objects):
            return None
        for alt in self.alternatives:
            if alt == "y":
                if others and op not in ("fs", "exiting"):
                    alts += "y"
            elif alt == "s":
                if alive > 1 and op not in ("fs", "exiting"):
                    alts += "s"
            elif alt == "d":
                if op == "q_put":
                    alts += "d"
            elif alt == "k":
                if entity.proc != "main" and not self.faults:
                    alts += "k"
            elif alt == "i":
                if entity.name == "main" and not self.faults and not self.body_done:
                    alts += "i"
            elif alt in "elfcr":
                if op == "db" and not self.faults:
                    alts += alt
            elif alt in "NAIDLSRVWP":
                if op == "fs" and len(self.faults) < self.max_faults and \
                        (entity.op[1] == "open" or alt != "R") and \
                        ("/" in entity.op[2] or alt != "P"):
                    alts += alt
            elif alt in "pn":
                if op == "w_write" and not self.broken_pipe:
                    alts += alt
        if not alts:
            return None
        step = self.steps
        key = len(self.choices)
        choice = self.deviations.get(key)
        self.choices.append((step, alts, self._state_hash(entity), entity.name, op))
        if choice is not None and choice not in alts:
            raise HarnessError(f"divergence: deviation {choice!r} not possible at choice {key} "
                               f"({entity.name} {op}, {alts})")
        return choice

    body_done = False

    def _state_hash(self, entity):
        if self.options.get("no_state"):
            # The data contain paths or inode numbers that differ between executions.
            key = len(self.choices)
            return hash((key, entity.name, _frozen(entity.op),
                         tuple(sorted(d for d in self.deviations.items() if d[0] < key))))
        now = self.now
        parts = [entity.name, self.current]
        for name in self.order:
            e = self.entities[name]
            if e.state == DONE:
                parts.append((name, "done"))
            else:
                parts.append((name, e.hist, _frozen(e.op), e.timed_out,
                              None if e.stall_until is None else round(e.stall_until - now, 6),
                              None if e.deadline is None else round(e.deadline - now, 6)))
        for obj in self.objects:
            if isinstance(obj, VQ):
                parts.append((obj.count, tuple(obj.pipe), obj.rlock_dead, obj.unfinished,
                              tuple(sorted((p, tuple(round(w - now, 6) for w in ws))
                                           for p, ws in obj.buffers.items() if ws))))
            elif isinstance(obj, dict):
                parts.append(tuple((k, tuple(v) if isinstance(v, list) else v)
                                   for k, v in obj.items()))
        parts.append(tuple((tuple(c["args"]), c["code"],
                            None if c["end"] is None else round(c["end"] - now, 6))
                           for c in self.calls))
        parts.append((len(self.writes), self.dbhash, self.whash, self.broken_pipe, len(self.faults)))
        return hash(tuple(parts))

    whash = 0
    dbhash = 0

    # -- executing ----------------------------------------------------------------------------
    def _reply(self, entity, result):
        op = entity.op
        entity.hist = hash((entity.hist, op[0], self._freeze(result)))
        if self.trace:
            self.log.append((self.steps, round(self.now, 4), entity.name, _short(op),
                             _short_result(result)))
        self.steps += 1
        entity.steps += 1
        self.current = entity.name
        entity.op = None
        entity.state = RUNNING
        entity.deadline = None
        entity.timed_out = False
        send_msg(entity.fd, ("ok", result))

    @staticmethod
    def _freeze(result):
        return tuple(result) if isinstance(result, list) else result

    def _execute(self, entity, choice):
        op = entity.op
        name = op[0]

        if entity.interrupt or choice == "i":
            entity.interrupt = False
            self.faults.append(("interrupt", entity.name, name))
            # leave a barrier the way a real exception inside Condition.wait() would
            if name == "b_wait":
                self._barrier_leave(self.objects[op[1]])
            if self.trace:
                self.log.append((self.steps, round(self.now, 4), entity.name, _short(op),
                                 "KeyboardInterrupt"))
            self.steps += 1
            entity.op = None
            entity.state = RUNNING
            entity.deadline = None
            self.current = entity.name
            send_msg(entity.fd, ("interrupt",))
            self._recv(entity)
            return

        if name == "w_write":
            if choice in ("p", "n") or self.broken_pipe:
                if not self.broken_pipe:
                    # the error stays for the rest of the execution
                    self.broken_pipe = "epipe" if choice == "p" else "enospc"
                    self.faults.append((self.broken_pipe, entity.name, name))
                self._reply(entity, self.broken_pipe)
            else:
                self.writes.append((entity.name, op[1]))
                self.whash = hash((self.whash, op[1]))
                self._reply(entity, None)
            self._recv(entity)
            return

        if name in ("b_enter", "b_wait", "b_reset", "b_abort") and self._barrier_stuck(name, op):
            entity.deadline = None
            entity.timed_out = False
            self.current = None
            return

        handler = getattr(self, "_op_" + name)
        result = handler(entity, op, choice)
        if name == "exit" or name == "thread_exit":
            return
        if isinstance(result, OSErrorReply):
            entity.hist = hash((entity.hist, op[0], "oserror", result.errno))
            if self.trace:
                self.log.append((self.steps, round(self.now, 4), entity.name, _short(op),
                                 f"OSError {result.errno}"))
            self.steps += 1
            entity.op = None
            entity.state = RUNNING
            entity.deadline = None
            self.current = entity.name
            send_msg(entity.fd, ("oserror", result.errno))
        else:
            self._reply(entity, result)
        self._recv(entity)
        if name in ("spawn_process", "spawn_thread"):
            self._recv(self.entities[result[1]])
        if "k" in self.alternatives:
            self._block_point(entity)

    BLOCKING = frozenset(("q_get", "b_wait", "s_acquire", "c_wait", "e_wait", "l_acquire"))

    def _block_point(self, entity):
        """A process that has to wait may be killed in its sleep."""
        if entity.state != READY or entity.op is None or entity.op[0] not in self.BLOCKING or \
                entity.proc == "main" or self.faults or self.steps >= self.max_choice_steps or \
                self._enabled(entity):
            return
        key = len(self.choices)
        self.choices.append((self.steps, "k", hash((self._state_hash(entity), "wait")),
                             entity.name, "wait:" + entity.op[0]))
        choice = self.deviations.get(key)
        if choice is None:
            return
        if choice != "k":
            raise HarnessError(f"divergence: deviation {choice!r} not possible at choice {key}")
        self.faults.append(("kill", entity.name, "waiting in " + entity.op[0]))
        self._kill(self.entities[entity.proc], signal.SIGKILL)

    # -- enabledness --------------------------------------------------------------------------
    def _enabled(self, entity):
        if entity.timed_out:
            return True
        op = entity.op
        fn = self.ENABLED.get(op[0])
        if fn is None:
            return True
        timeout = self._timeout_of(op)
        if timeout is not None and timeout <= 0:
            return True          # non-blocking variant, the handler reports the failure
        return fn(self, entity, op)

    def _en_q_get(self, entity, op):
        obj = self.objects[op[1]]
        return bool(obj.pipe) and not obj.rlock_dead

    def _en_q_put(self, entity, op):
        obj = self.objects[op[1]]
        return obj.maxsize == 0 or obj.count < obj.maxsize

    def _lock_free(self, lock, entity):
        return lock["owner"] is None or (lock["kind"] == "rlock" and lock["owner"] == entity.name)

    def _en_l_acquire(self, entity, op):
        return self._lock_free(self.objects[op[1]], entity)

    def _en_value(self, entity, op):
        if op[2] is None:
            return True
        lock = self.objects[op[2]]
        return self._lock_free(lock, entity)

    def _en_s_acquire(self, entity, op):
        return self.objects[op[1]]["value"] > 0

    def _en_c_wait(self, entity, op):
        return entity.name not in self.objects[op[1]]["waiters"]

    def _en_e_wait(self, entity, op):
        return self.objects[op[1]]["set"]

    def _en_b_enter(self, entity, op):
        bar = self.objects[op[1]]
        return bar["state"] not in (-1, 1) and not bar["stuck"]

    def _en_b_wait(self, entity, op):
        bar = self.objects[op[1]]
        return bar["state"] != 0 and not bar["stuck"]

    def _en_b_reset(self, entity, op):
        return not self.objects[op[1]]["stuck"]

    def _en_p_wait(self, entity, op):
        target = self.entities.get(op[1])
        return target is None or target.state == DONE

    def _en_sleep(self, entity, op):
        return False

    def _en_x_wait(self, entity, op):
        return self.calls[op[1] - 1]["code"] is not None

    def _en_exit(self, entity, op):
        # A process joins the feeder threads of its queues before it exits.
        for obj in self.objects:
            if isinstance(obj, VQ) and entity.proc not in obj.cancel_join and \
                    obj.buffers.get(entity.proc):
                return False
        return True

    def _en_q_join_feeder(self, entity, op):
        return not self.objects[op[1]].buffers.get(entity.proc)

    def _en_tq_join(self, entity, op):
        return self.objects[op[1]].unfinished == 0

    ENABLED = {
        "q_get": _en_q_get, "q_put": _en_q_put, "tq_put": _en_q_put, "l_acquire": _en_l_acquire,
        "l_reacquire": _en_l_acquire, "v_get": _en_value, "v_set": _en_value,
        "s_acquire": _en_s_acquire, "c_wait": _en_c_wait, "e_wait": _en_e_wait,
        "b_enter": _en_b_enter, "b_wait": _en_b_wait, "b_reset": _en_b_reset, "b_abort": _en_b_reset,
        "p_wait": _en_p_wait, "sleep": _en_sleep,
        "x_wait": _en_x_wait, "exit": _en_exit, "q_join_feeder": _en_q_join_feeder,
        "tq_join": _en_tq_join,
    }

    # -- operations ---------------------------------------------------------------------------
    def _new(self, obj):
        self.objects.append(obj)
        return len(self.objects) - 1

    def _op_hello(self, entity, op, choice):
        return None

    def _op_mark(self, entity, op, choice):
        if op[1] == "body_done" and entity.name == "main":
            self.body_done = True
            self.main_code = op[2]
        return None

    def _op_exiting(self, entity, op, choice):
        """A process that ends waits for its feeder threads from here on."""

    def _op_now(self, entity, op, choice):
        return self.time_base + self.now

    def _op_new_q(self, entity, op, choice):
        return self._new(VQ(op[1]))

    def _op_new_lock(self, entity, op, choice):
        return self._new({"t": "lock", "kind": op[1], "owner": None, "depth": 0})

    def _op_new_sem(self, entity, op, choice):
        return self._new({"t": "sem", "value": op[1], "max": op[2]})

    def _op_new_cond(self, entity, op, choice):
        return self._new({"t": "cond", "waiters": []})

    def _op_new_event(self, entity, op, choice):
        return self._new({"t": "event", "set": False})

    def _op_new_barrier(self, entity, op, choice):
        return self._new({"t": "barrier", "parties": op[1], "count": 0, "state": 0, "dead": 0,
                          "stuck": False})

    def _op_new_value(self, entity, op, choice):
        return self._new({"t": "value", "value": op[1]})

    # database
    def _op_db(self, entity, op, choice):
        if choice is not None:
            self.faults.append(("database", entity.name, op[1], choice))
        return choice

    def _op_db_done(self, entity, op, choice):
        if op[1]:
            self.dbhash = hash((self.dbhash, op[1]))
        return self.dbhash

    # system calls on entries
    def _op_fs(self, entity, op, choice):
        if choice is not None:
            self.faults.append(("fs", entity.name, op[1], op[2], choice))
        return choice

    # queues
    def _op_q_put(self, entity, op, choice):
        obj = self.objects[op[1]]
        if obj.maxsize and obj.count >= obj.maxsize:
            return "full"
        obj.count += 1
        wakes = obj.buffers.setdefault(entity.proc, [])
        if choice == "d":
            wakes.append(self.now + self.stall)
        else:
            wakes.append(max(self.now, wakes[-1] if wakes else 0))
            if len(wakes) == 1 and (obj.pipe_bytes < self.pipe_cap or not obj.pipe):
                # pickled and written at once
                self._feed(op[1], entity.proc, entity)
        return "ok"

    def _feed(self, qid, proc, entity=None):
        obj = self.objects[qid]
        obj.buffers[proc].pop(0)
        if entity is None:
            for entity in self.entities.values():
                if entity.proc == proc and entity.state == READY:
                    break
            else:
                raise HarnessError("no thread to feed from")
        send_msg(entity.fd, ("flush", qid))
        msg = recv_msg(entity.fd)
        if msg[0] != "flushed":
            raise HarnessError(f"unexpected message {msg[0]}")
        if msg[1] is None:
            obj.count -= 1
        else:
            obj.pipe.append(msg[1])
            obj.pipe_bytes += len(msg[1])

    def _op_sq_put(self, entity, op, choice):
        obj = self.objects[op[1]]
        obj.count += 1
        obj.pipe.append(op[2])
        return None

    def _op_tq_put(self, entity, op, choice):
        obj = self.objects[op[1]]
        if obj.maxsize and obj.count >= obj.maxsize:
            return "full"
        obj.count += 1
        obj.unfinished += 1
        if op[2] == "lifo":
            obj.pipe.insert(0, (op[3],))
        else:
            obj.pipe.append((op[3],))
        return "ok"

    def _op_tq_done(self, entity, op, choice):
        self.objects[op[1]].unfinished -= 1

    def _op_tq_join(self, entity, op, choice):
        return None

    def _op_q_get(self, entity, op, choice):
        obj = self.objects[op[1]]
        if not obj.pipe or obj.rlock_dead:
            return None
        obj.count -= 1
        data = obj.pipe.pop(0)
        if isinstance(data, bytes):
            obj.pipe_bytes -= len(data)
            # A feeder that waited for room in the pipe goes on.
            for proc, wakes in obj.buffers.items():
                if wakes and wakes[0] <= self.now and \
                        (obj.pipe_bytes < self.pipe_cap or not obj.pipe) and proc != entity.proc:
                    if any(e.proc == proc and e.state == READY for e in self.entities.values()):
                        self._feed(op[1], proc)
        return data

    def _op_q_size(self, entity, op, choice):
        return self.objects[op[1]].count

    def _op_q_empty(self, entity, op, choice):
        return not self.objects[op[1]].pipe

    def _op_q_join_feeder(self, entity, op, choice):
        return None

    def _op_q_cancel_join(self, entity, op, choice):
        self.objects[op[1]].cancel_join.add(entity.proc)

    # locks
    def _op_l_acquire(self, entity, op, choice):
        lock = self.objects[op[1]]
        if not self._lock_free(lock, entity):
            return False
        lock["owner"] = entity.name
        lock["depth"] += 1
        return True

    def _op_l_release(self, entity, op, choice):
        lock = self.objects[op[1]]
        if lock["depth"] == 0:
            return False
        lock["depth"] -= 1
        if lock["depth"] == 0:
            lock["owner"] = None
        return True

    def _op_l_locked(self, entity, op, choice):
        return self.objects[op[1]]["owner"] is not None

    def _op_l_reacquire(self, entity, op, choice):
        lock = self.objects[op[1]]
        lock["owner"] = entity.name
        lock["depth"] = op[2]

    def _op_s_acquire(self, entity, op, choice):
        sem = self.objects[op[1]]
        if sem["value"] <= 0:
            return False
        sem["value"] -= 1
        return True

    def _op_s_release(self, entity, op, choice):
        sem = self.objects[op[1]]
        if sem["max"] and sem["value"] >= sem["max"]:
            return False
        sem["value"] += 1
        return True

    def _op_s_value(self, entity, op, choice):
        return self.objects[op[1]]["value"]

    # conditions and events
    def _op_c_enqueue(self, entity, op, choice):
        self.objects[op[1]]["waiters"].append(entity.name)
        lock = self.objects[op[2]]
        depth = lock["depth"]
        lock["depth"] = 0
        lock["owner"] = None
        return depth

    def _op_c_wait(self, entity, op, choice):
        waiters = self.objects[op[1]]["waiters"]
        if entity.name in waiters:
            waiters.remove(entity.name)
            return False
        return True

    def _op_c_notify(self, entity, op, choice):
        waiters = self.objects[op[1]]["waiters"]
        num = len(waiters) if op[2] < 0 else min(op[2], len(waiters))
        del waiters[:num]

    def _op_e_is_set(self, entity, op, choice):
        return self.objects[op[1]]["set"]

    def _op_e_set(self, entity, op, choice):
        self.objects[op[1]]["set"] = op[2]

    def _op_e_wait(self, entity, op, choice):
        return self.objects[op[1]]["set"]

    # barrier, see threading.Barrier; notify_all() of a multiprocessing.Condition waits until all
    # sleepers have woken up, so it never returns if one of them was killed in its sleep
    def _barrier_stuck(self, name, op):
        bar = self.objects[op[1]]
        if bar["dead"] and not bar["stuck"]:
            # the operation is about to notify the others
            bar["stuck"] = name == "b_enter" and bar["state"] == 0 and \
                bar["count"] + 1 == bar["parties"] or \
                name == "b_wait" and (bar["state"] == 0 or bar["count"] == 1) or \
                name in ("b_reset", "b_abort")
        return bar["stuck"]

    def _op_b_enter(self, entity, op, choice):
        bar = self.objects[op[1]]
        if bar["state"] < 0:
            return -2
        index = bar["count"]
        bar["count"] += 1
        if bar["count"] == bar["parties"]:
            bar["state"] = 1
        return index

    def _barrier_leave(self, bar):
        bar["count"] -= 1
        if bar["count"] == 0 and bar["state"] in (-1, 1):
            bar["state"] = 0

    def _op_b_wait(self, entity, op, choice):
        bar = self.objects[op[1]]
        if bar["state"] == 0:
            # the timeout expired
            bar["state"] = -2
            self._barrier_leave(bar)
            return False
        state = bar["state"]
        self._barrier_leave(bar)
        return state == 1

    def _op_b_reset(self, entity, op, choice):
        bar = self.objects[op[1]]
        if bar["count"] > 0:
            if bar["state"] in (0, -2):
                bar["state"] = -1
        else:
            bar["state"] = 0

    def _op_b_abort(self, entity, op, choice):
        self.objects[op[1]]["state"] = -2

    def _op_b_n_waiting(self, entity, op, choice):
        bar = self.objects[op[1]]
        return bar["count"] if bar["state"] == 0 else 0

    def _op_b_broken(self, entity, op, choice):
        return self.objects[op[1]]["state"] == -2

    # values
    def _op_v_get(self, entity, op, choice):
        return self.objects[op[1]]["value"]

    def _op_v_set(self, entity, op, choice):
        self.objects[op[1]]["value"] = op[3]

    # processes and threads
    def _spawn(self, prefix, proc, is_thread):
        num = self.counter[prefix] = self.counter.get(prefix, -1) + 1
        name = f"{prefix}{num}"
        chan = self.next_chan
        self.next_chan += 1
        if chan >= self.pool_size:
            raise HarnessError("too many processes/threads")
        self._add_entity(name, chan, name if not is_thread else proc, is_thread)
        return [chan, name]

    def _op_spawn_process(self, entity, op, choice):
        return self._spawn("w", None, False)

    def _op_spawn_thread(self, entity, op, choice):
        return self._spawn(f"{entity.proc}.t", entity.proc, True)

    def _op_p_poll(self, entity, op, choice):
        target = self.entities.get(op[1])
        return target is None or target.state == DONE

    _op_p_wait = _op_p_poll

    def _op_p_kill(self, entity, op, choice):
        target = self.entities[op[1]]
        if target.state != DONE:
            self._kill(target, op[2])

    def _kill(self, target, sig):
        for entity in self.entities.values():
            if entity.proc == target.name:
                if entity.op is not None and entity.op[0] == "q_get":
                    self.objects[entity.op[1]].rlock_dead = True
                if entity.op is not None and entity.op[0] == "b_wait":
                    self.objects[entity.op[1]]["dead"] += 1
                entity.state = DONE
                entity.op = None
        target.exitcode = -int(sig)
        signal.pidfd_send_signal(target.pidfd, signal.SIGKILL if sig != signal.SIGTERM else sig)
        signal.pidfd_send_signal(target.pidfd, signal.SIGKILL)
        select.select([target.pidfd], [], [], 10)
        for obj in self.objects:
            if isinstance(obj, VQ):
                obj.buffers.pop(target.name, None)

    def _op_exit(self, entity, op, choice):
        entity.exitcode = op[1]
        # daemon threads of the process vanish
        for other in self.entities.values():
            if other.proc == entity.proc:
                other.state = DONE
                other.op = None
        if self.trace:
            self.log.append((self.steps, round(self.now, 4), entity.name, "exit", op[1]))
        self.steps += 1
        send_msg(entity.fd, ("ok", None))
        select.select([entity.pidfd], [], [], 10)
        self.current = None if self.current == entity.name else self.current

    def _op_thread_exit(self, entity, op, choice):
        entity.state = DONE
        entity.op = None
        self.steps += 1
        send_msg(entity.fd, ("ok", None))

    def _op_sleep(self, entity, op, choice):
        return None

    # subprocesses
    def _op_x_spawn(self, entity, op, choice):
        args = op[1]
        spec = self.options.get("call_spec", default_call_spec)(args)
        call = {"args": args, "by": entity.name, "code": None, "end": None,
                "result": spec.get("code", 0), "start": self.now, "killed": None,
                "stopped": self._stop_seen}
        if spec.get("errno"):
            call["code"] = -1000 - spec["errno"]
            self.calls.append(call)
            return OSErrorReply(spec["errno"])
        duration = spec.get("duration", 0)
        if duration is None:
            pass
        elif duration <= 0:
            call["code"] = call["result"]
            call["end"] = self.now
        else:
            call["end"] = self.now + duration
        self.calls.append(call)
        return len(self.calls)

    _stop_seen = False

    def _op_x_poll(self, entity, op, choice):
        return self.calls[op[1] - 1]["code"]

    def _op_x_wait(self, entity, op, choice):
        call = self.calls[op[1] - 1]
        if call["code"] is not None:
            call["reaped"] = True
        return call["code"]

    def _op_x_kill(self, entity, op, choice):
        call = self.calls[op[1] - 1]
        if call["code"] is None:
            call["killed"] = op[2]
            call["code"] = -op[2]

    # -- results ------------------------------------------------------------------------------
    @property
    def output(self):
        if self.options.get("vstdout", False):
            return b"".join(data for _, data in self.writes)
        return self.stdout


class OSErrorReply:
    def __init__(self, errno):
        self.errno = errno


def default_call_spec(args):
    return {}


def _short(op):
    return tuple(x if not isinstance(x, bytes) or len(x) < 60 else f"<{len(x)} bytes>" for x in op)


def _short_result(result):
    if isinstance(result, bytes) and len(result) > 40:
        return f"<{len(result)} bytes>"
    return result
