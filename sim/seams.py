"""The seams between neutrinomass and everything that is not deterministic.

* Ticker   - counts the executed lines of neutrinomass code (sys.monitoring) and
             can raise an exception at, or preempt a task before, any of them.
* Tasks    - caller threads run one at a time; who runs next is drawn from the
             seeded generator at the line events of neutrinomass code.
* Disk     - every file operation below a watched folder goes through a raw file
             and a set of os functions that short-read, fail, tear, lose or
             crash as the plan says; directory listings come in a drawn order.
* Clock    - the functions of ``time``.
* Programs - stand-in for os.system / subprocess.
"""

import builtins
import errno
import io
import os
import random
import shutil
import subprocess
import sys
import threading
import time

from sim.boot import PKG, REPO

mon = sys.monitoring
TOOL = 3


class SimCrash(BaseException):
    """The simulated machine stops here."""


class StepBudget(BaseException):
    """More lines of neutrinomass were executed than the plan allows."""


FAULTS = {
    "KeyboardInterrupt": KeyboardInterrupt,
    "MemoryError": MemoryError,
    "RecursionError": RecursionError,
    "TimeoutError": TimeoutError,
}


def moment(rng, size, functions=0, part=""):
    """When to interrupt: some lines from now (up to 10**size), or some lines after
    another function (of a part of the package) is entered for the first time,
    which gives functions with few lines their share, or at a line that is run for
    the first time, which gives every line its share."""
    u = rng.random() if functions else 1
    if u < 0.25:
        when = {"new": rng.randrange(1, 7 * functions)}
        return {**when, "part": part} if part else when
    if u < 0.55:
        when = {"after": int(10 ** (rng.random() * min(size, 2.3))) + 1, "entered": rng.randrange(1, functions + 1)}
        return {**when, "part": part} if part else when
    return {"after": int(10 ** (rng.random() * size)) + 1}


class Ticker:
    """Line events of neutrinomass code."""

    def __init__(self):
        self.n = 0
        self.fire_at = None
        self.exc = None
        self.fired = None
        self.budget = None
        self.on_tick = None
        self.sites = None
        self.codes = None
        self.lines = None
        self.active = False

    def __enter__(self):
        mon.use_tool_id(TOOL, "sim")
        mon.register_callback(TOOL, mon.events.LINE, self._line)
        mon.restart_events()
        mon.set_events(TOOL, mon.events.LINE)
        self.active = True
        return self

    def __exit__(self, *exc):
        self.active = False
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, mon.events.LINE, None)
        mon.free_tool_id(TOOL)

    def arm(self, when, exc):
        """Raise ``exc`` at a ``moment`` from now (or after a number of lines)."""
        if isinstance(when, int):
            when = {"after": when}
        self.exc = exc
        self.fired = self.fire_at = self.codes = self.lines = None
        if when.get("new"):
            self.lines, self.new = set(), when["new"]
            self.part = os.path.join(PKG, when.get("part", ""))
        elif when.get("entered"):
            self.codes, self.entered, self.after = set(), when["entered"], when["after"]
            self.part = os.path.join(PKG, when.get("part", ""))
        else:
            self.fire_at = self.n + when["after"]

    def disarm(self):
        self.fire_at = self.codes = self.lines = None
        fired, self.fired = self.fired, None
        return fired

    def _line(self, code, line):
        if not code.co_filename.startswith(PKG):
            return mon.DISABLE
        if not self.active:
            return
        self.n += 1
        if self.sites is not None:
            self.sites.add((code.co_filename[len(PKG) + 1:], code.co_name))
        if self.codes is not None and code not in self.codes and code.co_filename.startswith(self.part):
            self.codes.add(code)
            if len(self.codes) == self.entered:
                self.codes = None
                self.fire_at = self.n + self.after
        if self.lines is not None and (code, line) not in self.lines and code.co_filename.startswith(self.part):
            self.lines.add((code, line))
            if len(self.lines) == self.new:
                self.lines, self.fire_at = None, self.n
        if self.fire_at is not None and self.n >= self.fire_at:
            self.fire_at = None
            self.fired = "%s:%s" % (code.co_filename[len(PKG) + 1:], code.co_name)
            raise self.exc
        if self.budget is not None and self.n > self.budget:
            self.budget = None
            raise StepBudget()
        if self.on_tick is not None:
            self.on_tick(code, line)


class Tasks:
    """Runs callables as real threads, one at a time, preempted at line events."""

    def __init__(self, ticker, rng, mean_quantum):
        """A negative quantum: the less often a line was run, the likelier a switch
        there, so that the threads meet in functions that are seldom entered."""
        self.ticker, self.rng = ticker, rng
        self.mean, self.rare = max(mean_quantum, 1), max(-mean_quantum, 0)
        self.trace = []
        self.switches = 0

    def run(self, fns):
        n = len(fns)
        gates = [threading.Semaphore(0) for _ in range(n)]
        done = threading.Semaphore(0)
        alive = list(range(n))
        results = [None] * n
        ident, fatal = {}, []
        state = {"current": None, "left": 0, "blocked": 0}
        rare, seen, rnd = self.rare, {}, self.rng.random

        def pick(me):
            nxt = alive[self.rng.randrange(len(alive))]
            state["left"] = 1 + int(self.rng.expovariate(1.0 / self.mean))
            state["current"] = nxt
            if nxt != me:
                self.switches += 1
                if len(self.trace) < 4000:
                    self.trace.append(nxt)
            return nxt

        def tick(code, line):
            me = ident.get(threading.get_ident())
            if me is None or me != state["current"]:
                return
            state["left"] -= 1
            state["blocked"] = 0
            if rare:
                where = id(code), line
                k = seen[where] = seen.get(where, 0) + 1
                if rnd() * k >= rare or importing():
                    return
            elif state["left"] > 0 or importing():
                return
            nxt = pick(me)
            if nxt != me:
                gates[nxt].release()
                gates[me].acquire()

        def blocked():
            """The running thread waits for a lock: somebody else has to go on."""
            me = ident.get(threading.get_ident())
            if me is None:
                return False
            state["blocked"] += 1
            if len(alive) < 2 or state["blocked"] > 10000:
                raise RuntimeError("deadlock: every thread waits for a lock")
            nxt = me
            while nxt == me:
                nxt = pick(me)
            gates[nxt].release()
            gates[me].acquire()
            return True

        def body(k):
            ident[threading.get_ident()] = k
            gates[k].acquire()
            try:
                results[k] = ("ok", fns[k]())
            except BaseException as e:
                results[k] = ("error", "%s: %s" % (type(e).__name__, e))
                if isinstance(e, (SimCrash, StepBudget)):
                    fatal.append(e)
            alive.remove(k)
            if alive:
                gates[pick(k)].release()
            else:
                state["current"] = None
                done.release()

        threads = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(n)]
        for t in threads:
            t.start()
        while len(ident) < n:
            time.sleep(0.001)
        self.ticker.on_tick = tick
        SimLock.blocked = blocked
        first = pick(None)
        gates[first].release()
        done.acquire()
        self.ticker.on_tick = None
        SimLock.blocked = None
        for t in threads:
            t.join()
        if fatal:
            raise fatal[0]
        return results


def importing():
    """Is the running thread inside an import (others may wait for it)?"""
    f = sys._getframe(2)
    while f is not None:
        if f.f_code.co_filename.startswith("<frozen importlib"):
            return True
        f = f.f_back
    return False


class SimLock:
    """A lock of the package: waiting for it hands over to another thread."""

    blocked = None

    def __init__(self, real):
        self._real = real

    def acquire(self, blocking=True, timeout=-1):
        while not self._real.acquire(False):
            if not blocking:
                return False
            # a simulated thread that waits with a timeout waits as long as it takes
            if SimLock.blocked is None or not SimLock.blocked():
                return self._real.acquire(True, timeout)
        return True

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *exc):
        self._real.release()

    def __getattr__(self, name):
        return getattr(self._real, name)


def install_locks(pkg):
    """Locks made by files below ``pkg`` are simulated ones."""

    def factory(real):
        def make(*a, **k):
            lock = real(*a, **k)
            return SimLock(lock) if sys._getframe(1).f_code.co_filename.startswith(pkg) else lock

        return make

    threading.Lock, threading.RLock = factory(threading.Lock), factory(threading.RLock)


def _abspath(p):
    p = os.fspath(p)
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    return os.path.normpath(os.path.join(os.getcwd(), p))


class RawFile(io.RawIOBase):
    def __init__(self, disk, path, real, flags_mode, handle):
        self.disk, self.path, self.real = disk, path, real
        self.handle = handle
        self._mode = flags_mode

    name = property(lambda self: self.path)
    mode = property(lambda self: self._mode)

    def readable(self):
        return self.handle.readable()

    def writable(self):
        return self.handle.writable()

    def seekable(self):
        return self.handle.seekable()

    def fileno(self):
        return self.handle.fileno()

    def isatty(self):
        return False

    def seek(self, *a):
        return self.handle.seek(*a)

    def tell(self):
        return self.handle.tell()

    def truncate(self, size=None):
        self.disk.hit("write", self.path)
        if size is None:
            size = self.handle.tell()
        return self.handle.truncate(size)

    def readinto(self, b):
        pos = self.handle.tell()
        want = len(b)
        act = self.disk.hit("read", self.path)
        if act == "eof":
            return 0
        if self.disk.short and want > 1:
            want = 1 + self.disk.rng.randrange(min(want, self.disk.short))
            self.disk.count("short_read")
        data = self.handle.read(want)
        if self.disk.flips and data:
            data = self.disk.flip(self.path, pos, data)
        b[: len(data)] = data
        return len(data)

    def write(self, b):
        b = bytes(b)
        n = len(b)
        act = self.disk.hit("write", self.path)
        if act in ("torn", "torn_crash"):
            part = self.disk.rng.randrange(n) if n else 0
            self.handle.write(b[:part])
            self.disk.wrote(self.real, self.handle)
            if act == "torn_crash":
                self.disk.crash()
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), self.path)
        if self.disk.short and n > 1:
            n = 1 + self.disk.rng.randrange(n)
            if n < len(b):
                self.disk.count("short_write")
        self.handle.write(b[:n])
        self.disk.wrote(self.real, self.handle)
        return n

    def close(self):
        if not self.closed:
            self.handle.close()
        super().close()


class Disk:
    """File operations below ``watch`` folders.

    plan: {"faults": [{"op", "nth", "kind", "path"?}], "crash_at": n,
           "short": max | 0, "shuffle": bool, "bufsize": n, "seed": s,
           "overlay": {real prefix: scratch prefix}, "full_after": nth write}
    """

    CRASHABLE = {"write", "open_w", "replace", "unlink", "fsync", "mkdir"}

    def __init__(self, ctx, watch, plan, undo_dir=None):
        self.ctx = ctx
        self.watch = [os.path.normpath(w) for w in watch]
        self.plan = plan
        self.rng = random.Random("disk|%s" % plan.get("seed", 0))
        self.overlay = {os.path.normpath(k): v for k, v in plan.get("overlay", {}).items()}
        self.faults = [dict(f) for f in plan.get("faults", [])]
        self.short = plan.get("short", 0)
        self.shuffle = plan.get("shuffle", False)
        self.bufsize = plan.get("bufsize")
        self.flips = plan.get("flips", [])
        self.crash_at = plan.get("crash_at")
        self.full_after = plan.get("full_after")
        self.counts = {}
        self.crash_ops = 0
        self.dead = False
        self.hits = []
        self.fds = {}
        self.synced = {}  # real path -> durable length (None: nothing pending)
        self.pending = {}  # real path -> written length since last sync
        self.journal = []  # undo functions of metadata operations, in order
        self.undo_dir = undo_dir
        self.undo_n = 0
        self.trace = []

    # -- bookkeeping ------------------------------------------------------
    def count(self, kind):
        self.ctx.faults[kind] += 1

    def watched(self, path):
        return any(path == w or path.startswith(w + os.sep) for w in self.watch)

    def to_real(self, path):
        for k, v in self.overlay.items():
            if path == k or path.startswith(k + os.sep):
                return v + path[len(k):]
        return path

    def hit(self, op, path):
        """One file operation: returns None, or what the caller has to do."""
        if self.dead:
            raise SimCrash()
        self.counts[op] = self.counts.get(op, 0) + 1
        n = self.counts[op]
        if len(self.trace) < 2000:
            self.trace.append("%s %s" % (op, os.path.basename(path)))
        if op in self.CRASHABLE:
            self.crash_ops += 1
            if self.crash_at is not None and self.crash_ops == self.crash_at:
                if op == "write" and self.plan.get("crash_torn"):
                    return "torn_crash"
                self.crash()
        if op == "write" and self.full_after is not None and n >= self.full_after:
            self.count("ENOSPC")
            self.hits.append("full %s" % os.path.basename(path))
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), path)
        for f in self.faults:
            if f["op"] != op:
                continue
            if f.get("path") and f["path"] not in path:
                continue
            f["seen"] = f.get("seen", 0) + 1
            if f["seen"] == f["nth"] or (f.get("sticky") and f["seen"] > f["nth"]):
                kind = f["kind"]
                self.count(kind)
                self.hits.append("%s %s %s" % (kind, op, os.path.basename(path)))
                if kind == "torn":
                    return "torn"
                if kind == "eof":
                    return "eof"
                if kind in FAULTS:
                    raise FAULTS[kind]()
                no = getattr(errno, kind)
                raise OSError(no, os.strerror(no), path)
        return None

    def flip(self, path, pos, data):
        data = bytearray(data)
        for f in self.flips:
            if f["path"] in path and pos <= f["at"] < pos + len(data):
                data[f["at"] - pos] ^= f["mask"]
                self.count("bitflip")
        return bytes(data)

    # -- durability -------------------------------------------------------
    def wrote(self, real, handle):
        self.pending[real] = handle.tell()

    def sync(self, real):
        if real in self.pending:
            self.synced[real] = self.pending.pop(real)

    def saved(self, real):
        self.undo_n += 1
        return os.path.join(self.undo_dir, "undo%d" % self.undo_n)

    def crash(self):
        """Only what is durable stays: an ordered prefix of the unsynced name
        changes, and of every file the synced part plus some of the rest."""
        self.dead = True
        self.count("crash")
        self.settle()
        raise SimCrash()

    def settle(self):
        lose = self.plan.get("lose", "some")
        if lose != "none":
            for real in sorted(self.pending):
                if not os.path.exists(real):
                    continue
                low = self.synced.get(real, 0)
                size = os.path.getsize(real)
                keep = low if lose == "all" else self.rng.randrange(low, size + 1) if size >= low else size
                if keep < size:
                    with _real["open"](real, "r+b") as f:
                        f.truncate(keep)
                    self.count("lost_unsynced_data")
        keep = len(self.journal)
        if lose == "all":
            keep = 0
        elif lose == "some":
            keep = self.rng.randrange(len(self.journal) + 1)
        for undo in reversed(self.journal[keep:]):
            undo()
            self.count("lost_name_change")
        self.journal = []
        self.pending = {}

    # -- patched functions ------------------------------------------------
    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
        real_open = _real["open"]
        if isinstance(file, int):
            if file in self.fds:
                path, real = self.fds[file]
                handle = io.FileIO(file, mode.replace("b", "").replace("t", ""), closefd=closefd)
                return self.wrap(path, real, mode, buffering, encoding, errors, newline, handle)
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        try:
            path = _abspath(file)
        except TypeError:
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if not self.watched(path):
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        real = self.to_real(path)
        writing = any(c in mode for c in "wax+")
        self.hit("open_w" if writing else "open", path)
        base = mode.replace("b", "").replace("t", "")
        if writing:
            self.before_create(real, truncate="w" in mode)
        if opener is not None:
            handle = io.FileIO(real, base, opener=opener)
        else:
            handle = io.FileIO(real, base)
        self.fds[handle.fileno()] = (path, real)
        if "w" in mode:
            self.pending[real] = 0
            self.synced[real] = 0
        elif writing and real not in self.pending:
            self.synced.setdefault(real, os.path.getsize(real))
        return self.wrap(path, real, mode, buffering, encoding, errors, newline, handle)

    def before_create(self, real, truncate):
        if not os.path.lexists(real):
            def undo():
                if os.path.lexists(real):
                    _real["unlink"](real)
            self.journal.append(undo)

    def wrap(self, path, real, mode, buffering, encoding, errors, newline, handle):
        raw = RawFile(self, path, real, mode, handle)
        if "b" in mode and buffering == 0:
            return raw
        size = self.bufsize or (buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE)
        if "+" in mode:
            buf = io.BufferedRandom(raw, size)
        elif handle.writable():
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if "b" in mode:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=buffering == 1)
        text.mode = mode
        return text

    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        try:
            p = _abspath(path)
        except TypeError:
            return _real["os_open"](path, flags, mode, dir_fd=dir_fd)
        if not self.watched(p):
            return _real["os_open"](path, flags, mode, dir_fd=dir_fd)
        real = self.to_real(p)
        writing = flags & (os.O_WRONLY | os.O_RDWR)
        self.hit("open_w" if writing else "open", p)
        if flags & os.O_CREAT:
            self.before_create(real, bool(flags & os.O_TRUNC))
        fd = _real["os_open"](real, flags, mode, dir_fd=dir_fd)
        self.fds[fd] = (p, real)
        if flags & os.O_TRUNC:
            self.pending[real] = 0
            self.synced[real] = 0
        return fd

    def os_write(self, fd, data):
        if fd in self.fds:
            path, real = self.fds[fd]
            try:
                live = os.path.samestat(os.fstat(fd), _real["stat"](real))
            except OSError:
                live = True
            if live:
                act = self.hit("write", path)
                data = bytes(data)
                if act in ("torn", "torn_crash"):
                    part = self.rng.randrange(len(data)) if data else 0
                    _real["os_write"](fd, data[:part])
                    self.pending[real] = self.pending.get(real, 0) + part
                    if act == "torn_crash":
                        self.crash()
                    raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), path)
                n = _real["os_write"](fd, data)
                self.pending[real] = self.pending.get(real, 0) + n
                return n
        return _real["os_write"](fd, data)

    def fsync(self, fd):
        no = fd if isinstance(fd, int) else fd.fileno()
        if no in self.fds:
            path, real = self.fds[no]
            self.hit("fsync", path)
            _real["fsync"](no)
            self.sync(real)
            return None
        return _real["fsync"](no)

    def rename(self, src, dst, *, src_dir_fd=None, dst_dir_fd=None):
        a, b = _abspath(src), _abspath(dst)
        if not (self.watched(a) or self.watched(b)):
            return _real["replace"](src, dst, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd)
        self.hit("replace", b)
        ra, rb = self.to_real(a), self.to_real(b)
        if not os.path.lexists(ra):
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), src, None, dst)
        kept = None
        if os.path.lexists(rb):
            kept = self.saved(rb)
            shutil.copy2(rb, kept)
        _real["replace"](ra, rb)
        was_pending = self.pending.pop(ra, None)
        if was_pending is not None:
            self.pending[rb] = was_pending
        else:
            self.pending.pop(rb, None)
        self.synced[rb] = self.synced.pop(ra, 0)

        def undo():
            if os.path.lexists(rb):
                _real["replace"](rb, ra)
            if kept:
                _real["replace"](kept, rb)

        self.journal.append(undo)

    def unlink(self, path, *, dir_fd=None):
        p = _abspath(path)
        if not self.watched(p) or dir_fd is not None:
            return _real["unlink"](path, dir_fd=dir_fd)
        self.hit("unlink", p)
        real = self.to_real(p)
        if not os.path.lexists(real):
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
        kept = self.saved(real)
        _real["replace"](real, kept)
        self.journal.append(lambda: _real["replace"](kept, real))

    def mkdir(self, path, mode=0o777, *, dir_fd=None):
        p = _abspath(path)
        if not self.watched(p):
            return _real["mkdir"](path, mode, dir_fd=dir_fd)
        self.hit("mkdir", p)
        real = self.to_real(p)
        _real["mkdir"](real, mode)

        def undo():
            if os.path.isdir(real):
                shutil.rmtree(real, ignore_errors=True)

        self.journal.append(undo)

    def order(self, names):
        names = sorted(names)
        if self.shuffle:
            self.rng.shuffle(names)
            self.ctx.faults["listing_order"] += 1
        return names

    def listdir(self, path="."):
        if isinstance(path, int):
            return _real["listdir"](path)
        p = _abspath(path)
        if not self.watched(p):
            return _real["listdir"](path)
        self.hit("scandir", p)
        return self.order(_real["listdir"](self.to_real(p)))

    def scandir(self, path="."):
        if isinstance(path, int):
            return _real["scandir"](path)
        p = _abspath(path)
        if not self.watched(p):
            return _real["scandir"](path)
        self.hit("scandir", p)
        with _real["scandir"](self.to_real(p)) as it:
            entries = {e.name: e for e in it}
        return _Listing([entries[n] for n in self.order(entries)], path)

    def stat(self, path, *a, **k):
        return self._stat("stat", path, a, k)

    def lstat(self, path, *a, **k):
        return self._stat("lstat", path, a, k)

    def _stat(self, which, path, a, k):
        if self.overlay and not isinstance(path, int) and not k.get("dir_fd"):
            try:
                p = _abspath(path)
            except TypeError:
                p = None
            if p and self.watched(p):
                return _real[which](self.to_real(p), *a, **k)
        return _real[which](path, *a, **k)

    def __enter__(self):
        if self.undo_dir:
            os.makedirs(self.undo_dir, exist_ok=True)
        self.patched = [
            (builtins, "open", self.open), (io, "open", self.open),
            (os, "open", self.os_open), (os, "write", self.os_write),
            (os, "fsync", self.fsync), (os, "fdatasync", self.fsync),
            (os, "replace", self.rename), (os, "rename", self.rename),
            (os, "unlink", self.unlink), (os, "remove", self.unlink),
            (os, "mkdir", self.mkdir),
            (os, "listdir", self.listdir), (os, "scandir", self.scandir),
            (os, "stat", self.stat), (os, "lstat", self.lstat),
        ]
        self.before = [(m, n, getattr(m, n)) for m, n, _ in self.patched]
        for m, n, f in self.patched:
            setattr(m, n, f)
        return self

    def __exit__(self, *exc):
        for m, n, f in self.before:
            setattr(m, n, f)


class _Listing:
    def __init__(self, entries, path):
        self.it = iter([_Entry(e, path) for e in entries])

    def __iter__(self):
        return self.it

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


class _Entry:
    def __init__(self, entry, path):
        self._e = entry
        self.name = entry.name
        self.path = os.path.join(os.fspath(path), entry.name)

    def is_dir(self, **k):
        return self._e.is_dir(**k)

    def is_file(self, **k):
        return self._e.is_file(**k)

    def is_symlink(self):
        return self._e.is_symlink()

    def stat(self, **k):
        return self._e.stat(**k)

    def inode(self):
        return self._e.inode()

    def __fspath__(self):
        return self.path


_real = {
    "open": io.open, "os_open": os.open, "os_write": os.write, "fsync": os.fsync,
    "replace": os.replace, "unlink": os.unlink, "mkdir": os.mkdir,
    "listdir": os.listdir, "scandir": os.scandir, "stat": os.stat, "lstat": os.lstat,
}


class Clock:
    """time.* with a wall clock that is stepped back and forth, and monotonic
    clocks that only stall or leap forward."""

    def __init__(self, ctx, seed, jumpy=True, least=0.0):
        self.ctx = ctx
        self.least = least
        self.rng = random.Random("clock|%s" % seed)
        self.mono = 1000.0
        self.wall = 1.7e9
        self.cpu = 10.0
        self.jumpy = jumpy

    def advance(self):
        step = self.rng.choice([0.0, 1e-7, 1e-3, 1.0, 3600.0 if self.jumpy else 0.5])
        step += self.least
        self.mono += step
        self.wall += step
        if self.jumpy and self.rng.random() < 0.5:
            self.wall += self.rng.choice([-86400.0, -3600.0, -1.0, 1.0, 86400.0 * 365])
            self.ctx.faults["clock_step"] += 1

    def t_wall(self):
        self.advance()
        return self.wall

    def t_mono(self):
        self.advance()
        return self.mono

    def t_cpu(self):
        # most of the time goes by while waiting
        self.cpu += 1e-7
        return self.cpu

    def __enter__(self):
        self.before = {}
        for name, f in {
            "time": self.t_wall, "monotonic": self.t_mono, "perf_counter": self.t_mono,
            "process_time": self.t_cpu, "thread_time": self.t_cpu,
            "process_time_ns": lambda: int(self.t_cpu() * 1e9),
            "time_ns": lambda: int(self.t_wall() * 1e9),
            "monotonic_ns": lambda: int(self.t_mono() * 1e9),
            "perf_counter_ns": lambda: int(self.t_mono() * 1e9),
        }.items():
            self.before[name] = getattr(time, name)
            setattr(time, name, f)
        return self

    def __exit__(self, *exc):
        for name, f in self.before.items():
            setattr(time, name, f)


class Programs:
    """Records the programs that would be started; ``run(argv_or_line)`` decides
    the exit status (an int, or an exception to raise)."""

    def __init__(self, run):
        self.run = run
        self.calls = []

    def _status(self, cmd):
        self.calls.append(cmd if isinstance(cmd, str) else [str(c) for c in cmd])
        s = self.run(self.calls[-1])
        if isinstance(s, BaseException):
            raise s
        return s

    def system(self, line):
        try:
            return self._status(line) << 8
        except OSError:
            return 127 << 8

    def __enter__(self):
        outer = self

        class Popen:
            def __init__(self, args, *a, **k):
                if k.get("shell") and not isinstance(args, str):
                    args = args[0]
                self.args = args
                self.pid = 4242
                self.stdout = self.stderr = self.stdin = None
                try:
                    self.returncode = outer._status(args)
                except OSError:
                    if k.get("shell"):
                        self.returncode = 127
                    else:
                        raise
                self._text = k.get("text") or k.get("universal_newlines") or k.get("encoding")
                self._out = k.get("stdout") == subprocess.PIPE
                self._err = k.get("stderr") == subprocess.PIPE

            def communicate(self, *a, **k):
                e = "" if self._text else b""
                return (e if self._out else None, e if self._err else None)

            def wait(self, timeout=None):
                return self.returncode

            def poll(self):
                return self.returncode

            def kill(self):
                pass

            terminate = kill

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass

        self.before = [(os, "system", os.system), (subprocess, "Popen", subprocess.Popen)]
        os.system = self.system
        subprocess.Popen = Popen
        return self

    def __exit__(self, *exc):
        for m, n, f in self.before:
            setattr(m, n, f)


def outcome(fn):
    """("ok", value) or ("raised", "Type: message")."""
    try:
        return ["ok", fn()]
    except Exception as e:
        return ["raised", "%s: %s" % (type(e).__name__, str(e)[:300])]
