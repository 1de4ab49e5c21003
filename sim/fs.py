"""
Disk seam. Real files in a scratch folder; every access of the code under test to that folder goes through here, where it
can fail, be cut short, or be the last thing the simulated process ever does. Unsynced data can be lost at a power failure.
"""
import builtins
import errno
import io
import os
import shutil
import tempfile

from sim.ctx import SimCrash
from sim.sched import current_task

ERRNO = {"EIO": errno.EIO, "ENOSPC": errno.ENOSPC, "EACCES": errno.EACCES, "EMFILE": errno.EMFILE, "EROFS": errno.EROFS, "EDQUOT": errno.EDQUOT}


class Proc:
    """A simulated process as the disk sees it."""

    def __init__(self, name):
        self.name = name
        self.dead = False


class SimFileIO(io.FileIO):
    """Raw file of which each system call passes the seam."""

    def __init__(self, disk, file, mode, path, closefd=True, opener=None):
        self.disk = disk
        self.owner = disk.proc()
        self.path = path
        super().__init__(file, mode, closefd, opener)
        if self.writable():
            disk.touched(self)

    def readinto(self, b):
        n = self.disk.op("read", self.path, self.owner)
        view = memoryview(b).cast("B")
        if n == "short" and len(view) > 1:
            view = view[:max(1, len(view) // 3)]
        return super().readinto(view)

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        n = self.disk.op("read", self.path, self.owner)
        if n == "short" and size > 1:
            size = max(1, size // 3)
        return super().read(size)

    def readall(self):
        chunks = []
        while True:
            chunk = self.read(self.disk.bufsize)
            if not chunk:
                return b"".join(chunks)
            chunks.append(chunk)

    def write(self, b):
        if self.owner.dead:
            return len(memoryview(b).cast("B"))
        data = bytes(b)
        verdict = self.disk.op("write", self.path, self.owner)
        if verdict == "short" and len(data) > 1:
            data = data[:max(1, len(data) // 2)]
        if isinstance(verdict, tuple):
            # a part reaches the file, then the call fails or the process dies
            kind, portion, exc = verdict
            part = data[:int(len(data) * portion)]
            if part:
                self.disk.written(self, super().write(part))
            if kind == "crash":
                self.owner.dead = True
            raise exc
        n = super().write(data)
        self.disk.written(self, n)
        return n

    def truncate(self, size=None):
        if self.owner.dead:
            return 0
        self.disk.op("truncate", self.path, self.owner)
        return super().truncate(size)

    def close(self):
        if self.closed:
            return
        if self.owner.dead:
            super().close()
            return
        try:
            self.disk.op("close" if self.writable() else "close_read", self.path, self.owner)
        finally:
            super().close()


class SimDisk:
    """
    faults: list of {"at": n, "kind": ...} where n counts the operations on this disk (all processes together).
    kinds: an errno name | short | crash | power
    """

    def __init__(self, ctx, root, faults=(), sched=None, bufsize=8192, only=None):
        self.ctx = ctx
        self.root = os.path.realpath(root)
        self.faults = {}
        for f in faults:
            self.faults.setdefault(int(f["at"]), f)
        self.sched = sched
        self.bufsize = bufsize
        self.count = 0
        self.default_proc = Proc("main")
        self.procs = {}
        self.unsynced = {}        # inode -> [path at open, offset from which data is not durable]
        self.enabled = True
        self.on_power = None
        self.names = {}
        self.fds = {}
        self.fired_by = []

    # --- identity

    def proc(self):
        task = current_task()
        if task is None:
            return self.default_proc
        key = task.pid or task
        if key not in self.procs:
            self.procs[key] = Proc(task.name)
        return self.procs[key]

    def who(self, owner):
        task = current_task()
        return task.name if task else owner.name

    def inside(self, path):
        if isinstance(path, int):
            return path in self.fds
        try:
            p = os.fsdecode(os.fspath(path))
        except TypeError:
            return False
        return self._norm(p).startswith(self.root + os.sep) or self._norm(p) == self.root

    def _norm(self, p):
        if not p.startswith("/"):
            p = os.path.join(self._real["getcwd"](), p)
        return os.path.normpath(p)

    def canon(self, path):
        if isinstance(path, int):
            return self.fds.get(path, "fd?")
        p = self._norm(os.fsdecode(os.fspath(path)))[len(self.root) + 1:]
        if p not in self.names:
            self.names[p] = f"file{len(self.names)}"
        return self.names[p]

    # --- the seam

    def op(self, what, path, owner=None):
        if not self.enabled:
            return None
        owner = owner or self.proc()
        if owner.dead:
            raise SimCrash("dead process")
        if self.sched:
            self.sched.yield_point("disk." + what)
        if owner.dead:
            raise SimCrash("dead process")
        n = self.count
        self.count += 1
        name = self.canon(path) if path is not None else ""
        self.ctx.event("disk", owner.name, what, name)
        self.ctx.probe("disk_ops")
        fault = self.faults.get(n)
        if fault is None:
            return None
        kind = fault["kind"]
        if what == "close_read" and kind not in ("crash", "power"):
            # closing a file that was only read does not fail
            return None
        self.fired_by.append((n, self.who(owner), what, kind))
        if kind == "short":
            if what in ("read", "write"):
                self.ctx.fault("disk.short_" + what)
                return "short"
            return None
        if kind == "crash":
            self.ctx.fault("crash.in_" + what)
            if what == "write":
                return ("crash", fault.get("portion", 0), SimCrash("crash in " + what))
            owner.dead = True
            raise SimCrash("crash in " + what)
        if kind == "power":
            self.ctx.fault("power_loss.in_" + what)
            if what == "write":
                # what was handed over so far may or may not be on the disk
                pass
            if self.on_power:
                self.on_power(fault)
            owner.dead = True
            raise SimCrash("power loss in " + what)
        if kind == "EMFILE" and what != "open":
            kind = "EIO"
        if kind in ("ENOSPC", "EDQUOT", "EROFS") and what in ("read", "unlink", "stat", "listdir"):
            kind = "EIO"
        if what == "close" and kind in ("EMFILE", "EACCES"):
            kind = "EIO"
        self.ctx.fault(f"disk.{kind}.{what}")
        exc = OSError(ERRNO[kind], os.strerror(ERRNO[kind]), str(path))
        if what == "write":
            return ("error", fault.get("portion", 0), exc)
        raise exc

    def touched(self, raw):
        st = os.fstat(raw.fileno())
        self.unsynced.setdefault(st.st_ino, min(st.st_size, self.unsynced.get(st.st_ino, st.st_size)))

    def written(self, raw, n):
        st = os.fstat(raw.fileno())
        end = st.st_size
        start = max(0, end - n)
        self.unsynced[st.st_ino] = min(self.unsynced.get(st.st_ino, start), start)

    def synced(self, fd):
        st = os.fstat(fd)
        self.unsynced[st.st_ino] = st.st_size

    def lose_unsynced(self, rng):
        """Power failure: of data that was not synced, an arbitrary part is missing or zero."""
        lost = 0
        for dirpath, _, files in os.walk(self.root):
            for name in sorted(files):
                path = os.path.join(dirpath, name)
                st = self._real["stat"](path)
                safe = self.unsynced.get(st.st_ino)
                if safe is None or safe >= st.st_size:
                    continue
                style = rng.randrange(3)
                with self._real["open"](path, "r+b") as f:
                    if style == 0:
                        f.truncate(safe)
                    elif style == 1:
                        f.truncate(rng.randrange(safe, st.st_size))
                    else:
                        a = rng.randrange(safe, st.st_size)
                        f.seek(a)
                        f.write(b"\0" * (st.st_size - a))
                lost += 1
                self.ctx.fault("power_loss.lost_data")
        return lost

    # --- installation

    def install(self, seams):
        disk = self
        real = self._real = {
            "open": builtins.open, "os.open": os.open, "getcwd": os.getcwd, "stat": os.stat, "replace": os.replace, "rename": os.rename,
            "unlink": os.unlink, "remove": os.remove, "fsync": os.fsync, "write": os.write, "read": os.read, "close": os.close,
            "link": os.link, "listdir": os.listdir, "truncate": os.truncate, "ftruncate": os.ftruncate, "mkdir": os.mkdir,
            "fdatasync": os.fdatasync, "rmdir": os.rmdir, "fdopen": os.fdopen, "scandir": os.scandir, "utime": os.utime,
        }

        def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            if not disk.inside(file) or not disk.enabled:
                return real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
            disk.op("open", file)
            binary = "b" in mode
            raw_mode = mode.replace("b", "").replace("t", "").replace("U", "")
            if binary and (encoding is not None or errors is not None or newline is not None):
                raise ValueError("binary mode doesn't take encoding, errors or newline")
            raw = SimFileIO(disk, file, raw_mode or "r", file, closefd, opener)
            if buffering == 0:
                if not binary:
                    raise ValueError("can't have unbuffered text I/O")
                return raw
            size = disk.bufsize if buffering < 2 else buffering
            if "+" in raw_mode:
                buffer = io.BufferedRandom(raw, size)
            elif raw_mode[0] in "wax":
                buffer = io.BufferedWriter(raw, size)
            else:
                buffer = io.BufferedReader(raw, size)
            if binary:
                return buffer
            return io.TextIOWrapper(buffer, encoding, errors, newline, line_buffering=(buffering == 1))

        def wrap(name, label, two=False):
            fn = real[name]

            def inner(path, *args, **kwargs):
                if disk.enabled and (disk.inside(path) or (two and args and disk.inside(args[0]))):
                    disk.op(label, path)
                return fn(path, *args, **kwargs)
            return inner

        def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
            if not disk.enabled or not disk.inside(path):
                return real["os.open"](path, flags, mode, dir_fd=dir_fd)
            disk.op("open", path)
            fd = real["os.open"](path, flags, mode, dir_fd=dir_fd)
            disk.fds[fd] = disk.canon(path)
            return fd

        def sim_fsync(fd):
            no = fd if isinstance(fd, int) else fd.fileno()
            disk.op("fsync", None)
            disk.synced(no)
            return None

        def sim_write(fd, data):
            if fd not in disk.fds or not disk.enabled:
                return real["write"](fd, data)
            verdict = disk.op("write", fd)
            data = bytes(data)
            if verdict == "short" and len(data) > 1:
                data = data[:len(data) // 2]
            if isinstance(verdict, tuple):
                kind, portion, exc = verdict
                part = data[:int(len(data) * portion)]
                if part:
                    real["write"](fd, part)
                if kind == "crash":
                    disk.proc().dead = True
                raise exc
            st = os.fstat(fd)
            disk.unsynced[st.st_ino] = min(disk.unsynced.get(st.st_ino, st.st_size), st.st_size)
            return real["write"](fd, data)

        def sim_read(fd, n):
            if fd in disk.fds and disk.enabled:
                disk.op("read", fd)
            return real["read"](fd, n)

        def sim_close(fd):
            disk.fds.pop(fd, None)
            return real["close"](fd)

        seams.patch(builtins, "open", sim_open)
        seams.patch(io, "open", sim_open)
        seams.patch(os, "open", sim_os_open)
        for name, label, two in (("replace", "rename", True), ("rename", "rename", True), ("unlink", "unlink", False), ("remove", "unlink", False),
                                 ("link", "link", True), ("listdir", "listdir", False), ("truncate", "truncate", False), ("mkdir", "mkdir", False),
                                 ("stat", "stat", False), ("scandir", "listdir", False)):
            seams.patch(os, name, wrap(name, label, two))
        seams.patch(os, "fsync", sim_fsync)
        seams.patch(os, "fdatasync", sim_fsync)
        seams.patch(os, "write", sim_write)
        seams.patch(os, "read", sim_read)
        seams.patch(os, "close", sim_close)


def gen_disk_faults(rng, n, horizon, kinds):
    out = []
    for _ in range(n):
        kind = rng.choice(kinds)
        f = {"at": rng.randrange(0, max(1, horizon)), "kind": kind}
        if kind not in ("short",):
            f["portion"] = rng.choice([0, 0, 0.3, 0.5, 0.9, 1])
        if kind == "power":
            f["seed"] = rng.randrange(1 << 30)
        out.append(f)
    return sorted(out, key=lambda f: f["at"])
