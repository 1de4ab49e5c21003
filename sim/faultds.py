"""A data source wrapper through which the simulator makes accesses fail, reorders rows, and switches tasks."""
import sqlite3

from sim.ctx import SimInterrupt


class CustomError(Exception):
    pass


class BackendError(RuntimeError):
    def __str__(self):
        return "backend is gone"


EXCEPTIONS = {
    "operational": lambda: sqlite3.OperationalError("database is locked"),
    "database": lambda: sqlite3.DatabaseError("database disk image is malformed"),
    "interface": lambda: sqlite3.InterfaceError("bad interface"),
    "programming": lambda: sqlite3.ProgrammingError("Cannot operate on a closed database."),
    "oserror": lambda: OSError(5, "Input/output error"),
    "connection": lambda: ConnectionResetError(104, "Connection reset by peer"),
    "timeout": lambda: TimeoutError("timed out"),
    "key": lambda: KeyError("value"),
    "index": lambda: IndexError("list index out of range"),
    "value": lambda: ValueError("bad value"),
    "type": lambda: TypeError("bad type"),
    "attribute": lambda: AttributeError("cursor"),
    "runtime": lambda: BackendError(),
    "custom": lambda: CustomError("custom"),
    "plain": lambda: Exception("Too many requests"),
    "memory": lambda: MemoryError(),
    "stop": lambda: StopIteration("end"),
    "assertion": lambda: AssertionError("backend"),
    "recursion": lambda: RecursionError("maximum recursion depth exceeded"),
    "lookup": lambda: LookupError("lookup"),
    "zero": lambda: ZeroDivisionError("division by zero"),
    "unicode": lambda: UnicodeDecodeError("utf-8", b"\xff", 0, 1, "invalid start byte"),
    "notimplemented": lambda: NotImplementedError("no"),
    "eof": lambda: EOFError("eof"),
    "interrupt": lambda: SimInterrupt("interrupted"),
}


class Faults:
    """Shared counter of data accesses: the k-th access fails as the plan says."""

    def __init__(self, ctx, sched=None):
        self.ctx = ctx
        self.count = 0
        self.at = {}             # access number -> exception name
        self.writes_only = False
        self.fired = []
        self.rng = None          # shuffles the rows of selects
        self.sched = sched
        self.enabled = True
        self.trace = []

    def arm(self, at):
        self.count = 0
        self.at = dict(at)
        self.fired = []
        self.trace = []

    def access(self, kind, table):
        if not self.enabled:
            return
        if self.sched:
            self.sched.yield_point("data." + kind)
        n = self.count
        self.count += 1
        self.trace.append((kind, table))
        if n in self.at:
            name = self.at[n]
            self.fired.append((n, kind, table, name))
            self.ctx.fault(f"data.{kind}.{name}")
            self.ctx.event("fault", kind, table, name)
            raise EXCEPTIONS[name]()


class FaultDS:
    """Has the interface of a data source."""

    def __init__(self, inner, faults):
        self.inner = inner
        self.faults = faults

    def select(self, table, columns, values):
        self.faults.access("select", table)
        rows = self.inner.select(table, columns, values)
        if self.faults.rng:
            rows = list(rows)
            self.faults.rng.shuffle(rows)
        return rows

    def insert(self, table, columns, values):
        self.faults.access("insert", table)
        return self.inner.insert(table, columns, values)

    def delete(self, table, columns, values):
        self.faults.access("delete", table)
        return self.inner.delete(table, columns, values)

    def clear(self):
        return self.inner.clear()

    def __getattr__(self, name):
        return getattr(self.inner, name)
