"""
Simulated database drivers (DB-API) on an in-memory sqlite database: MySQL, psycopg 2, psycopg 3 and sqlite3. Every driver
call is a seam where a task switch, an error or a lost connection can happen.
"""
import re
import sqlite3
import sys
import types

from sim.ctx import HarnessError


class DbError(Exception):
    pass


class OperationalError(DbError):
    pass


class ProgrammingError(DbError):
    pass


class InternalError(DbError):
    pass


class InterfaceError(DbError):
    pass


ERRORS = {
    "operational": lambda: OperationalError("server closed the connection unexpectedly"),
    "timeout": lambda: OperationalError("canceling statement due to statement timeout"),
    "deadlock": lambda: OperationalError("deadlock detected"),
    "internal": lambda: InternalError("cache lookup failed"),
    "interface": lambda: InterfaceError("connection already closed"),
    "os": lambda: ConnectionResetError(104, "Connection reset by peer"),
    "memory": lambda: MemoryError(),
    "value": lambda: ValueError("cannot decode row"),
}


class DictRow(dict):
    pass


def tuple_rows(names, row):
    return tuple(row)


def dict_rows(names, row):
    return DictRow(zip(names, row))


def named_rows(names, row):
    import collections
    return collections.namedtuple("Record", names, rename=True)(*row)


class Cursor:
    def __init__(self, connection, make_row):
        self.connection = connection
        self.make_row = make_row
        self.rows = None
        self.names = []
        self.closed = False
        self.arraysize = 1
        self.description = None
        self.rowcount = -1

    def execute(self, sql, params=None):
        c = self.connection
        self.check()
        c.op("execute")
        if c.failed:
            raise InternalError("current transaction is aborted, commands ignored until end of transaction block")
        if c.flavor == "mysql" and c.unread is not None and c.unread is not self and c.unread.rows:
            raise InternalError("Unread result found")
        try:
            text, values = c.translate(sql, params)
            c.fire("execute")
            cursor = c.raw.execute(text, values)
            self.names = [d[0] for d in cursor.description or []]
            self.description = cursor.description
            self.rows = cursor.fetchall() if cursor.description else None
            self.rowcount = len(self.rows) if self.rows is not None else cursor.rowcount
            c.unread = self if self.rows else None
        except (sqlite3.Error, DbError, OSError, MemoryError, ValueError) as e:
            if c.flavor.startswith("pg"):
                c.failed = True
            if isinstance(e, sqlite3.Error) and c.flavor != "sqlite":
                raise ProgrammingError(str(e)) from e
            raise
        return self if c.flavor in ("pg3", "sqlite") else None

    def check(self):
        if self.closed:
            raise InterfaceError("cursor already closed")

    def start_fetch(self):
        c = self.connection
        self.check()
        c.op("fetch")
        c.fire("fetch")
        if self.rows is None:
            if c.flavor == "sqlite":
                return []
            raise ProgrammingError("no results to fetch")
        return self.rows

    def fetchall(self):
        rows = self.start_fetch()
        out = [self.make_row(self.names, r) for r in rows]
        self.rows = []
        return out

    def fetchone(self):
        rows = self.start_fetch()
        if not rows:
            return None
        row = rows[0]
        self.rows = rows[1:]
        return self.make_row(self.names, row)

    def fetchmany(self, size=None):
        rows = self.start_fetch()
        n = size or self.arraysize
        self.rows = rows[n:]
        return [self.make_row(self.names, r) for r in rows[:n]]

    def __iter__(self):
        while True:
            row = self.fetchone()
            if row is None:
                return
            yield row

    def close(self):
        self.closed = True
        if self.connection.unread is self:
            self.connection.unread = None

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()
        return False


class Connection:
    """flavor: mysql | pg2 | pg3 | sqlite"""

    def __init__(self, flavor, raw, ctx, sched=None, rows="tuple"):
        self.flavor = flavor
        self.raw = raw
        self.ctx = ctx
        self.sched = sched
        self.default = {"tuple": tuple_rows, "dict": dict_rows, "named": named_rows}[rows]
        self.lost = False
        self.failed = False
        self.unread = None
        self.count = 0
        self.at = {}
        self.fired = []

    def arm(self, at):
        self.count = 0
        self.at = dict(at)
        self.fired = []

    def op(self, what):
        if self.sched:
            self.sched.yield_point("db." + what)
        if self.lost:
            raise OperationalError("connection is lost")

    def fire(self, what):
        n = self.count
        self.count += 1
        if n in self.at:
            kind = self.at[n]
            self.fired.append((n, what, kind))
            self.ctx.fault(f"driver.{what}.{kind}")
            if kind == "lost":
                self.lost = True
                raise OperationalError("server has gone away")
            raise ERRORS[kind]()

    def cursor(self, *args, **kwargs):
        self.op("cursor")
        self.fire("cursor")
        make = self.default
        if self.flavor == "pg2":
            factory = kwargs.pop("cursor_factory", None)
            if factory is not None:
                make = factory.make_row
        elif self.flavor == "pg3":
            factory = kwargs.pop("row_factory", None)
            if factory is not None:
                make = factory
        elif self.flavor == "mysql":
            if kwargs.pop("dictionary", False):
                make = dict_rows
            kwargs.pop("buffered", None)
        if args or kwargs:
            raise TypeError(f"unexpected arguments {args} {kwargs}")
        return Cursor(self, make)

    def execute(self, sql, params=None):
        if self.flavor not in ("pg3", "sqlite"):
            raise AttributeError("execute")
        cursor = self.cursor()
        cursor.execute(sql, params)
        return cursor

    def rollback(self):
        self.failed = False
        self.unread = None

    def commit(self):
        pass

    def close(self):
        self.lost = True

    def translate(self, sql, params):
        """Statement and parameters in the style of the driver -> those of sqlite"""
        if self.flavor == "sqlite":
            return sql, params if params is not None else ()
        if not params:
            if self.flavor == "mysql" or params is None:
                # not interpolated
                if "%s" in sql:
                    raise ProgrammingError("not enough arguments")
                return sql, ()
        if isinstance(params, dict):
            values = []

            def named(m):
                if m.group(0) == "%%":
                    return "%"
                values.append(params[m.group(1)])
                return "?"
            return re.sub(r"%%|%\((\w+)\)s", named, sql), values
        count = 0

        def positional(m):
            nonlocal count
            if m.group(0) == "%%":
                return "%"
            if m.group(0) != "%s":
                raise ProgrammingError("only '%s' placeholders are allowed")
            count += 1
            return "?"
        if "?" in sql:
            raise ProgrammingError("syntax error at or near \"?\"")
        text = re.sub(r"%.?", positional, sql)
        if count != len(params or []):
            raise ProgrammingError(f"the query has {count} placeholders but {len(params or [])} parameters were passed")
        return text, list(params or [])


def install_modules():
    """Modules psycopg2 and psycopg as far as the library uses them."""
    def module(name, **attributes):
        m = types.ModuleType(name)
        m.__dict__.update(attributes)
        sys.modules[name] = m
        return m

    def cursor_class(name, make):
        return type(name, (), {"make_row": staticmethod(make)})

    errors = dict(Error=DbError, DatabaseError=DbError, OperationalError=OperationalError, ProgrammingError=ProgrammingError, InternalError=InternalError, InterfaceError=InterfaceError)
    extensions = module("psycopg2.extensions", cursor=cursor_class("cursor", tuple_rows))
    extras = module("psycopg2.extras", RealDictCursor=cursor_class("RealDictCursor", dict_rows), DictCursor=cursor_class("DictCursor", dict_rows),
                    NamedTupleCursor=cursor_class("NamedTupleCursor", named_rows))
    module("psycopg2", extensions=extensions, extras=extras, **errors)
    rows = module("psycopg.rows", tuple_row=tuple_rows, dict_row=dict_rows, namedtuple_row=named_rows)
    module("psycopg", rows=rows, **errors)


def check_not_real():
    for name in ("psycopg2", "psycopg"):
        m = sys.modules.get(name)
        if m is not None and getattr(m, "__file__", None):
            raise HarnessError(f"{name} is the real one")
