"""C06: facts in an SQL database become permanent and visible exactly when the application commits them."""
import os
import shutil
import sqlite3

from sim import toy as T
from sim.ctx import SimCrash, Violation
from sim.props.c04 import warm as warm_toy

ID = "C06"
LEVEL = "exploration"
RUNS = {"quick": 5000, "thorough": 50000}
RUN_TIMEOUT = 60
RULE = ("one case = a history of 1-3 applications on one database file (rollback journal or WAL; implicit transactions, explicit transactions or autocommit), of stores, deletes, queries, commits, "
        "roll-backs and crashes at any database call, where each crash leaves only what is in the files; or a dialog with crashes and restarts; non-trivial = a crash, a lock conflict or a "
        "roll-back; distinct = distinct event logs")
STATE_MEASURE = "distinct (journal mode, transaction mode, kind of step, rows committed, rows pending)"
REAL = ["Sqlite3DataSource", "Solver", "Model", "CoreModule", "sqlite3 on files", "and for dialogs the components of C04"]
STUBS = ["connection wrapper in which a database call is the moment of a crash or an error", "application modules"]
REQUIRED_PROBES = ["crash_inside_store", "crash_with_pending", "rolled_back", "lock_conflict", "not_visible_before_commit", "dialog_restart", "failed_statement", "delete"]
ASSUMPTIONS = ["a crash keeps the content of the files at that moment (sqlite is trusted to sync)", "the application rolls back after an error in a transaction"]
SHRINK_LISTS = ["steps", "ops", "atoms"]
KEEP_ONE = ["atoms"]

TABLES = {"p": ["a"], "q": ["a", "b"], "u": ["a", "b"]}
UNIQUE = {"u"}
VALUES = ["x", "y", "it's", "", 1, 2, "\u00e9"]
ERRORS = {"locked": lambda: sqlite3.OperationalError("database is locked"), "full": lambda: sqlite3.OperationalError("database or disk is full"),
          "io": lambda: sqlite3.OperationalError("disk I/O error"), "memory": lambda: MemoryError()}


def gen_atom(rng):
    t = rng.choice(list(TABLES))
    return [t] + [rng.choice(VALUES) for _ in TABLES[t]]


def gen(rng, tier, index):
    if rng.random() < 0.3:
        ops = []
        for _ in range(rng.randrange(4, 18)):
            op = T.gen_op(rng, {"crash": 0.5, "quiet": 0.5, "tell": 10, "name": 5, "parent": 6, "age": 5, "learn": 1})
            item = {"op": op}
            if rng.random() < 0.2:
                item["crash"] = rng.randrange(0, 8)
            if rng.random() < 0.1:
                item["restart"] = True
            ops.append(item)
        cfg = T.gen_config(rng)
        cfg["layout"] = "sqlite"
        return {"mode": "dialog", "cfg": cfg, "journal": rng.choice(["delete", "wal", "truncate"]), "ops": ops}
    n = rng.choice([1, 2, 2, 3])
    apps = [rng.choice(["implicit", "implicit", "explicit", "auto"]) for _ in range(n)]
    steps = []
    for _ in range(rng.randrange(4, 30)):
        a = rng.randrange(n)
        x = rng.random()
        if x < 0.38:
            step = {"do": "store", "app": a, "atoms": [gen_atom(rng) for _ in range(rng.choice([1, 1, 2, 3, 5]))]}
        elif x < 0.46:
            step = {"do": "delete", "app": a, "atom": gen_atom(rng)}
        elif x < 0.66:
            t = rng.choice(list(TABLES))
            step = {"do": "query", "app": a, "goal": [t] + [None if rng.random() < 0.6 else rng.choice(VALUES) for _ in TABLES[t]], "via": rng.choice(["solver", "source"])}
        elif x < 0.78:
            step = {"do": "commit", "app": a}
        elif x < 0.86:
            step = {"do": "rollback", "app": a}
        elif x < 0.93:
            step = {"do": "look"}
        else:
            step = {"do": "crash"}
        if step["do"] in ("store", "delete", "query") and rng.random() < 0.13:
            if rng.random() < 0.5:
                step["crash"] = rng.randrange(0, 10)
            else:
                step["fail"] = rng.randrange(0, 8)
                step["error"] = rng.choice(list(ERRORS))
        steps.append(step)
    return {"mode": "steps", "journal": rng.choice(["delete", "wal", "truncate", "persist"]), "apps": apps, "steps": steps}


class Calls:
    """Counts database calls, and crashes or fails at the chosen one."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.arm()

    def arm(self, crash=None, fail=None, error=None):
        self.n = 0
        self.crash, self.fail, self.error = crash, fail, error
        self.fired = None

    def call(self, kind):
        n = self.n
        self.n += 1
        if self.crash == n:
            self.fired = "crash"
            self.ctx.fault("crash at " + kind)
            raise SimCrash(kind)
        if self.fail == n:
            self.fired = "fail"
            self.ctx.fault(f"{kind} fails: {self.error}")
            raise ERRORS[self.error]()


class Cursor:
    def __init__(self, inner, calls):
        self._inner, self._calls = inner, calls

    def execute(self, *a):
        self._calls.call("execute")
        self._inner.execute(*a)
        return self

    def executemany(self, *a):
        self._calls.call("execute")
        self._inner.executemany(*a)
        return self

    def fetchall(self):
        self._calls.call("fetch")
        return self._inner.fetchall()

    def fetchone(self):
        self._calls.call("fetch")
        return self._inner.fetchone()

    def fetchmany(self, *a):
        self._calls.call("fetch")
        return self._inner.fetchmany(*a)

    def __iter__(self):
        self._calls.call("fetch")
        return iter(self._inner)

    def __getattr__(self, name):
        return getattr(self._inner, name)


class Connection:
    """Has the interface of an sqlite3 connection."""

    def __init__(self, inner, calls):
        self._inner, self._calls = inner, calls

    def cursor(self, *a, **k):
        self._calls.call("cursor")
        return Cursor(self._inner.cursor(*a, **k), self._calls)

    def execute(self, *a):
        return self.cursor().execute(*a)

    def executemany(self, *a):
        return self.cursor().executemany(*a)

    def commit(self):
        self._calls.call("commit")
        self._inner.commit()

    def rollback(self):
        self._calls.call("rollback")
        self._inner.rollback()

    def __enter__(self):
        self._inner.__enter__()
        return self

    def __exit__(self, *a):
        return self._inner.__exit__(*a)

    def __getattr__(self, name):
        return getattr(self._inner, name)


class Database:
    """The files; after a crash, a new set of files with the same content."""

    def __init__(self, root, journal, ddl):
        self.root, self.journal = root, journal
        self.generation = 0
        self.open_ = []
        self.path = os.path.join(root, "db0")
        c = self.connect()
        c.execute(f"PRAGMA journal_mode={journal}")
        for statement in ddl:
            c.execute(statement)
        c.commit()

    def connect(self, isolation=None):
        c = sqlite3.connect(self.path, timeout=0, isolation_level=isolation)
        # the log of changes may remain large; the crash image does not depend on checkpoints
        self.open_.append(c)
        return c

    def crash(self):
        self.generation += 1
        old, self.path = self.path, os.path.join(self.root, f"db{self.generation}")
        for suffix in ("", "-journal", "-wal"):
            if os.path.exists(old + suffix):
                shutil.copyfile(old + suffix, self.path + suffix)
        for c in self.open_:
            c.close()
        self.open_ = []


def run(plan, ctx):
    root = os.path.join(os.environ["SIM_SCRATCH"], f"c06-{os.getpid()}")
    os.makedirs(root)
    try:
        (run_dialog if plan["mode"] == "dialog" else run_steps)(plan, ctx, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def add(rows, atom):
    if not (atom[0] in UNIQUE and atom in rows):
        rows.append(atom)


def run_steps(plan, ctx, root):
    from richard.core.Model import Model
    from richard.core.Solver import Solver
    from richard.data_source.Sqlite3DataSource import Sqlite3DataSource
    from richard.entity.Relation import Relation
    from richard.entity.Variable import Variable
    from richard.interface.SomeModule import SomeModule

    calls = Calls(ctx)
    ddl = [f"CREATE TABLE {t} ({', '.join(c)}{', UNIQUE (' + ', '.join(c) + ')' if t in UNIQUE else ''})" for t, c in TABLES.items()]
    db = Database(root, plan["journal"], ddl)

    class Facts(SomeModule):
        def __init__(self, source):
            super().__init__()
            self.source = source
            for t, columns in TABLES.items():
                self.add_relation(Relation(t, arguments=columns, query_function=self.query, write_function=self.write))

        def query(self, values, context):
            return self.source.select(context.relation.predicate, context.relation.arguments, values)

        def write(self, values, context):
            self.source.insert(context.relation.predicate, context.relation.arguments, list(values))

    class App:
        def __init__(self, mode):
            self.mode = mode
            self.inner = db.connect("DEFERRED" if mode == "implicit" else None)
            self.source = Sqlite3DataSource(Connection(self.inner, calls))
            self.solver = Solver(Model([Facts(self.source)]))
            self.pending = None     # changed rows, not committed

        def begin(self):
            if self.pending is None:
                if self.mode == "explicit":
                    self.inner.execute("BEGIN")
                return list(committed)
            return list(self.pending)

    committed = []

    def start():
        out = [App(mode) for mode in plan["apps"]]
        return out, db.connect()

    apps, reader = start()

    def rows_of(connection):
        return sorted(([t] + list(r) for t in TABLES for r in connection.execute(f"SELECT * FROM {t}")), key=repr)

    def check_visible(what):
        have = rows_of(reader)
        if have != sorted(committed, key=repr):
            raise Violation("wrong-visible-facts", f"after {what} ({plan['apps']}, journal {plan['journal']}) another connection sees {have}, committed is {sorted(committed, key=repr)}")
        if any(a.pending is not None for a in apps):
            ctx.probe("not_visible_before_commit")

    def crash(what, options):
        nonlocal apps, reader, committed
        ctx.fault("crash")
        if any(a.pending is not None for a in apps):
            ctx.probe("crash_with_pending")
        db.crash()
        apps, reader = start()
        have = rows_of(reader)
        fit = [o for o in options if sorted(o, key=repr) == have]
        if not fit:
            raise Violation("wrong-facts-after-crash", f"after a crash {what} ({plan['apps']}, journal {plan['journal']}) the database holds {have}, expected {[sorted(o, key=repr) for o in options]}")
        committed = list(fit[0])

    for step in plan["steps"]:
        do = step["do"]
        app = apps[step["app"]] if "app" in step else None
        busy = any(a.pending is not None for a in apps if a is not app)
        ctx.state(plan["journal"], app and app.mode, do, len(committed), sum(len(a.pending) if a.pending is not None else 0 for a in apps), busy)
        ctx.event(do, step.get("app"), step.get("atoms") or step.get("atom") or step.get("goal"))
        if do == "look":
            check_visible("look")
        elif do == "crash":
            crash("between two steps", [committed])
        elif do in ("commit", "rollback"):
            if app.pending is None:
                continue
            if app.mode == "explicit":
                app.inner.execute(do.upper())
            else:
                getattr(app.inner, do)()
            if do == "commit":
                committed = app.pending
            else:
                ctx.probe("rolled_back")
                ctx.nontrivial = True
            app.pending = None
            check_visible(do)
        elif do == "query":
            have = app.pending if app.pending is not None else committed
            goal = step["goal"]
            want = [r[1:] for r in have if r[0] == goal[0] and all(g is None or g == v for g, v in zip(goal[1:], r[1:]))]
            calls.arm(step.get("crash"), step.get("fail"), step.get("error"))
            try:
                if step["via"] == "source":
                    got = app.source.select(goal[0], TABLES[goal[0]], goal[1:])
                else:
                    terms = [Variable(f"V{i}") if g is None else g for i, g in enumerate(goal[1:])]
                    got = [[b.get(f"V{i}", g) for i, g in enumerate(goal[1:])] for b in app.solver.solve([(goal[0], *terms)])]
                    unique = []
                    for w in want:
                        if w not in unique:
                            unique.append(w)
                    want = unique
            except SimCrash:
                calls.arm()
                crash("inside a query", [committed])
                continue
            except Exception as e:
                if calls.fired:
                    calls.arm()
                    ctx.probe("failed_statement")
                    continue
                raise Violation("query-fails", f"{goal} failed with {e!r} ({plan['apps']}, journal {plan['journal']})")
            if calls.fired:
                raise Violation("failure-hidden", f"a database call failed, but {goal} returned {got}")
            calls.arm()
            if sorted(got, key=repr) != sorted(want, key=repr):
                raise Violation("wrong-answer", f"{goal} in {app.mode} mode gave {got}, stored is {want}")
            # a query leaves nothing behind that blocks others
            if all(a.pending is None for a in apps):
                other = db.connect()
                try:
                    other.execute("BEGIN IMMEDIATE")
                    other.execute("INSERT INTO p VALUES ('other')")
                    other.execute("COMMIT")
                    committed = committed + [["p", "other"]]
                except sqlite3.OperationalError as e:
                    raise Violation("query-blocks-others", f"after {goal} in {app.mode} mode, another connection cannot write: {e}")
        else:
            before = committed if app.pending is None else app.pending
            try:
                base = app.begin()
            except sqlite3.OperationalError as e:
                raise Violation("query-blocks-others", f"cannot begin: {e}")
            stages = [list(base)]
            if do == "store":
                rows = list(base)
                for atom in step["atoms"]:
                    add(rows, atom)
                    stages.append(list(rows))
            else:
                ctx.probe("delete")
                stages.append([r for r in base if r != step["atom"]])
            calls.arm(step.get("crash"), step.get("fail"), step.get("error"))
            error = None
            try:
                if do == "store":
                    app.solver.solve([("store", [tuple(a) for a in step["atoms"]])])
                else:
                    app.source.delete(step["atom"][0], TABLES[step["atom"][0]], step["atom"][1:])
            except SimCrash:
                calls.arm()
                ctx.probe("crash_inside_store")
                crash(f"inside {step}", stages if app.mode == "auto" else [committed])
                continue
            except Exception as e:
                error = e
            fired = calls.fired
            calls.arm()
            if error is None:
                if fired:
                    raise Violation("failure-hidden", f"a database call failed, but {step} was acknowledged")
                if busy:
                    raise Violation("store-ignores-lock", f"{step} was acknowledged while another application was in a transaction")
                if app.mode == "auto":
                    committed = stages[-1]
                else:
                    app.pending = stages[-1]
                check_visible(do)
                continue
            if not fired and not busy:
                raise Violation("store-fails", f"{step} failed with {error!r} ({plan['apps']}, journal {plan['journal']})")
            ctx.probe("failed_statement" if fired else "lock_conflict")
            ctx.nontrivial = True
            if app.mode == "auto":
                have = rows_of(reader)
                fit = [o for o in stages if sorted(o, key=repr) == have]
                if not fit:
                    raise Violation("wrong-facts-after-failure", f"{step} failed with {error!r}; the database holds {have}, expected one of {stages}")
                committed = fit[0]
            else:
                if app.inner.in_transaction:
                    app.inner.rollback()
                elif app.mode == "explicit" or app.pending is not None:
                    raise Violation("transaction-ended", f"{step} failed with {error!r}, and the transaction of the application has gone")
                app.pending = None
                check_visible(do)
    crash("at the end", [committed])


def run_dialog(plan, ctx, root):
    calls = Calls(ctx)
    ddl = [f"CREATE TABLE {n} ({', '.join(c)})" for n, c in T.COLUMNS.items()]
    db = Database(root, plan["journal"], ddl)
    setup = db.connect()
    for name in plan["cfg"]["names"]:
        setup.execute("INSERT INTO has_name VALUES (?, ?)", [name.lower(), name.lower()])

    def start():
        folder = os.path.join(root, f"app{db.generation}")
        os.makedirs(folder)
        return T.Toy(plan["cfg"], folder, connection=Connection(db.connect(None), calls))

    def restart(options, what):
        nonlocal toy, oracle
        db.crash()
        calls.arm()
        toy = start()
        have = toy.raw()
        fit = [o for o in options if o.rows() == have]
        if not fit:
            raise Violation("wrong-facts-after-crash", f"after a crash {what} the database holds {have}, expected {[o.rows() for o in options]}")
        new = T.Oracle(plan["cfg"])
        for x in ("names", "facts", "parents", "ages"):
            setattr(new, x, getattr(fit[0], x))
        oracle = new
        ctx.probe("dialog_restart")
        ctx.fault("crash")

    toy, oracle = start(), T.Oracle(plan["cfg"])
    for item in plan["ops"]:
        op = item["op"]
        if op[0] == "word" and op[1] in oracle.words:
            continue
        if item.get("restart"):
            restart([oracle], "between two requests")
        after = oracle.copy()
        want = after.answer(op)
        calls.arm(item.get("crash"))
        got = error = None
        try:
            got = toy.ask(T.render(op))
        except SimCrash:
            ctx.probe("crash_inside_store")
            ctx.event(op[0], "crash")
            restart([oracle, after], f"inside {T.render(op)!r}")
            continue
        except Exception as e:
            error = e
        calls.arm()
        ctx.event(op[0], got)
        if not T.matches(want, got, error):
            raise Violation("wrong-answer", f"{T.render(op)!r} answered {got!r} {error!r}; right: {want!r}")
        oracle = after
        if toy.raw() != oracle.rows():
            raise Violation("wrong-facts", f"after {T.render(op)!r} the database holds {toy.raw()}, expected {oracle.rows()}")
    restart([oracle], "at the end")


def simplify(plan):
    import copy
    if plan["journal"] != "delete":
        yield {**copy.deepcopy(plan), "journal": "delete"}
    if plan["mode"] == "steps":
        for i, mode in enumerate(plan["apps"]):
            if mode != "auto":
                p = copy.deepcopy(plan)
                p["apps"][i] = "auto"
                yield p
        for i, step in enumerate(plan["steps"]):
            if "crash" in step or "fail" in step:
                p = copy.deepcopy(plan)
                for k in ("crash", "fail", "error"):
                    p["steps"][i].pop(k, None)
                yield p


def warm():
    warm_toy()
