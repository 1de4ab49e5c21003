"""C14: a select returns exactly the matching rows, on every backend, or fails."""
import sqlite3

from sim import dbsim
from sim.ctx import SimInterrupt, Violation
from sim.sched import LineTracer, Sched, gen_spots, gen_switches

ID = "C14"
LEVEL = "exploration"
RUNS = {"quick": 25000, "thorough": 160000}
RUN_TIMEOUT = 60
RULE = ("one case = one backend (SimpleDataSource, sqlite, MySQL, psycopg 2, psycopg 3) with 1-2 tables of any values and a history of selects (directly and as goals), inserts, deletes and lost "
        "connections by 1-3 tasks on one connection that are switched at driver calls and lines, with errors at driver calls; non-trivial = an error fired or tasks were switched; distinct = "
        "distinct event logs")
STATE_MEASURE = "distinct (backend, type of rows, kind of operation, number of constants, rows returned, error)"
REAL = ["MySqlDataSource", "PsycoPg2DataSource", "PsycoPg3DataSource", "Sqlite3DataSource", "SimpleDataSource", "Solver", "Model", "sqlite3 (for sqlite: statements and values; for others: as the engine)"]
STUBS = ["DB-API of mysql, psycopg2 and psycopg (parameter style, cursor and row types, failed transactions, unread results) on an in-memory sqlite database"]
REQUIRED_PROBES = ["simple", "sqlite", "mysql", "pg2", "pg3", "driver_failed", "null", "dict_rows", "solver", "duplicates", "deleted", "switched", "after_failure", "wide", "large", "conflict"]
ASSUMPTIONS = ["column and table names are identifiers of the application, not input", "the driver behaves as documented", "equality of values is that of sqlite without column types"]
SHRINK_LISTS = ["tables", "rows", "tasks", "steps", "switches", "spots"]
KEEP_ONE = ["tables", "tasks"]

TEXTS = ["x", "y", "it's", "", "100%", "%s", "?", "a\"b", "%(a)s", "'; DROP TABLE t0; --", "\u00e9\u6f22", "NULL", "TRUE", "1", "\\", "a\nb", " x", "X", "_", "\U0001f600"]


def gen_value(rng, null=True):
    x = rng.random()
    if null and x < 0.12:
        return None
    if x < 0.7:
        return rng.choice(TEXTS)
    if x < 0.9:
        return rng.choice([0, 1, 2, -1, 2 ** 40])
    return rng.choice([0.5, -2.25, 1e100])


def gen(rng, tier, index):
    backend = rng.choice(["simple", "sqlite", "mysql", "pg2", "pg3"])
    tables = []
    for t in range(rng.choice([1, 2])):
        columns = [f"c{i}" for i in range(rng.choice([1, 2, 2, 3, 4, 7]))]
        pool = [gen_value(rng) for _ in range(rng.randrange(2, 6))]
        tables.append({"columns": columns, "pool": pool, "rows": [[rng.choice(pool) for _ in columns] for _ in range(rng.choice([0, 1, 3, 6, 15]))]})
    if rng.random() < 0.03:
        # a large table: the rows many times
        tables[0]["times"] = rng.choice([40, 200, 400])
    several = backend != "mysql" and rng.random() < 0.35
    if backend == "sqlite" and not several and rng.random() < 0.4:
        # a table with a key
        table = rng.choice(tables)
        table["unique"] = rng.randrange(1, len(table["columns"]) + 1)
        table["rows"] = without_conflicts(table["rows"], table["unique"])
        table.pop("times", None)
    tasks = []
    for _ in range(rng.randrange(2, 4) if several else 1):
        steps = []
        for _ in range(rng.randrange(2, 9 if not several else 5)):
            t = rng.randrange(len(tables))
            columns, pool = tables[t]["columns"], tables[t]["pool"]
            x = rng.random()
            step = {"t": t}
            if x < 0.7 or backend not in ("simple", "sqlite"):
                chosen = rng.sample(columns, rng.randrange(1, len(columns) + 1)) if rng.random() < 0.5 else list(columns)
                step.update({"do": rng.choice(["select", "select", "select", "solve"]), "columns": chosen,
                             "values": [rng.choice([None, None, rng.choice(pool), gen_value(rng)]) for _ in chosen]})
                if step["do"] == "solve" and rng.random() < 0.2 and len(chosen) > 1:
                    step["same"] = True
            elif x < 0.88 or backend == "simple":
                chosen = rng.sample(columns, rng.randrange(1, len(columns) + 1)) if rng.random() < 0.3 else list(columns)
                step.update({"do": "insert", "columns": chosen, "values": [rng.choice(pool + [gen_value(rng)]) for _ in chosen]})
            else:
                chosen = rng.sample(columns, rng.randrange(1, len(columns) + 1))
                step.update({"do": "delete", "columns": chosen, "values": [rng.choice([v for v in pool if v is not None] or ["x"]) for _ in chosen]})
            if backend != "simple" and not several and rng.random() < 0.2:
                step["at"] = [[rng.randrange(0, 6 if "times" in tables[0] and rng.random() < 0.5 else 3), rng.choice(list(dbsim.ERRORS) + ["lost"])]]
            steps.append(step)
        tasks.append(steps)
    return {"backend": backend, "rows_as": rng.choice(["tuple", "dict", "named"]) if backend.startswith("pg") else rng.choice(["tuple", "named"]) if backend == "sqlite" else "tuple", "tables": tables,
            "tasks": tasks, "lines": rng.random() < 0.4, "spots": gen_spots(rng, 4, ["SimpleDataSource.py", "Sqlite3DataSource.py", "MySqlDataSource.py", "PsycoPg2DataSource.py", "PsycoPg3DataSource.py"]) if several else [], "switches": gen_switches(rng, rng.randrange(1, 15), 25) if several else []}


def equal(a, b):
    return type(a) is type(b) and a == b if isinstance(a, str) or isinstance(b, str) else a == b


def conflicts(row, other, n):
    return all(a is not None and b is not None and equal(a, b) for a, b in zip(row[:n], other[:n]))


def without_conflicts(rows, n):
    out = []
    for row in rows:
        if not any(conflicts(row, r, n) for r in out):
            out.append(row)
    return out


def key(row):
    return repr([float(v) if isinstance(v, (int, float)) else v for v in row])


def bag(rows):
    out = {}
    for r in rows:
        out[key(r)] = out.get(key(r), 0) + 1
    return out


def run(plan, ctx):
    import richard
    from richard.core.Model import Model
    from richard.core.Solver import Solver
    from richard.data_source.MySqlDataSource import MySqlDataSource
    from richard.data_source.PsycoPg2DataSource import PsycoPg2DataSource
    from richard.data_source.PsycoPg3DataSource import PsycoPg3DataSource
    from richard.data_source.SimpleDataSource import SimpleDataSource
    from richard.data_source.Sqlite3DataSource import Sqlite3DataSource
    from richard.entity.Relation import Relation
    from richard.entity.Variable import Variable
    from richard.interface.SomeModule import SomeModule

    prefix = list(richard.__path__)[0]
    backend = plan["backend"]
    ctx.probe(backend)
    sched = Sched(plan["switches"], ctx, spots=plan.get("spots"))
    sched.log_switches = False
    connection = None
    raw = None
    if backend == "simple":
        source = SimpleDataSource()
    else:
        raw = sqlite3.connect(":memory:", isolation_level=None, check_same_thread=False)
        connection = dbsim.Connection(backend, raw, ctx, sched, plan["rows_as"])
        source = {"mysql": MySqlDataSource, "pg2": PsycoPg2DataSource, "pg3": PsycoPg3DataSource, "sqlite": Sqlite3DataSource}[backend](connection)
    if plan["rows_as"] == "dict":
        ctx.probe("dict_rows")

    # the reference: rows as dicts, with the logical time at which they came and went
    clock = [0]
    history = {t: [] for t in range(len(plan["tables"]))}

    def tick():
        clock[0] += 1
        return clock[0]

    class Table(SomeModule):
        def query(self, values, context):
            return source.select(context.relation.predicate, context.relation.arguments, values)

    for t, table in enumerate(plan["tables"]):
        if raw is not None:
            unique = f", UNIQUE ({', '.join(table['columns'][:table['unique']])})" if table.get("unique") else ""
            raw.execute(f"CREATE TABLE t{t} ({', '.join(table['columns'])}{unique})")
        if table.get("times"):
            ctx.probe("large")
        for row in table["rows"] * table.get("times", 1):
            if raw is not None:
                raw.execute(f"INSERT INTO t{t} VALUES ({', '.join('?' for _ in row)})", row)
            else:
                source.insert(f"t{t}", table["columns"], list(row))
            history[t].append({"row": dict(zip(table["columns"], row)), "sure": 0, "maybe": 0, "gone_maybe": None, "gone": None})
            if None in row:
                ctx.probe("null")
        if len(bag(table["rows"])) < len(table["rows"]):
            ctx.probe("duplicates")
        if len(table["columns"]) > 4:
            ctx.probe("wide")

    def matches(row, step):
        return all(v is None or (row.get(c) is not None and equal(row[c], v)) for c, v in zip(step["columns"], step["values"]))

    def check(step, rows, start, end, once=False):
        """Rows that were there all the time have to be there, others only if they were there at some moment."""
        must, may = [], []
        for h in history[step["t"]]:
            if not matches(h["row"], step):
                continue
            projected = [h["row"].get(c) for c in step["columns"]]
            if h["sure"] is not None and h["sure"] <= start and (h["gone_maybe"] is None or h["gone_maybe"] > end):
                must.append(projected)
            if h["maybe"] <= end and (h["gone"] is None or h["gone"] >= start):
                may.append(projected)
        got, low, high = bag(rows), bag(must), bag(may)
        if once:
            # bindings: equal solutions count once
            got, low, high = dict.fromkeys(got, 1), dict.fromkeys(low, 1), dict.fromkeys(high, 1)
        if any(got.get(k, 0) < n for k, n in low.items()) or any(n > high.get(k, 0) for k, n in got.items()):
            raise Violation("wrong-rows", f"{backend} ({plan['rows_as']} rows): {step} returned {rows}, the table has {must}" + (f" up to {may}" if may != must else ""))

    failed_before = [False]
    deleting = []

    def perform(step):
        name = f"t{step['t']}"
        columns = step["columns"]
        if step["do"] == "select":
            rows = source.select(name, list(columns), list(step["values"]))
            if not isinstance(rows, list) or any(not isinstance(r, list) for r in rows):
                raise Violation("wrong-type", f"{backend}: {step} returned {rows!r}, which is not a list of lists")
            return rows
        if step["do"] == "solve":
            module = Table()
            module.add_relation(Relation(name, arguments=list(columns), query_function=module.query))
            arguments = [Variable(f"V{i}") if v is None else v for i, v in enumerate(step["values"])]
            if step.get("same"):
                arguments = [Variable("V") if isinstance(a, Variable) else a for a in arguments]
            bindings = Solver(Model([module])).solve([tuple([name] + arguments)])
            ctx.probe("solver")
            return [[b.get(a.name) if isinstance(a, Variable) else a for a in arguments] for b in bindings]
        if step["do"] == "insert":
            values = list(step["values"])
            source.insert(name, list(columns), values)
            values[:] = ["changed afterwards"] * len(values)
        else:
            source.delete(name, list(columns), list(step["values"]))

    def body(steps):
        for step in steps:
            if connection is not None:
                connection.arm({k: e for k, e in step.get("at", [])})
            start = tick()
            h = None
            gone = []
            if step["do"] == "insert":
                h = {"row": dict(zip(step["columns"], step["values"])), "sure": None, "maybe": start, "gone_maybe": None, "gone": None}
                history[step["t"]].append(h)
                # a delete that is going on may or may not hit it
                if any(d["t"] == step["t"] and matches(h["row"], d) for d in deleting):
                    h["gone_maybe"] = start
            elif step["do"] == "delete":
                gone = [x for x in history[step["t"]] if matches(x["row"], step) and x["gone"] is None]
                deleting.append(step)
                for x in gone:
                    x["gone_maybe"] = x["gone_maybe"] or start
            error, rows = None, None
            table = plan["tables"][step["t"]]
            conflict = h and table.get("unique") and any(x is not h and x["gone"] is None and conflicts([h["row"].get(c) for c in table["columns"]], [x["row"].get(c) for c in table["columns"]], table["unique"])
                                                         for x in history[step["t"]])
            try:
                rows = perform(step)
            except (Exception, SimInterrupt) as e:
                error = e
            if conflict and not (connection and connection.fired):
                # there is a row with this key: the new one is left out, or refused, and the old one stays as it is
                ctx.probe("conflict")
                history[step["t"]].remove(h)
                ctx.event(backend, "conflict", type(error).__name__)
                continue
            end = tick()
            if step["do"] == "delete":
                deleting.remove(step)
            fired = list(connection.fired) if connection else []
            n = sum(1 for v in step["values"] if v is not None)
            ctx.state(backend, plan["rows_as"], step["do"], n, len(rows) if rows is not None else None, type(error).__name__)
            ctx.event(backend, step["do"], len(rows) if rows is not None else "", type(error).__name__)
            if error is None and fired:
                raise Violation("failure-hidden", f"{backend}: {fired} during {step}, but it ended normally with {rows}")
            if error is not None and not fired:
                raise Violation("unexpected-error", f"{backend} ({plan['rows_as']} rows): {step} raised {error!r}")
            if error is not None:
                ctx.probe("driver_failed")
                failed_before[0] = True
                connection.lost = False
                connection.rollback()
                if h:
                    history[step["t"]].remove(h)
                for x in gone:
                    x["gone_maybe"] = None
                continue
            if h:
                h["sure"] = end
            for x in gone:
                if x["sure"] is not None and x["sure"] <= start:
                    x["gone"] = end
                ctx.probe("deleted")
            if rows is not None:
                if failed_before[0]:
                    ctx.probe("after_failure")
                if step["do"] == "select":
                    check(step, [list(r) for r in rows], start, end)
                    for r in rows:
                        r.append("changed afterwards")
                        r[0] = "changed"
                elif not any(h["row"].get(c) is None for h in history[step["t"]] for c in step["columns"]):
                    if not step.get("same"):
                        check(step, rows, start, end, True)
                    elif plan["switches"] == []:
                        free = [c for c, v in zip(step["columns"], step["values"]) if v is None]
                        want = [[h["row"].get(c) for c in step["columns"]] for h in history[step["t"]]
                                if h["gone"] is None and matches(h["row"], step) and (not free or all(equal(h["row"].get(c), h["row"].get(free[0])) for c in free))]
                        if set(bag(rows)) != set(bag(want)):
                            raise Violation("wrong-rows", f"{backend}: goal {step} (with one variable for all open places) gave {rows}, the table has {want}")

    def task(steps):
        def go():
            if plan["lines"] and plan["switches"]:
                with LineTracer(lambda frame: sched.yield_point(frame=frame), prefix):
                    body(steps)
            else:
                body(steps)
        return go

    for i, steps in enumerate(plan["tasks"]):
        sched.spawn(f"task{i}", task(steps))
    sched.run()
    if sched.preemptions:
        ctx.probe("switched")
        ctx.fault("preemption")
    # in the end the table has exactly the rows that are left
    if connection is not None:
        connection.arm({})
    for t, table in enumerate(plan["tables"]):
        check({"t": t, "columns": table["columns"], "values": [None] * len(table["columns"])},
              source.select(f"t{t}", table["columns"], [None] * len(table["columns"])), tick(), tick())


def simplify(plan):
    import copy
    for key_, value in (("lines", False), ("rows_as", "tuple")):
        if plan[key_] != value:
            yield {**copy.deepcopy(plan), key_: value}
    for i, table in enumerate(plan["tables"]):
        if "times" in table:
            p = copy.deepcopy(plan)
            del p["tables"][i]["times"]
            yield p
    for i, steps in enumerate(plan["tasks"]):
        for j, step in enumerate(steps):
            if step.get("at"):
                p = copy.deepcopy(plan)
                del p["tasks"][i][j]["at"]
                yield p


def warm():
    dbsim.check_not_real()
    dbsim.install_modules()
    import richard.core.Solver, richard.core.Model, richard.data_source.MySqlDataSource, richard.data_source.PsycoPg2DataSource  # noqa
    import richard.data_source.PsycoPg3DataSource, richard.data_source.SimpleDataSource, richard.data_source.Sqlite3DataSource  # noqa
