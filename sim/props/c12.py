"""C12: importing a CSV file stores every row of it, in order and unchanged, or fails."""
import os
import shutil
import sqlite3

from sim.ctx import SimInterrupt, Violation
from sim.faultds import EXCEPTIONS, FaultDS, Faults
from sim.fs import SimDisk, gen_disk_faults
from sim.sched import LineTracer, Sched, Seams, SimClock, gen_spots, gen_switches

ID = "C12"
LEVEL = "exploration"
RUNS = {"quick": 24000, "thorough": 120000}
RUN_TIMEOUT = 60
RULE = ("one case = 1-3 tables with random texts (separators, quotes, line breaks, non-ASCII, numbers, empty) written in a random CSV style, imported by 1-3 tasks that are switched at disk accesses, "
        "inserts and lines; reads may fail or be short, inserts may fail; a failed import is repeated after clearing; non-trivial = a fault fired or tasks were switched; distinct = distinct event logs")
STATE_MEASURE = "distinct (number of rows, style, kind of fault, rows stored when it failed)"
REAL = ["CsvImporter", "SimpleDataSource", "Sqlite3DataSource", "csv module", "text decoding"]
STUBS = ["disk seam below the buffered file (errors, short reads, small buffers)", "data-source wrapper that fails inserts"]
REQUIRED_PROBES = ["read_failed", "insert_failed", "imported", "line_break_in_value", "switched", "retried", "short_read"]
ASSUMPTIONS = ["all rows have as many values as there are headers", "the file is in the encoding of the locale"]
SHRINK_LISTS = ["tables", "rows", "faults", "switches", "spots"]
KEEP_ONE = ["tables"]

PIECES = ["a", "b", "John", "0", "007", "-5", "+5", "1.50", " ", ",", ";", "|", "\"", "\"\"", "'", "\n", "\r\n", "\r", "\t", "\u00e9", "\u6f22", "\U0001f600", "\\", "#", "NULL", "true", "=", "%s", "?", "x" * 300]


def gen_value(rng):
    x = rng.random()
    if x < 0.08:
        return ""
    if x < 0.5:
        return rng.choice(["John", "12", "nurse", "0", "007", "a b"])
    return "".join(rng.choice(PIECES) for _ in range(rng.randrange(1, 5)))


def gen(rng, tier, index):
    tables = []
    for t in range(rng.choice([1, 1, 1, 2, 3])):
        columns = [f"c{i}" for i in range(rng.randrange(1, 5))]
        rng.shuffle(columns)
        rows = [[gen_value(rng) for _ in columns] for _ in range(rng.choice([0, 1, 2, 4, 8, 15, rng.randrange(0, 60)] + ([rng.randrange(100, 1300)] if rng.random() < 0.15 else [])))]
        tables.append({"columns": columns, "rows": rows, "eol": rng.choice(["\n", "\r\n", "\n", "\r"]), "quote": rng.choice(["all", "needed", "needed", "some"]),
                       "blank": rng.choice([0, 0, 0.2]), "final": rng.random() < 0.8, "same": rng.random() < 0.2, "seed": rng.randrange(1 << 30),
                       "source": rng.choice(["simple", "sqlite"])})
    faults = gen_disk_faults(rng, rng.choice([0, 0, 1, 2]), rng.choice([3, 12, 40]), ["EIO", "EIO", "EMFILE", "EACCES", "short", "short"])
    insert = [[rng.randrange(0, 40), rng.choice(list(EXCEPTIONS))]] if rng.random() < 0.35 else []
    return {"tables": tables, "faults": faults, "insert": insert, "spots": gen_spots(rng, 4, ["CsvImporter.py"]) if len(tables) > 1 else [], "switches": gen_switches(rng, rng.randrange(0, 20), 60) if len(tables) > 1 else [],
            "bufsize": rng.choice([16, 61, 512, 8192]), "lines": rng.random() < 0.3, "one": rng.random() < 0.5}


def render(table):
    import random
    rng = random.Random(table["seed"])

    def field(v, alone):
        must = any(c in v for c in ",\"\r\n") or (alone and v == "")
        quote = must or table["quote"] == "all" or (table["quote"] == "some" and rng.random() < 0.5)
        return '"' + v.replace('"', '""') + '"' if quote else v

    lines = []
    for row in [table["columns"]] + table["rows"]:
        while table["blank"] and rng.random() < table["blank"]:
            lines.append("")
        lines.append(",".join(field(v, len(row) == 1) for v in row))
    text = table["eol"].join(lines)
    return text + table["eol"] if table["final"] else text


def run(plan, ctx):
    import richard
    from richard.data_source.CsvImporter import CsvImporter
    from richard.data_source.SimpleDataSource import SimpleDataSource
    from richard.data_source.Sqlite3DataSource import Sqlite3DataSource

    prefix = list(richard.__path__)[0]
    root = os.path.join(os.environ["SIM_SCRATCH"], f"c12-{os.getpid()}")
    os.makedirs(root)
    sched = Sched(plan["switches"], ctx, spots=plan.get("spots"))
    sched.log_switches = False
    faults = Faults(ctx, sched)
    one = CsvImporter()
    shared = {}
    outcomes = {}

    def source_for(t, table):
        """(source, name of the table)"""
        kind = table["source"]
        if kind == "simple":
            if "simple" not in shared or not table["same"]:
                shared.setdefault("simple", SimpleDataSource())
            return shared["simple"], f"t{t}"
        connection = sqlite3.connect(":memory:", isolation_level=None, check_same_thread=False)
        connection.execute(f"CREATE TABLE t{t} ({', '.join(table['columns'])})")
        return Sqlite3DataSource(connection), f"t{t}"

    sources = [source_for(t, table) for t, table in enumerate(plan["tables"])]

    def stored(t):
        source, name = sources[t]
        columns = plan["tables"][t]["columns"]
        return source.select(name, columns, [None] * len(columns))

    try:
        for t, table in enumerate(plan["tables"]):
            with open(os.path.join(root, f"t{t}.csv"), "w", newline="") as f:
                f.write(render(table))
            if any("\n" in v or "\r" in v for row in table["rows"] for v in row):
                ctx.probe("line_break_in_value")
        with Seams(ctx, SimClock(), 1, sched) as seams:
            disk = SimDisk(ctx, root, plan["faults"], sched, plan["bufsize"])
            disk.install(seams)
            faults.arm({k: e for k, e in plan["insert"]})

            def task(t):
                def body():
                    before = len(disk.fired_by), len(faults.fired)
                    importer = one if plan["one"] else CsvImporter()
                    source, name = sources[t]
                    error = None
                    try:
                        path = os.path.join(root, f"t{t}.csv")
                        if plan["lines"]:
                            with LineTracer(lambda frame: sched.yield_point(frame=frame), prefix):
                                importer.import_table_from_file(name, path, FaultDS(source, faults))
                        else:
                            importer.import_table_from_file(name, path, FaultDS(source, faults))
                    except (Exception, SimInterrupt) as e:
                        error = e
                    outcomes[t] = error
                return body

            for t in range(len(plan["tables"])):
                sched.spawn(f"import{t}", task(t))
            sched.run()
            hard = [f for f in disk.fired_by if f[3] != "short"]
            failures = len(hard) + len(faults.fired)
            must_fail = [f for f in hard if f[2] in ("open", "read")] + faults.fired
            if sched.preemptions:
                ctx.probe("switched")
                ctx.fault("preemption")
            if any(f[3] == "short" for f in disk.fired_by):
                ctx.probe("short_read")
            disk.enabled = False
        for t, table in enumerate(plan["tables"]):
            have, error = stored(t), outcomes[t]
            ctx.event(t, len(have), type(error).__name__)
            ctx.state(len(table["rows"]), table["quote"], table["eol"], type(error).__name__, len(have))
            if error is None:
                ctx.probe("imported")
                if have != table["rows"]:
                    raise Violation("wrong-rows", f"import of {render(table)!r} stored {have}, the file has {table['rows']}")
            else:
                if not failures:
                    raise Violation("import-fails", f"import of {render(table)!r} failed with {error!r}")
                if have != table["rows"][:len(have)]:
                    raise Violation("wrong-rows-after-failure", f"failed import of {render(table)!r} stored {have}, which is not a beginning of {table['rows']}")
        errors = sum(1 for e in outcomes.values() if e is not None)
        if must_fail and not errors:
            raise Violation("failure-hidden", f"{[f[1:] for f in hard] + faults.fired} failed during the import, but it ended normally")
        if hard:
            ctx.probe("read_failed")
        if faults.fired:
            ctx.probe("insert_failed")
        # again, without failures
        faults.arm({})
        for t, table in enumerate(plan["tables"]):
            if outcomes[t] is not None:
                ctx.probe("retried")
                name = f"t{t}"
                if table["source"] == "simple":
                    sources[t] = (SimpleDataSource(), name)
                else:
                    sources[t][0].connection.execute(f"DELETE FROM {name}")
                one.import_table_from_file(name, os.path.join(root, f"t{t}.csv"), sources[t][0])
                if stored(t) != table["rows"]:
                    raise Violation("wrong-rows", f"repeated import of {render(table)!r} stored {stored(t)}, the file has {table['rows']}")
    finally:
        shutil.rmtree(root, ignore_errors=True)


def simplify(plan):
    import copy
    if plan["insert"]:
        yield {**copy.deepcopy(plan), "insert": []}
    if plan["lines"]:
        yield {**copy.deepcopy(plan), "lines": False}
    if plan["bufsize"] != 8192:
        yield {**copy.deepcopy(plan), "bufsize": 8192}
    for t, table in enumerate(plan["tables"]):
        for key, value in (("eol", "\n"), ("quote", "needed"), ("blank", 0), ("final", True), ("source", "simple")):
            if table[key] != value:
                p = copy.deepcopy(plan)
                p["tables"][t][key] = value
                yield p
        for r, row in enumerate(table["rows"]):
            for c, v in enumerate(row):
                for simpler in ("a", v[:len(v) // 2], v[1:]):
                    if len(simpler) < len(v) or (v != "a" and simpler == "a" and len(v) == 1):
                        p = copy.deepcopy(plan)
                        p["tables"][t]["rows"][r][c] = simpler
                        yield p


def warm():
    import csv, richard.data_source.CsvImporter, richard.data_source.SimpleDataSource, richard.data_source.Sqlite3DataSource  # noqa
