"""C05: answers reflect exactly the facts stored and the rules learned so far, over any history and any failing access."""
import os
import random
import shutil
import sqlite3

from sim.ctx import HarnessError, SimInterrupt, Violation
from sim.faultds import EXCEPTIONS, FaultDS, Faults
from sim.gengoal import ENT, PLAIN, GoalGen, ALL, DERIVED, SIGNATURES, gen_fact, gen_rule, has, sibling
from sim.refeval import Facts, Reference, Skip, atoms_to_real, atom_to_real, norm_binding, text_rule, to_real, top_variables

ID = "C05"
LEVEL = "exploration"
RUNS = {"quick": 40000, "thorough": 150000}
RUN_TIMEOUT = 60
RULE = ("one case = a seeded history of stores, learned rules, imported rules, stores over query results and queries on a model of several modules, with "
        "data accesses that fail at chosen points and rows in arbitrary order; non-trivial = a fault fired or a rule took part in an answer; distinct = distinct event logs")
STATE_MEASURE = "distinct (predicates used in the goal, number of facts, number of rules, size of the answer) combinations"
REAL = ["Solver", "Model", "CoreModule", "InferenceModule", "SimpleInferenceRuleParser", "SimpleMemoryModule", "Sqlite3DataSource", "SimpleDataSource", "sqlite3 (in memory)"]
STUBS = ["data-source wrapper that fails accesses and reorders rows", "application modules"]
REQUIRED_PROBES = ["unwritable", "many", "long", "answers_compared", "rules_used", "partial_store", "foreach"]
ASSUMPTIONS = ["goals are well formed: arguments that must be bound are bound", "rules are safe and end (no left recursion over cyclic data)"]
SHRINK_LISTS = ["ops", "atoms", "goal", "body", "at", "l"]
KEEP_ONE = ["atoms", "goal", "body", "l"]
EXC = [e for e in EXCEPTIONS]


def gen_chain(rng):
    """A chain of relations, and questions that go from one end to the other."""
    n = rng.choice([8, 15, 30])
    names = [f"c{i}" for i in range(n + 1)]
    t, r = rng.choice([("t1", "r1"), ("t2", "r2")])
    X, Y, Z = [{"v": v} for v in "XYZ"]
    rules = [{"op": "learn", "via": rng.choice(["solver", "text", "insert"]), "head": head, "body": body, "bind": {}}
             for head, body in (([t, X, Y], [[r, X, Y]]), ([t, X, Z], [[r, X, Y], [t, Y, Z]]))]
    rng.shuffle(rules)
    links = [[r, a, b] for a, b in zip(names, names[1:])]
    if rng.random() < 0.5:
        rng.shuffle(links)
    ops = [{"op": "store", "atoms": links, "at": [], "via": rng.choice(["solve", "write"])}] + rules
    for goal in ([[t, names[0], {"v": "Q0"}]], [[t, names[0], names[-1]]], [[t, names[-2], {"v": "Q0"}]], [[r, names[0], {"v": "Q1"}]] + [[r, {"v": f"Q{i}"}, {"v": f"Q{i + 1}"}] for i in range(1, n - 1)]):
        ops.append({"op": "query", "goal": goal, "at": []})
    return {"ops": ops, "shuffle": rng.choice([None, rng.randrange(1 << 30)]), "layout": rng.choice(["sqlite", "simple", "mixed", "shared"]),
            "one_solver": rng.random() < 0.5, "stats": rng.random() < 0.3}


def gen_many(rng):
    if rng.random() < 0.3:
        return gen_chain(rng)
    """Many facts and rules for the same relations."""
    names = [f"b{i:03}" for i in range(rng.choice([20, 60, 140]))]

    def fact(predicate):
        out = []
        for kind in ALL[predicate]:
            out.append(rng.choice(names) if kind == "ent" else rng.randrange(1000))
        if ALL[predicate] == ["ent", "ent"]:
            out = sorted(rng.sample(names, 2))
        return [predicate] + out

    ops = []
    derived = rng.choice(["d1", "d2", "k1"])
    stored = rng.choice(["e1", "r1", "n1", "m1"])
    for _ in range(rng.choice([1, 2])):
        for _ in range(rng.choice([10, 40, 110])):
            head = fact(derived)
            ops.append({"op": "learn", "via": rng.choice(["solver", "insert", "insert", "insert"]), "head": head, "body": [], "bind": {}})
        if rng.random() < 0.5:
            body = [[stored] + [{"v": f"V{i}"} for i in range(len(ALL[stored]))]]
            if len(ALL[stored]) == len(ALL[derived]) or ALL[derived] == ["ent"]:
                ops.append({"op": "learn", "via": "text", "head": [derived] + [{"v": f"V{i}"} for i in range(len(ALL[derived]))], "body": body, "bind": {}})
        ops.append({"op": "store", "atoms": [fact(stored) for _ in range(rng.choice([5, 40, 130]))], "at": [], "via": rng.choice(["solve", "write"])})
        for _ in range(3):
            for predicate in (derived, stored):
                terms = [{"v": f"Q{i}"} for i in range(len(ALL[predicate]))]
                if rng.random() < 0.5:
                    i = rng.randrange(len(terms))
                    terms[i] = fact(predicate)[1 + i]
                ops.append({"op": "query", "goal": [[predicate] + terms], "at": []})
    return {"ops": ops, "shuffle": rng.choice([None, rng.randrange(1 << 30)]), "layout": rng.choice(["sqlite", "simple", "mixed", "shared"]),
            "one_solver": rng.random() < 0.5, "stats": rng.random() < 0.3}


def gen_alike(rng):
    """Values that resemble each other, in everything that counts, collects or compares values."""
    same = rng.random() < 0.5
    atoms = [gen_fact(rng, ["x1", "x2", "x2"]) for _ in range(rng.choice([2, 4, 8, 16]))]
    for _ in range(rng.choice([1, 3, 8])):
        name = rng.choice(["n1", "n2"])
        atoms.append([name, rng.choice(ENT), rng.choice([0, 3, 7, 7, 12])] if same else gen_fact(rng, [name]))
    atoms += [gen_fact(rng, ["e1", "r1"]) for _ in range(rng.choice([0, 2, 4]))]
    rng.shuffle(atoms)
    ops = [{"op": "store", "atoms": atoms, "at": [], "via": rng.choice(["solve", "write"])}]
    X, Y = {"v": "X"}, {"v": "Y"}
    # the same variable twice, or a constant, in the head
    for head, body in rng.sample([(["d2", X, X], [["x2", X, X]]), (["d2", X, X], [["x2", X, Y]]), (["d2", X, X], [["x2", Y, X]]), (["d2", X, Y], [["x2", Y, X]]), (["d2", rng.choice(PLAIN), X], [["x2", X, Y]])], 2):
        ops.append({"op": "learn", "via": "insert", "head": head, "body": body, "bind": {}})
    values = sorted({repr(v): v for a in atoms for v in a[1:]}.items())

    def value():
        return rng.choice(values)[1]
    for _ in range(rng.choice([3, 6, 10])):
        kind = rng.choice(["find", "find", "number", "number", "count", "head", "head", "test", "percentage"])
        A, B, L = {"v": "Q1"}, {"v": "Q2"}, {"v": "Q3"}
        pair = rng.choice(["x1", "x2", "x2", "n1", "d2"])
        some = [pair] + rng.choice([[A, B], [A, B], [A, value()], [value(), B]])
        if kind == "find":
            names = [t["v"] for t in some[1:] if isinstance(t, dict)]
            goal = [["find_all", {"n": rng.choice(names)} if len(names) < 2 or rng.random() < 0.7 else [{"n": n} for n in names], {"l": [some]}, L]]
        elif kind == "number":
            body = [[rng.choice(["n1", "n2"]), A, B]] + [a for a in [["e1", A], ["r1", A, {"v": "Q4"}]] if rng.random() < 0.25]
            goal = [[name, L, B, {"l": body}] if (name := rng.choice(["sum", "avg"] if same else ["sum", "avg", "arg_min", "arg_min", "arg_max", "arg_max"])) in ("sum", "avg") else [name, A, B, {"l": body}]]
        elif kind == "count":
            goal = [["count", L, {"l": [some]}]]
        elif kind == "head":
            v = value()
            goal = [["d2", v, rng.choice([v, value(), str(v)])]]
        elif kind == "test":
            goal = [[pair, A, B], [rng.choice(["equals", "x2", "d2"]), rng.choice([A, B]), rng.choice([A, B, value()])]]
        else:
            goal = [["percentage", L, {"l": [some]}, {"l": [[pair, {"v": "Q4"}, {"v": "Q5"}]]}]]
        ops.append({"op": "query", "goal": goal, "at": []})
    return {"ops": ops, "shuffle": None if rng.random() < 0.3 else rng.randrange(1 << 30), "layout": rng.choice(["sqlite", "simple", "mixed", "shared"]), "one_solver": rng.random() < 0.5, "stats": False}


def unwritable(rng):
    name = rng.choice(list(DERIVED) + ["nowhere", "less_than"])
    return [name] + ["a1", "a2"][:len(DERIVED.get(name, "xx"))]


def can_hold(atom):
    return atom[0] in SIGNATURES


def gen(rng, tier, index):
    if rng.random() < 0.015:
        return gen_many(rng)
    if rng.random() < 0.06:
        return gen_alike(rng)
    ops = []
    n = rng.randrange(3, 16)
    faulty = rng.random() < 0.5
    derived = list(DERIVED)
    for i in range(n):
        x = rng.random()
        fault = []
        if faulty and rng.random() < 0.35:
            fault = [[rng.randrange(0, 6), rng.choice(EXC) if rng.random() < 0.6 else rng.choice(["operational", "connection", "timeout", "oserror"])]]
        if i < 2 or x < 0.3:
            atoms = [gen_fact(rng) for _ in range(rng.choice([1, 1, 2, 4, 6]))]
            if rng.random() < 0.08:
                # an atom that nothing can hold: there is no such relation, or it only follows from rules, or it is only a test
                atoms.insert(rng.randrange(len(atoms) + 1), unwritable(rng))
            ops.append({"op": "store", "atoms": atoms, "at": fault if rng.random() < 0.6 else [], "via": rng.choice(["solve", "solve", "write"])})
        elif x < 0.5:
            head, body = gen_rule(rng)
            earlier = [o for o in ops if o["op"] == "learn"]
            if earlier and rng.random() < 0.25:
                head, body = sibling(rng, [earlier[-1]["head"], earlier[-1]["body"]]) or (head, body)
            via = rng.choice(["solver", "solver", "text", "insert"])
            if has(body, ("find_all", "find_one")):
                via = "solver"
            bind = {}
            if via == "solver" and rng.random() < 0.4:
                for v in ["X", "Y"]:
                    if rng.random() < 0.5:
                        bind[v] = rng.choice(["a1", "a2", "a3"])
            ops.append({"op": "learn", "via": via, "head": head, "body": body, "bind": bind})
        elif x < 0.6:
            target = rng.choice(["e1", "e2", "m1", "r1", "r2"])
            if len(SIGNATURES[target]) == 1:
                goal = [[rng.choice([p for p in ["e1", "e2", "m1", "d1", "d3"]]), {"v": "Q1"}]]
                atoms = [[target, {"v": "Q1"}]]
            else:
                goal = [[rng.choice(["r1", "r2", "t1", "t2"]), {"v": "Q1"}, {"v": "Q2"}]]
                atoms = [[target, {"v": "Q1"}, {"v": "Q2"}]]
                if rng.random() < 0.4:
                    atoms.append([rng.choice(["e1", "e2"]), {"v": "Q2"}])
            if rng.random() < 0.08:
                atoms.insert(rng.randrange(len(atoms) + 1), unwritable(rng))
            ops.append({"op": "foreach", "goal": goal, "atoms": atoms, "at": fault})
        else:
            names = ["X", "Y", "Z", "W"] if rng.random() < 0.3 else None
            preds = rng.sample(list(ALL), rng.randrange(2, len(ALL)))
            ops.append({"op": "query", "goal": GoalGen(rng, preds, "Q", names).goal(), "at": fault if rng.random() < 0.5 else []})
    # in the end, what was learned is asked directly, and more
    for op in list(ops):
        if op["op"] == "learn" and rng.random() < 0.5:
            head = op["head"]
            terms = [rng.choice([{"v": f"Q{i}"}, {"v": f"Q{i}"}, {"v": f"Q{i}"}, GoalGen(rng, [head[0]]).const(kind)]) for i, kind in enumerate(ALL[head[0]])]
            ops.append({"op": "query", "goal": [[head[0]] + terms], "at": []})
    for _ in range(rng.choice([1, 3, 6])):
        names = ["X", "Y"] if rng.random() < 0.3 else None
        preds = list(ALL) if rng.random() < 0.5 else rng.sample(list(ALL), rng.randrange(2, len(ALL)))
        ops.append({"op": "query", "goal": GoalGen(rng, preds, "Q", names).goal(), "at": [[rng.randrange(0, 6), rng.choice(["operational", "connection", "timeout", "custom"])]]
                    if faulty and rng.random() < 0.2 else []})
    return {"ops": ops, "shuffle": rng.choice([None, rng.randrange(1 << 30)]), "layout": rng.choice(["sqlite", "simple", "mixed", "shared"]),
            "one_solver": rng.random() < 0.5, "stats": rng.random() < 0.3}


def build(plan, ctx, faults):
    from richard.core.Model import Model
    from richard.data_source.Sqlite3DataSource import Sqlite3DataSource
    from richard.data_source.SimpleDataSource import SimpleDataSource
    from richard.entity.Relation import Relation
    from richard.interface.SomeModule import SomeModule
    from richard.module.InferenceModule import InferenceModule
    from richard.module.SimpleMemoryModule import SimpleMemoryModule

    def columns(name):
        return [f"c{i}" for i in range(len(SIGNATURES[name]))]

    def sqlite_source(names):
        connection = sqlite3.connect(":memory:", isolation_level=None)
        for name in names:
            connection.execute(f"CREATE TABLE {name} ({', '.join(columns(name))})")
        return Sqlite3DataSource(connection)

    class FactModule(SomeModule):
        def __init__(self, source, names):
            super().__init__()
            self.source = FaultDS(source, faults)
            for name in names:
                self.add_relation(Relation(name, arguments=columns(name), query_function=self.query, write_function=self.write))

        def query(self, values, context):
            return self.source.select(context.relation.predicate, context.relation.arguments, values)

        def write(self, values, context):
            self.source.insert(context.relation.predicate, context.relation.arguments, list(values))

    class Memory(SimpleMemoryModule):
        def __init__(self):
            super().__init__()
            self.data_source.connection.execute("CREATE TABLE m1 (c0)")
            self.data_source = FaultDS(self.data_source, faults)
            self.add_relation(Relation("m1", arguments=["c0"]))

    layout = plan["layout"]
    facts = [n for n in SIGNATURES if n != "m1"]
    holders = []
    if layout == "sqlite":
        holders = [FactModule(sqlite_source(facts), facts)]
    elif layout == "simple":
        holders = [FactModule(SimpleDataSource(), facts)]
    elif layout == "mixed":
        a, b = facts[::2], facts[1::2]
        holders = [FactModule(sqlite_source(a), a), FactModule(SimpleDataSource(), b)]
    else:
        a, b = facts, ["r1", "e1", "n1"]
        holders = [FactModule(sqlite_source(a), a), FactModule(SimpleDataSource(), b)]
    memory = Memory()
    inference = InferenceModule()
    model = Model([holders[0], inference] + holders[1:] + [memory])
    raw = [(h.source, list(h.relations)) for h in holders] + [(memory.data_source, ["m1"])]
    return model, inference, raw


def raw_rows(raw, faults):
    """The facts that the data sources really hold."""
    faults.enabled = False
    rows = {}
    try:
        for source, names in raw:
            for name in names:
                arity = len(SIGNATURES[name])
                for row in source.inner.select(name, [f"c{i}" for i in range(arity)], [None] * arity):
                    rows.setdefault(name, set()).add(tuple(row))
    finally:
        faults.enabled = True
    return rows


def run(plan, ctx):
    from richard.core.Solver import Solver
    from richard.type.InferenceRule import InferenceRule
    faults = Faults(ctx)
    if plan["shuffle"] is not None:
        faults.rng = random.Random(plan["shuffle"])
    root = os.path.join(os.environ["SIM_SCRATCH"], f"c05-{os.getpid()}")
    os.makedirs(root)
    try:
        model, inference, raw = build(plan, ctx, faults)
        facts = Facts()
        shared = Solver(model, log_stats=plan["stats"])

        def new_solver():
            return shared if plan["one_solver"] else Solver(model, log_stats=plan["stats"])

        def call(op, fn):
            faults.arm({k: v for k, v in op.get("at", [])})
            try:
                return fn(), None
            except (Exception, SimInterrupt) as e:
                return None, e

        def model_rows():
            return {k: set(v) for k, v in facts.rows.items() if v}

        def check_stored(op):
            have, want = {k: v for k, v in raw_rows(raw, faults).items() if v}, model_rows()
            if have != want:
                extra = {k: sorted(have.get(k, set()) - want.get(k, set()), key=repr) for k in set(have) | set(want)}
                missing = {k: sorted(want.get(k, set()) - have.get(k, set()), key=repr) for k in set(have) | set(want)}
                raise Violation("stored-facts", f"after {op}: facts that should not be there {extra}, facts that are missing {missing}")

        for op in plan["ops"]:
            kind = op["op"]
            if kind == "store":
                atoms = [tuple(a) for a in op["atoms"]]
                if op["via"] == "solve":
                    result, error = call(op, lambda: new_solver().solve([("store", atoms)]))
                else:
                    def write_all():
                        solver = new_solver()
                        for a in atoms:
                            solver.write_atom(a)
                    result, error = call(op, write_all)
                ctx.event("store", len(atoms), "error" if error else "ok")
                apply_writes(op, atoms, error, faults, facts, raw, ctx, plan)
            elif kind == "foreach":
                reference = Reference(facts)
                try:
                    solutions = reference.solve(op["goal"], {})
                except Skip:
                    continue
                goal = atoms_to_real(op["goal"]) + [("store", atoms_to_real(op["atoms"]))]
                result, error = call(op, lambda: new_solver().solve(goal))
                planned = [tuple([a[0]] + [b[t["v"]] for t in a[1:]]) for b in solutions for a in op["atoms"] if can_hold(a)]
                impossible = bool(solutions) and not all(can_hold(a) for a in op["atoms"])
                ctx.event("foreach", len(planned), "error" if error else "ok")
                ctx.probe("foreach")
                if error is None and faults.fired:
                    raise Violation("failed-write-acknowledged", f"{op}: the data access {faults.fired} failed, but the request succeeded")
                if impossible and error is None:
                    raise Violation("lost-write-acknowledged", f"{op}: one of the facts can't be held by any relation, but the request succeeded")
                if impossible:
                    ctx.probe("unwritable")
                if error is not None and not faults.fired and not impossible:
                    if uses_undefined(op["goal"], facts, known_names(facts)):
                        check_stored(op)
                        continue
                    raise Violation("unexpected-error", f"{op} raised {error!r}")
                if error is None:
                    for atom in planned:
                        facts.add(atom[0], atom[1:])
                else:
                    # an unordered prefix: nothing but planned facts, and as many as were acknowledged
                    have = raw_rows(raw, faults)
                    before = model_rows()
                    allowed = {}
                    for atom in planned:
                        allowed.setdefault(atom[0], set()).add(tuple(atom[1:]))
                    for name, rows in have.items():
                        wrong = rows - before.get(name, set()) - allowed.get(name, set())
                        if wrong:
                            raise Violation("stored-facts", f"after failing {op}: {name} holds {sorted(wrong, key=repr)}, which nobody stored")
                        for row in sorted(rows - before.get(name, set()), key=repr):
                            facts.add(name, row)
                    ctx.probe("partial_store")
            elif kind == "learn":
                head, body = op["head"], op["body"]
                if op["via"] == "text":
                    path = os.path.join(root, "rules.pl")
                    with open(path, "w") as f:
                        f.write("# rules\n" + text_rule(head, body) + "\n")
                    result, error = call(op, lambda: inference.import_rules(path))
                elif op["via"] == "insert":
                    result, error = call(op, lambda: inference.insert_rule(InferenceRule(atom_to_real(head), atoms_to_real(body))))
                else:
                    bind = op.get("bind", {})
                    goal = [("let", to_real({"v": k}), v) for k, v in bind.items()] + [("learn_rule", atom_to_real(head), atoms_to_real(body))]
                    result, error = call(op, lambda: new_solver().solve(goal))
                    head, body = substitute(head, bind), [substitute(a, bind) for a in body]
                if error is not None:
                    raise Violation("unexpected-error", f"{op} raised {error!r}")
                ctx.event("learn", op["via"], head[0])
                facts.rules.append((head, body))
            elif kind == "query":
                goal = op["goal"]
                reference = Reference(facts)
                skipped = False
                try:
                    want = reference.solve(goal, {})
                except Skip as e:
                    skipped = True
                    ctx.event("skip", e)
                result, error = call(op, lambda: [dict(b) for b in new_solver().solve(atoms_to_real(goal))])
                undefined = uses_undefined(goal, facts, known_names(facts))
                if error is not None:
                    ctx.event("query failed", type(error).__name__)
                    if not faults.fired and not skipped and not undefined:
                        raise Violation("unexpected-error", f"query {goal} raised {error!r}; facts {facts.rows}, rules {facts.rules}")
                elif faults.fired:
                    raise Violation("failed-access-hidden", f"query {goal}: the data access {faults.fired} failed, but the query answered {result}")
                elif not skipped and not undefined:
                    names, bags = top_variables(goal)
                    got = {norm_binding(b, names, bags) for b in result}
                    expect = {norm_binding(b, names, bags) for b in want}
                    ctx.event("query", len(got))
                    ctx.probe("answers_compared")
                    if want:
                        ctx.probe("answers_not_empty")
                    if reference.used_rules:
                        ctx.probe("rules_used")
                        ctx.nontrivial = True
                    for p in reference.used:
                        ctx.probe("used." + p)
                    ctx.state(sorted(reference.used), sum(map(len, facts.rows.values())), len(facts.rules), len(expect))
                    if len(expect) > 50:
                        ctx.probe("many")
                    if len(goal) > 6 and want:
                        ctx.probe("long")
                    if got != expect:
                        raise Violation("wrong-answer", f"goal {goal}\n  answered {sorted(got, key=repr)[:12]}\n  follows  {sorted(expect, key=repr)[:12]}\n"
                                        f"  facts {facts.rows}\n  rules {facts.rules}")
                    texts = [repr(sorted(b.items(), key=lambda item: item[0])) for b in result]
                    if len(set(texts)) < len(texts):
                        twice = [t for i, t in enumerate(texts) if t in texts[:i]]
                        raise Violation("answered-twice", f"goal {goal}\n  answered more than once {twice[:5]}\n  facts {facts.rows}\n  rules {facts.rules}")
            check_stored(op)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def known_names(facts):
    return set(facts.rows) | {h[0] for h, _ in facts.rules} | set(SIGNATURES)


def uses_undefined(goal, facts, known):
    """A goal about a relation that nobody defined fails with an error; so may a goal that never gets there."""
    names = set()

    def collect(x):
        if isinstance(x, list):
            if x and isinstance(x[0], str) and x[0] in ALL:
                names.add(x[0])
            for y in x:
                collect(y)
        elif isinstance(x, dict):
            for y in x.values():
                collect(y)
    collect(goal)
    for _, body in facts.rules:
        collect(body)
    return bool(names - known)


def substitute(term, bind):
    if isinstance(term, dict):
        if "v" in term:
            return bind.get(term["v"], term)
        return {k: substitute(v, bind) for k, v in term.items()}
    if isinstance(term, list):
        return [substitute(t, bind) for t in term]
    return term


def apply_writes(op, atoms, error, faults, facts, raw, ctx, plan):
    if error is None:
        if faults.fired:
            raise Violation("failed-write-acknowledged", f"{op}: the data access {faults.fired} failed, but the request succeeded")
        for a in atoms:
            if not can_hold(a):
                raise Violation("lost-write-acknowledged", f"{op}: no relation can hold {a}, but the request succeeded")
            facts.add(a[0], a[1:])
        return
    if not faults.fired and all(can_hold(a) for a in atoms):
        raise Violation("unexpected-error", f"{op} raised {error!r}")
    ctx.probe("partial_store" if faults.fired else "unwritable")
    # the number of write accesses of each atom is the number of modules that hold its relation
    k = faults.fired[0][0] if faults.fired else 1 << 30
    for a in atoms:
        if not can_hold(a):
            break
        holders = sum(1 for _, names in raw if a[0] in names)
        if k >= holders:
            facts.add(a[0], a[1:])
            k -= holders
        else:
            if k > 0:
                facts.add(a[0], a[1:])
            break


def simplify(plan):
    import copy
    for key, value in (("shuffle", None), ("layout", "simple"), ("one_solver", False), ("stats", False)):
        if plan[key] != value:
            yield {**copy.deepcopy(plan), key: value}


def warm():
    import richard.core.Solver, richard.module.InferenceModule, richard.module.SimpleMemoryModule, richard.data_source.SimpleDataSource  # noqa
