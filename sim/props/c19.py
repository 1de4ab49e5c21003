"""C19: knowledge that simultaneous requests add is neither lost nor half in force."""
import os
import shutil
import sqlite3

from sim.ctx import SimInterrupt, Violation
from sim.gengoal import ALL, DERIVED, ENT, SIGNATURES, GoalGen, gen_fact, gen_rule, has
from sim.gramsim import GramSystem, gen_base, gen_rule as gen_grammar_rule, gen_sentence, noise, real_rule
from sim.props.c05 import known_names, substitute, uses_undefined
from sim.props.c16 import Interrupter
from sim.refeval import Facts, Reference, Skip, atoms_to_real, atom_to_real, norm_binding, text_rule, to_real, top_variables
from sim.sched import LineTracer, Sched, gen_spots, gen_switches

ID = "C19"
LEVEL = "exploration"
RUNS = {"quick": 20000, "thorough": 160000}
RUN_TIMEOUT = 120
RULE = ("one case = 2-4 threads with one model (or one system with a grammar), of which each stores facts, learns or imports rules, or learns grammar rules, and asks questions, switched at any line of the library; "
        "an addition may be interrupted at any line; an answer has to lie between what follows from the additions that ended before the question and what follows from those that began before the answer; "
        "at the end exactly the additions are in force; non-trivial = threads were switched; distinct = distinct event logs")
STATE_MEASURE = "distinct (mode, kinds of additions that overlapped the question, size of the answer) combinations"
REAL = ["Solver", "Model", "CoreModule", "InferenceModule", "SimpleInferenceRuleParser", "SimpleMemoryModule", "SimpleDataSource", "Sqlite3DataSource", "System", "blocks", "BasicParser", "SemanticComposer", "AtomExecutor",
        "GrammarModule", "GrammarRules", "SimpleGrammarRulesParser"]
STUBS = ["thread scheduling", "module with atoms that record"]
REQUIRED_PROBES = ["switched", "goals", "sentences", "overlapped", "between", "interrupted", "undefined", "new_root"]
ASSUMPTIONS = ["a thread switch happens between lines, not inside one", "questions without negation and aggregates", "an SQL connection that is shared by threads allows it"]
SHRINK_LISTS = ["tasks", "ops", "atoms", "switches", "spots", "base", "pool", "texts", "extra", "facts", "rules", "goals"]
KEEP_ONE = ["tasks", "atoms"]

# what makes a goal give fewer answers when more is known
NOT_MONOTONE = ("not", "none", "det_equals", "det_greater_than", "det_less_than", "count", "sum", "avg", "arg_min", "arg_max", "percentage", "all", "find_all", "find_one", "$or")


def monotone_goal(rng, names=None):
    preds = rng.sample(list(ALL), rng.randrange(2, len(ALL)))
    for _ in range(20):
        goal = GoalGen(rng, preds, "Q", names).goal(rng.choice([0, 0, 0, 1, 1, 2]))
        if not has(goal, NOT_MONOTONE):
            return goal
    return [["e1", {"v": "Q1"}]]


def monotone_rule(rng):
    while True:
        rule = gen_rule(rng)
        if not has(rule[1], NOT_MONOTONE):
            return list(rule)


# where the state is that requests share
SHARED = ["GrammarRules.py", "GrammarModule.py", "InferenceModule.py", "SimpleDataSource.py", "Model.py", "Solver.py", "SomeModule.py", "EarleyParser.py", "SimpleMemoryModule.py"]


def one_switch(rng, plan, longest):
    """One task is stopped at some point, and goes on after the other is done."""
    x = rng.random()
    if x < 0.3:
        plan["spots"] = gen_spots(rng, 4, SHARED)
        plan["switches"] = []
    elif x < 0.6:
        plan["spots"] = []
        plan["switches"] = [[rng.randrange(longest), 0] for _ in range(rng.choice([1, 1, 2]))]


def gen(rng, tier, index):
    n = rng.choice([2, 2, 3, 4])
    plan = {"spots": gen_spots(rng, 4, SHARED), "switches": gen_switches(rng, rng.choice([2, 5, 20, 60]), rng.choice([10, 60, 300, 2000])), "tasks": []}
    if rng.random() < 0.5:
        plan["mode"] = "goals"
        plan["layout"] = rng.choice(["simple", "simple", "sqlite", "memory"])
        plan["one"] = rng.random() < 0.5
        plan["facts"] = [gen_fact(rng) for _ in range(rng.choice([0, 0, 6, 12]))]
        plan["rules"] = [monotone_rule(rng) for _ in range(rng.choice([0, 0, 1, 3]))]
        # the same names are added to by several threads
        focus = [monotone_rule(rng) for _ in range(2)]
        names = rng.sample(list(SIGNATURES), 2)
        small = rng.random() < 0.5
        if small:
            # the first additions, at the same time
            plan["facts"], plan["rules"] = [], []
            plan["switches"] = gen_switches(rng, rng.choice([2, 3, 5]), rng.choice([10, 30, 60]))
            one_switch(rng, plan, 60)
        same = rng.random()
        if small and rng.random() < 0.7:
            # one task is stopped while it adds something, and another one adds something to the same thing
            learn = rng.random() < 0.5
            same = 0.9 if learn else 0.1
            name = rng.choice(["d1", "d2", "k1", "d3"])
            facts = [[[name] + [rng.choice(ENT) if k == "ent" else rng.randrange(0, 30) for k in DERIVED[name]], []] for _ in range(3)]
            focus, names, n = facts if rng.random() < 0.7 else focus[:1] + facts, names[:1], 2
            plan["switches"] = []
            place = [1, 0, rng.randrange(rng.choice([5, 20])), 1, 0] if rng.random() < 0.5 else [8, rng.randrange(8), 0, 1, 0]
            plan["spots"] = [place + [rng.choice(["", "+", "+"]) + rng.choice(["InferenceModule.py", "InferenceModule.py", "SomeModule.py", "Model.py"] if learn else ["SimpleDataSource.py", "SimpleDataSource.py", "SimpleMemoryModule.py", "Solver.py", "Model.py"])]]
        for _ in range(n):
            ops = []
            for _ in range(rng.choice([1, 2]) if small else rng.choice([1, 2, 2, 3, 5])):
                x = rng.random() if not small or rng.random() < 0.2 else same * 0.6
                if x < 0.3:
                    ops.append({"op": "store", "atoms": [gen_fact(rng, names if rng.random() < 0.7 else None) for _ in range(rng.choice([1, 1, 2, 4]))], "via": rng.choice(["solve", "write"])})
                elif x < 0.6:
                    head, body = rng.choice(focus) if rng.random() < (0.9 if small else 0.6) else monotone_rule(rng)
                    ops.append({"op": "learn", "head": head, "body": body, "via": rng.choice(["solve", "solve", "insert", "import"])})
                else:
                    goal = monotone_goal(rng, ["X", "Y", "Z"] if rng.random() < 0.3 else None)
                    if rng.random() < 0.4:
                        head = rng.choice(focus)[0]
                        goal = [[head[0]] + [{"v": f"Q{i}"} for i in range(len(head) - 1)]]
                    elif rng.random() < 0.3:
                        name = rng.choice(names)
                        goal = [[name] + [{"v": f"Q{i}"} for i in range(len(SIGNATURES[name]))]]
                    ops.append({"op": "ask", "goal": goal})
            if rng.random() < 0.15:
                adds = [op for op in ops if op["op"] != "ask"]
                if adds:
                    rng.choice(adds)["line"] = rng.choice([rng.randrange(0, 12), rng.randrange(0, 80)])
            plan["tasks"].append({"ops": ops})
        plan["goals"] = [monotone_goal(rng) for _ in range(4)]
    else:
        base = gen_base(rng, rng.randrange(0, 5))
        pool = [gen_grammar_rule(rng, 100 + k) for k in range(rng.randrange(2, 6))]
        if rng.random() < 0.3:
            pool[0] = {**pool[0], "syn": "s(E1, E2, E3, E4) -> np(E1) np(E2) np(E3) np(E4)"}
        every = base + pool
        texts = []
        for _ in range(5):
            s = gen_sentence(rng, every)
            s = noise(rng, s) if rng.random() < 0.15 else s
            while len(s) > 30:
                s = s.rpartition(" ")[0] or s[:30]
            texts.append(s)
        small = rng.random() < 0.4
        if small:
            # the first rules of a kind, at the same time
            one_switch(rng, plan, 300)
            category, used = rng.choice([("adv", "s() -> adv()"), ("adj", "np(E1) -> adj(E1)"), ("vp", "s(E1, E2) -> np(E1) vp(E1, E2)"), ("np", "s(E1) -> np(E1)")])
            while sum(r["syn"].startswith(category) for r in pool) < 2:
                pool = [r if r["syn"].startswith(category) else gen_grammar_rule(rng, r["k"]) for r in pool]
            base = [r for r in base if not r["syn"].startswith(category)] + [{"syn": x, "k": 70 + i, "boost": 0, "dialog": False} for i, x in enumerate(dict.fromkeys([used, "s(E1) -> np(E1)"]))]
            pool = [r for r in pool if r["syn"].startswith(category)] + [r for r in pool if not r["syn"].startswith(category)]
        for i in range(n):
            ops = []
            for _ in range(1 if small else rng.choice([1, 1, 2, 3])):
                if rng.random() < (0.85 if small else 0.5):
                    how = rng.choice(["learn", "learn", "now", "either", "atom", "atom"]) if not small or rng.random() < 0.2 else "atom"
                    ops.append({"op": "learn", "n": i % 2 if small and rng.random() < 0.8 else rng.randrange(len(pool)), "how": how})
                else:
                    ops.append({"op": "ask", "text": rng.choice(texts)})
            if rng.random() < 0.15:
                adds = [op for op in ops if op["op"] != "ask"]
                if adds:
                    rng.choice(adds)["line"] = rng.choice([rng.randrange(0, 30), rng.randrange(0, 200), rng.randrange(0, 4000)])
            plan["tasks"].append({"ops": ops})
        # every rule that can be learned is used in some sentence, if it can be
        extra = []
        for rule in pool:
            category = rule["syn"].split("(")[0]
            s = gen_sentence(rng, [rule], 3, category) if category == "s" else "star"
            if category != "s":
                words = gen_sentence(rng, [rule], 3, category)
                s = {"np": words, "adj": words + " star", "vp": "star " + words, "adv": words}[category]
            extra.append(s[:30].rpartition(" ")[0] or s[:30] if len(s) > 30 else s)
        plan.update({"mode": "sentences", "extra": extra, "base": base, "pool": pool, "texts": texts, "blocks": rng.choice([["all", "first", "first"], ["all", "all", "all"]])})
    return plan


class History:
    """Which additions had ended before, and which had begun at, a moment."""

    def __init__(self):
        self.n = 0
        self.ops = []

    def tick(self):
        self.n += 1
        return self.n

    def begin(self, kind, items):
        op = {"kind": kind, "items": items, "start": self.tick(), "end": None}
        self.ops.append(op)
        return op

    def lower(self, at):
        return [op for op in self.ops if op["end"] is not None and op["end"] < at]

    def upper(self, at):
        return [op for op in self.ops if op["start"] < at]


def run(plan, ctx):
    ctx.probe(plan["mode"])
    root = os.path.join(os.environ["SIM_SCRATCH"], f"c19-{os.getpid()}")
    os.makedirs(root)
    try:
        (run_goals if plan["mode"] == "goals" else run_sentences)(plan, ctx, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def simulate(plan, ctx, do):
    """do(op) performs an operation of a task."""
    import richard
    prefix = list(richard.__path__)[0]
    sched = Sched(plan["switches"], ctx, spots=plan.get("spots"), max_steps=2_000_000)
    sched.log_switches = False

    def task(i, t):
        def go():
            for j, op in enumerate(t["ops"]):
                hook = Interrupter(op.get("line"), sched)
                do((i, j), op, lambda: LineTracer(hook, prefix))
                sched.yield_point()
        return go

    for i, t in enumerate(plan["tasks"]):
        sched.spawn(f"task{i}", task(i, t))
    sched.run()
    if sched.preemptions:
        ctx.probe("switched")
        ctx.fault("preemption")


def run_goals(plan, ctx, root):
    from richard.core.Model import Model
    from richard.core.Solver import Solver
    from richard.data_source.SimpleDataSource import SimpleDataSource
    from richard.data_source.Sqlite3DataSource import Sqlite3DataSource
    from richard.entity.Relation import Relation
    from richard.interface.SomeModule import SomeModule
    from richard.module.InferenceModule import InferenceModule
    from richard.module.SimpleMemoryModule import SimpleMemoryModule
    from richard.type.InferenceRule import InferenceRule

    def columns(name):
        return [f"c{i}" for i in range(len(SIGNATURES[name]))]

    def sqlite_source():
        connection = sqlite3.connect(":memory:", isolation_level=None, check_same_thread=False)
        for name in SIGNATURES:
            connection.execute(f"CREATE TABLE {name} ({', '.join(columns(name))})")
        return Sqlite3DataSource(connection)

    source = SimpleDataSource() if plan["layout"] == "simple" else sqlite_source()

    class FactModule(SomeModule):
        def __init__(self):
            super().__init__()
            for name in SIGNATURES:
                self.add_relation(Relation(name, arguments=columns(name), query_function=self.query, write_function=self.write))

        def query(self, values, context):
            return source.select(context.relation.predicate, context.relation.arguments, values)

        def write(self, values, context):
            source.insert(context.relation.predicate, context.relation.arguments, list(values))

    class Memory(SimpleMemoryModule):
        def __init__(self):
            super().__init__()
            self.data_source = source
            for name in SIGNATURES:
                self.add_relation(Relation(name, arguments=columns(name)))

    known = Facts()
    for name, *args in plan["facts"]:
        source.insert(name, columns(name), args)
        known.add(name, args)
    inference = InferenceModule()
    for head, body in plan["rules"]:
        inference.insert_rule(InferenceRule(atom_to_real(head), atoms_to_real(body)))
        known.rules.append((head, body))
    model = Model([Memory() if plan["layout"] == "memory" else FactModule(), inference])
    shared = Solver(model)
    history = History()
    asked = []

    def solver():
        return shared if plan["one"] else Solver(model)

    def facts_of(ops):
        facts = known.copy()
        for op in ops:
            for item in op["items"]:
                if op["kind"] == "store":
                    facts.add(item[0], item[1:])
                else:
                    facts.rules.append(item)
        return facts

    def add(key, op):
        if op["op"] == "store":
            atoms = [tuple(a) for a in op["atoms"]]
            if op["via"] == "solve":
                return lambda: solver().solve([("store", atoms)])
            return lambda: [solver().write_atom(a) for a in atoms]
        head, body = op["head"], op["body"]
        if op["via"] == "solve":
            return lambda: solver().solve([("learn_rule", atom_to_real(head), atoms_to_real(body))])
        if op["via"] == "insert":
            return lambda: inference.insert_rule(InferenceRule(atom_to_real(head), atoms_to_real(body)))
        path = os.path.join(root, f"rules{key[0]}-{key[1]}.pl")
        with open(path, "w") as f:
            f.write(text_rule(head, body) + "\n")
        return lambda: inference.import_rules(path)

    def do(key, op, tracer):
        if op["op"] == "ask":
            start = history.tick()
            goal = atoms_to_real(op["goal"])
            try:
                with tracer():
                    got = [dict(b) for b in solver().solve(goal)]
            except Exception as e:
                got = e
            asked.append((key, op["goal"], start, history.tick(), got))
            return
        act = add(key, op)
        entry = history.begin(op["op"], op["atoms"] if op["op"] == "store" else [(op["head"], op["body"])])
        try:
            with tracer():
                act()
        except SimInterrupt:
            ctx.probe("interrupted")
            ctx.fault("interrupt")
            return
        except Exception as e:
            raise Violation("addition-failed", f"{op} of thread {key[0]} raised {type(e).__name__}: {e}\n  threads {[t['ops'] for t in plan['tasks']]}")
        entry["end"] = history.tick()

    simulate(plan, ctx, do)
    end = history.tick()
    for goal in plan["goals"] + [[[name] + [{"v": f"Q{i}"} for i in range(len(ALL[name]))]] for name in ALL]:
        try:
            got = [dict(b) for b in Solver(model).solve(atoms_to_real(goal))]
        except Exception as e:
            got = e
        asked.append(("end", goal, end, end + 1, got))
    for key, goal, start, stop, got in asked:
        low, high = history.lower(start), history.upper(stop)
        lower, upper = facts_of(low), facts_of(high)
        try:
            least, most = Reference(lower).solve(goal, {}), Reference(upper).solve(goal, {})
        except Skip:
            continue
        during = [op for op in high if op not in low]
        if during and key != "end":
            ctx.probe("overlapped")
        what = f"goal {goal} of thread {key}; additions that ended before {[(o['kind'], o['items']) for o in low]}, others that began before the answer {[(o['kind'], o['items']) for o in during]}, facts {plan['facts']}, rules {plan['rules']}"
        if isinstance(got, Exception):
            ctx.event(key, "error", type(got).__name__)
            if uses_undefined(goal, lower, known_names(lower)):
                ctx.probe("undefined")
                continue
            if during and uses_undefined(goal, upper, known_names(upper)):
                # a rule that was being added uses a relation that is not defined
                continue
            raise Violation("question-failed", f"{type(got).__name__}: {got}: {what}")
        names, bags = top_variables(goal)
        a, b, c = ({norm_binding(x, names, bags) for x in r} for r in (least, got, most))
        ctx.event(key, len(b))
        ctx.state("g", sorted({o["kind"] for o in during}), len(b), len(a), len(c))
        if b not in (a, c):
            ctx.probe("between")
        if not a <= b:
            raise Violation("knowledge-missing", f"answer lacks {sorted(a - b, key=repr)[:6]}: {what}")
        if not b <= c:
            raise Violation("knowledge-invented", f"answer has {sorted(b - c, key=repr)[:6]}: {what}")


def run_sentences(plan, ctx, root):
    from richard.core.Solver import Solver
    from richard.core.System import System
    from richard.entity.SentenceRequest import SentenceRequest

    def system(extra=()):
        me = GramSystem(plan["base"], plan["pool"], extra, plan["blocks"], False)
        me.shared = System(model=me.model, input_pipeline=me.blocks)
        return me

    memo = {}

    def parses(numbers, text):
        """The parses of a system that was built with these rules."""
        key = (tuple(sorted(set(numbers))), text)
        if key not in memo:
            memo[key] = {str(p) for p in trees(system([plan["pool"][n] for n in key[0]]), text)[0]}
        return memo[key]

    def trees(me, text):
        request = SentenceRequest(text)
        error = None
        try:
            me.shared.enter(request)
        except Exception as e:
            error = e
        return [p.parse_tree for p in request.get_alternative_products(me.parser)], error

    me = system()
    history = History()
    asked = []

    def do(key, op, tracer):
        if op["op"] == "ask":
            start = history.tick()
            with tracer():
                got = trees(me, op["text"])
            asked.append((key, op["text"], start, history.tick(), got))
            return
        n, how = op["n"], op["how"]
        entry = history.begin("learn", [n])
        if len({plan["pool"][n]["syn"].split("->")[0].count(",")} - {r["syn"].split("->")[0].count(",") for r in plan["base"]}):
            ctx.probe("new_root")
        error = None
        try:
            with tracer():
                if how == "atom":
                    Solver(me.model).solve([("learn_grammar_rule", real_rule(plan["pool"][n]))])
                else:
                    request = SentenceRequest({"learn": f"learn {n}", "now": f"now learn {n}", "either": f"either learn {n}"}[how])
                    me.shared.enter(request)
        except SimInterrupt:
            ctx.probe("interrupted")
            ctx.fault("interrupt")
            return
        except Exception as e:
            error = e
        if error is not None:
            raise Violation("addition-failed", f"{op} ({plan['pool'][n]['syn']}) of thread {key[0]} raised {type(error).__name__}: {error}")
        entry["end"] = history.tick()

    simulate(plan, ctx, do)
    end = history.tick()
    for text in dict.fromkeys(plan["texts"] + ["zz zz"]):
        asked.append(("end", text, end, end + 1, trees(me, text)))
    for key, text, start, stop, (got, error) in asked:
        low = [n for op in history.lower(start) for n in op["items"]]
        high = [n for op in history.upper(stop) for n in op["items"]]
        what = f"'{text}' of thread {key}; grammar {[r['syn'] for r in plan['base']]}, learned before {[plan['pool'][n]['syn'] for n in low]}, and begun before the answer {[plan['pool'][n]['syn'] for n in high]}"
        if error is not None and not (not got and str(error).startswith("No relation called 'output_")):
            ctx.event(key, text, "error", error)
            try_alone = trees(system([plan["pool"][n] for n in sorted(set(high))]), text)[1]
            if try_alone is None or str(try_alone).startswith("No relation called 'output_") or type(try_alone) is not type(error):
                raise Violation("question-failed", f"{type(error).__name__}: {error}: {what}")
            continue
        least, most, b = parses(low, text), parses(high, text), {str(t) for t in got}
        ctx.event(key, text, len(got))
        ctx.state("s", len(high) - len(low), len(least), len(b), len(most))
        if sorted(set(low)) != sorted(set(high)):
            ctx.probe("overlapped")
        if b not in (least, most):
            ctx.probe("between")
        if not least <= b:
            raise Violation("knowledge-missing", f"parses lack {sorted(least - b)[:2]}: {what}")
        if not b <= most:
            raise Violation("knowledge-invented", f"parses have {sorted(b - most)[:2]}: {what}")
    # nothing is lost or repeated: a rule that was learned twice gives its parses twice
    if all(op["end"] is not None for op in history.ops):
        numbers = [n for op in history.ops for n in op["items"]]
        fresh = system([plan["pool"][n] for n in numbers])
        for text in dict.fromkeys(plan["texts"] + plan.get("extra", [])):
            a, b = (sorted(str(t) for t in trees(x, text)[0]) for x in (me, fresh))
            if len(a) > 1:
                ctx.probe("several_parses")
            if a != b:
                raise Violation("grammar-rules", f"after all additions '{text}' has {len(a)} parses, expected {len(b)}: {[x for x in a if a.count(x) != b.count(x)][:2]} / {[x for x in b if a.count(x) != b.count(x)][:2]}; grammar {[r['syn'] for r in plan['base']]}, learned {[plan['pool'][n]['syn'] for n in numbers]}")


def simplify(plan):
    import copy
    for i, t in enumerate(plan["tasks"]):
        for j, op in enumerate(t["ops"]):
            if "line" in op:
                p = copy.deepcopy(plan)
                del p["tasks"][i]["ops"][j]["line"]
                yield p
    for key, value in (("one", False), ("layout", "simple")):
        if key in plan and plan[key] != value:
            yield {**copy.deepcopy(plan), key: value}


def warm():
    from sim.props import c15, c05
    c15.warm()
    c05.warm()
    import richard.data_source.Sqlite3DataSource  # noqa
