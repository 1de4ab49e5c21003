"""C16: requests that one system processes simultaneously do not affect each other."""
import re
import zlib

from sim.ctx import SimInterrupt, Violation
from sim.faultds import EXCEPTIONS, FaultDS, Faults
from sim.gengoal import ALL, SIGNATURES, GoalGen, gen_fact, gen_rule
from sim.gramsim import GramSystem, describe, gen_base, gen_rule as gen_grammar_rule, gen_sentence, noise
from sim.refeval import atoms_to_real, atom_to_real, norm_value
from sim.sched import LineTracer, Sched, gen_spots, gen_switches

ID = "C16"
LEVEL = "exploration"
RUNS = {"quick": 16000, "thorough": 150000}
RUN_TIMEOUT = 120
RULE = ("one case = 2-4 threads that send random (ambiguous, ill-formed, failing) sentences through one system with a random grammar, or that solve random goals with one solver and one model, switched at "
        "any line of the library, while one of them may fail or be interrupted at any line; every request has to give what it gives alone; non-trivial = threads were switched; distinct = "
        "distinct event logs")
STATE_MEASURE = "distinct (mode, number of threads, kind of interruption, outcomes) combinations"
REAL = ["System", "LanguageSelector", "Multilingual", "FindOne", "FindAll", "TryFirst", "BasicParser", "EarleyParser", "SemanticComposer", "BasicQueryOptimizer", "AtomExecutor", "Solver", "Model", "CoreModule", "InferenceModule",
        "Logger", "SimpleDataSource"]
STUBS = ["module with atoms that fail or record", "data-source wrapper that fails accesses"]
REQUIRED_PROBES = ["duel", "switched", "sentences", "goals", "interrupted", "data_failed", "logged", "one_solver", "ambiguous", "not_understood", "two_languages"]
ASSUMPTIONS = ["a thread switch happens between lines, not inside one", "requests do not use the shared dialog context or output buffer"]
SHRINK_LISTS = ["tasks", "texts", "goals", "switches", "spots", "base", "second", "facts", "rules"]
KEEP_ONE = ["tasks"]


# where requests may meet
SENTENCE_FILES = ["SemanticComposer.py", "SemanticComposer.py", "EarleyParser.py", "BasicParser.py", "AtomExecutor.py", "Solver.py", "Model.py", "CoreModule.py", "SentenceRequest.py", "System.py", "FindOne.py",
                  "FindAll.py", "TryFirst.py", "BasicQueryOptimizer.py", "SortByCost.py", "IsolateIndependentParts.py", "Chart.py", "tree_extract.py", "VariableGenerator.py", "VariableGenerator.py", "VariableGenerator.py", "Logger.py", "Multilingual.py", "LanguageSelector.py"]
GOAL_FILES = ["Solver.py", "Solver.py", "Model.py", "CoreModule.py", "InferenceModule.py", "InferenceModule.py", "SimpleDataSource.py", "atoms.py", "Relation.py", "ResultIterator.py"]


def gen(rng, tier, index):
    n = rng.choice([2, 2, 3, 4])
    horizon = rng.choice([10, 100, 600, 3000])
    sentences = rng.random() < 0.55
    plan = {"spots": gen_spots(rng, 4, SENTENCE_FILES if sentences else GOAL_FILES, 0.5), "switches": gen_switches(rng, rng.choice([2, 5, 20, 60]), horizon), "tasks": []}
    if any(len(spot) > 5 for spot in plan["spots"]) and rng.random() < 0.7:
        plan["switches"] = []
    if sentences:
        base = gen_base(rng, rng.randrange(1, 6))
        if rng.random() < 0.5:
            # many things to remember
            for rule in base:
                rule["dialog"] = rng.random() < 0.7
        texts = []
        for _ in range(5):
            s = gen_sentence(rng, base)
            s = noise(rng, s) if rng.random() < 0.3 else s
            while len(s) > 35:
                s = s.rpartition(" ")[0] or s[:35]
            texts.append(s)
        if rng.random() < 0.15:
            # many variables
            base[:] = [{"syn": syn, "k": 70 + i, "boost": 0, "dialog": False} for i, syn in enumerate(["s(E1) -> np(E1)", "np(E1) -> 'dog'", "np(E1) -> 'dog' 'sees' np(E2)"])]
            texts = texts[:1] + [" sees ".join(["dog"] * rng.randrange(2, 9)) for _ in range(4)]
            if rng.random() < 0.7:
                file, skip = rng.choice(["VariableGenerator.py", "VariableGenerator.py", "SemanticComposer.py"]), rng.randrange(40)
                plan["spots"] = [[1, 0, skip, 1, 0, file], [1, 0, skip + rng.randrange(1, 30), 1, 0, file]]
                plan["switches"] = []
        # a request that raises
        texts.append("crash learn 0")
        for _ in range(n):
            task = {"texts": [rng.choice(texts) for _ in range(rng.choice([1, 1, 2, 3]))], "log": rng.random() < 0.3}
            if rng.random() < 0.2:
                task["line"] = rng.randrange(0, 2500)
            plan["tasks"].append(task)
        plan.update({"mode": "sentences", "base": base, "blocks": rng.choice([["all", "first", "first"], ["one", "first", "first"], ["all", "all", "all"], ["one", "one", "one"]]), "optimizer": rng.random() < 0.5,
                     "error": None})
        if rng.random() < 0.35:
            # a duel: one request is stopped at a certain visit of a certain line, and another one goes on meanwhile
            first = {"texts": [rng.choice(texts)], "log": rng.random() < 0.1}
            plan["tasks"] = [first] + [{"texts": [rng.choice([t for t in texts if t != first["texts"][0]] or texts)], "log": False} for _ in range(rng.choice([1, 1, 1, 2]))]
            plan["spots"], plan["switches"] = [], []
            plan["duel"] = {"file": rng.random(), "line": rng.random(), "visit": rng.choice([0.0, 0.999999, 0.999999, rng.random()]), "back": int(rng.expovariate(1 / 300)) if rng.random() < 0.25 else None}
        if rng.random() < 0.3:
            plan["second"] = gen_base(rng, rng.randrange(1, 5))
            for rule in plan["second"]:
                rule["k"] += 200
            for _ in range(2):
                s = gen_sentence(rng, plan["second"])
                rng.choice(plan["tasks"])["texts"].append(" ".join(s.split(" ")[:6])[:35])
    else:
        for _ in range(n):
            task = {"goals": [GoalGen(rng, rng.sample(list(ALL), rng.randrange(2, len(ALL))), "Q", ["X", "Y", "Z"] if rng.random() < 0.4 else None).goal() for _ in range(rng.choice([1, 1, 2]))]}
            if rng.random() < 0.15:
                task["line"] = rng.randrange(0, 800)
            elif rng.random() < 0.2:
                task["fault"] = [rng.randrange(0, 12), rng.choice(list(EXCEPTIONS))]
            plan["tasks"].append(task)
        rules = [gen_rule(rng) for _ in range(rng.randrange(0, 6))]
        plan.update({"mode": "goals", "facts": [gen_fact(rng) for _ in range(rng.randrange(5, 22))], "rules": [list(r) for r in rules], "one": rng.random() < 0.5, "stats": rng.random() < 0.4})
    return plan


class Interrupter:
    def __init__(self, line, sched):
        self.left = line
        self.sched = sched
        self.hit = False

    def __call__(self, frame):
        self.sched.yield_point(frame=frame)
        if self.left is None:
            return
        if self.left == 0 and not self.hit:
            self.hit = True
            raise SimInterrupt("interrupted")
        self.left -= 1


class Visits:
    """Which lines are passed, and how often."""

    def __init__(self):
        self.files = {}

    def __call__(self, frame):
        lines = self.files.setdefault(frame.f_code.co_filename.rpartition("/")[2], {})
        lines[frame.f_lineno] = lines.get(frame.f_lineno, 0) + 1

    def spot(self, duel):
        """The visit of a line that is meant, in terms of the scheduler."""
        files = [f for f in SENTENCE_FILES if f in self.files]
        if not files:
            return []
        file = files[int(duel["file"] * len(files))]
        lines = sorted(self.files[file])
        line = lines[int(duel["line"] * len(lines))]
        visit = int(duel["visit"] * self.files[file][line])
        return [[1 << 32, zlib.crc32(f"{file}:{line}".encode()), visit, 1, 0, file] + ([duel["back"]] if duel["back"] is not None else [])]


def rename_log(text):
    names = {}
    text = re.sub(r"0x[0-9a-f]+", "0x", text)
    return re.sub(r"\$\d+", lambda m: names.setdefault(m.group(0), f"v{len(names)}"), text)


def run(plan, ctx):
    ctx.probe(plan["mode"])
    if plan["mode"] == "sentences":
        run_sentences(plan, ctx)
    else:
        run_goals(plan, ctx)


class Counter:
    """Counts the lines that a request takes alone."""

    def __init__(self, limit):
        self.n = 0
        self.limit = limit
        self.hit = False

    def __call__(self, frame):
        self.n += 1
        if self.n > self.limit:
            raise SimInterrupt("too large")


MAX_STEPS = 3_000_000


def start(plan, ctx, body):
    """Returns False when the requests take too many steps, also alone."""
    try:
        simulate(plan, ctx, body)
        return True
    except Violation as v:
        if v.cls != "no-progress":
            raise
        import richard
        counter = Counter(MAX_STEPS // 4)
        for i, t in enumerate(plan["tasks"]):
            body(i, {**t, "fault": [10 ** 9, "key"]} if "fault" in t else t, lambda: LineTracer(counter, list(richard.__path__)[0]), counter)
            if counter.n > counter.limit:
                ctx.event("too large")
                return False
        raise


def simulate(plan, ctx, body):
    import richard
    prefix = list(richard.__path__)[0]
    sched = Sched(plan["switches"], ctx, spots=plan.get("spots"), max_steps=MAX_STEPS)
    sched.log_switches = False

    def task(i, t):
        hook = Interrupter(t.get("line"), sched)

        def go():
            body(i, t, lambda: LineTracer(hook, prefix), hook)
        return go

    for i, t in enumerate(plan["tasks"]):
        sched.spawn(f"task{i}", task(i, t))
    sched.run()
    if sched.preemptions:
        ctx.probe("switched")
        ctx.fault("preemption")
    return sched


def run_sentences(plan, ctx):
    from richard.core.Logger import Logger
    from richard.core.System import System
    from richard.entity.SentenceRequest import SentenceRequest

    def fresh():
        me = GramSystem(plan["base"], [{"syn": "np(E1) -> 'zz'", "k": 99}], [], plan["blocks"], plan["optimizer"], second=plan.get("second"))
        # without a generator, so that requests share no output
        me.shared = System(model=me.model, input_pipeline=me.blocks)
        return me

    def ask(me, text, log):
        logger = None
        if log:
            logger = Logger()
            logger.log_all_tests()
            logger.log_products()
            logger.log_stats()
        request = SentenceRequest(text, logger=logger) if log else SentenceRequest(text)
        result = error = None
        try:
            result = me.shared.enter(request)
        except Exception as e:
            error = f"{type(e).__name__}: {e}"
        out = describe(request, me, result, error, None)
        out["log"] = rename_log(str(logger)) if log else None
        return out

    want = {}
    for t in plan["tasks"]:
        for text in t["texts"]:
            key = (text, t["log"])
            if key not in want:
                if plan.get("duel") and not want:
                    import richard
                    visits, me = Visits(), fresh()
                    with LineTracer(visits, list(richard.__path__)[0]):
                        want[key] = ask(me, text, t["log"])
                    plan = {**plan, "spots": visits.spot(plan["duel"])}
                    ctx.probe("duel")
                else:
                    want[key] = ask(fresh(), text, t["log"])
                if plan.get("second"):
                    ctx.probe("two_languages")
                if len(want[key]["trees"]) > 1:
                    ctx.probe("ambiguous")
                if not want[key]["trees"] and want[key]["error"] is None:
                    ctx.probe("not_understood")
    me = fresh()
    results = {}

    def body(i, t, tracer, hook):
        for j, text in enumerate(t["texts"]):
            try:
                with tracer():
                    results[i, j] = ask(me, text, t["log"])
            except SimInterrupt:
                results[i, j] = None
                ctx.probe("interrupted")
                ctx.fault("interrupt")

    if not start(plan, ctx, body):
        return
    for i, t in enumerate(plan["tasks"]):
        for j, text in enumerate(t["texts"]):
            got, expected = results[i, j], want[text, t["log"]]
            ctx.event(i, text, got is None or len(got["trees"]), got and got["error"])
            if got is None:
                continue
            if t["log"]:
                ctx.probe("logged")
            ctx.state("s", len(plan["tasks"]), "line" in t, len(got["trees"]), got["error"], len(plan["switches"]))
            if got != expected:
                keys = [k for k in got if got[k] != expected[k]]
                raise Violation("not-as-alone", f"'{text}' of thread {i}, next to {[x['texts'] for x in plan['tasks']]}: {keys[0]} is\n  {str(got[keys[0]])[:900]}\n  alone\n  {str(expected[keys[0]])[:900]}")


def run_goals(plan, ctx):
    from richard.core.Model import Model
    from richard.core.Solver import Solver
    from richard.data_source.SimpleDataSource import SimpleDataSource
    from richard.entity.Relation import Relation
    from richard.interface.SomeModule import SomeModule
    from richard.module.InferenceModule import InferenceModule
    from richard.type.InferenceRule import InferenceRule
    from sim.sched import current_task

    armed = {}
    source = SimpleDataSource()

    def columns(name):
        return [f"c{i}" for i in range(len(SIGNATURES[name]))]

    class FactModule(SomeModule):
        def __init__(self):
            super().__init__()
            for name in SIGNATURES:
                self.add_relation(Relation(name, arguments=columns(name), query_function=self.query))

        def query(self, values, context):
            task = current_task()
            owner = armed.get(task.name if task else "alone")
            data = FaultDS(source, owner) if owner else source
            return data.select(context.relation.predicate, context.relation.arguments, values)

    for name, *args in plan["facts"]:
        source.insert(name, columns(name), args)
    inference = InferenceModule()
    for head, body in plan["rules"]:
        inference.insert_rule(InferenceRule(atom_to_real(head), atoms_to_real(body)))
    model = Model([FactModule(), inference])

    def solve(solver, goal):
        try:
            return [sorted((k, repr(norm_value(v))) for k, v in b.items()) for b in solver.solve(atoms_to_real(goal))]
        except Exception as e:
            return f"{type(e).__name__}: {e}"

    want = {}
    for i, t in enumerate(plan["tasks"]):
        for j, goal in enumerate(t["goals"]):
            if "fault" in t:
                armed["alone"] = Faults(ctx)
                armed["alone"].arm({t["fault"][0]: t["fault"][1]})
            try:
                want[i, j] = solve(Solver(model), goal)
            except SimInterrupt:
                want[i, j] = "interrupted"
            armed.pop("alone", None)
    shared = Solver(model, log_stats=plan["stats"])
    if plan["one"]:
        ctx.probe("one_solver")
    results = {}

    def body(i, t, tracer, hook):
        for j, goal in enumerate(t["goals"]):
            if "fault" in t:
                armed[f"task{i}"] = Faults(ctx)
                armed[f"task{i}"].arm({t["fault"][0]: t["fault"][1]})
            solver = shared if plan["one"] else Solver(model, log_stats=plan["stats"])
            try:
                with tracer():
                    results[i, j] = solve(solver, goal)
            except SimInterrupt:
                results[i, j] = "interrupted"
                if hook.hit:
                    ctx.probe("interrupted")
                    ctx.fault("interrupt")
                    results[i, j] = None
            if "fault" in t and armed[f"task{i}"].fired:
                ctx.probe("data_failed")

    if not start(plan, ctx, body):
        return
    for i, t in enumerate(plan["tasks"]):
        for j, goal in enumerate(t["goals"]):
            got, expected = results[i, j], want[i, j]
            size = len(got) if isinstance(got, list) else got
            ctx.event(i, j, size)
            ctx.state("g", len(plan["tasks"]), "line" in t, "fault" in t, size, plan["one"])
            if got is not None and got != expected:
                raise Violation("not-as-alone", f"goal {goal} of thread {i} gave\n  {str(got)[:900]}\n  alone\n  {str(expected)[:900]}\n  facts {plan['facts']}\n  rules {plan['rules']}")


def simplify(plan):
    import copy
    for i, t in enumerate(plan["tasks"]):
        for key in ("line", "fault"):
            if key in t:
                p = copy.deepcopy(plan)
                del p["tasks"][i][key]
                yield p
        if t.get("log"):
            p = copy.deepcopy(plan)
            p["tasks"][i]["log"] = False
            yield p
    if plan.get("second"):
        yield {**copy.deepcopy(plan), "second": None}
    for key, value in (("optimizer", False), ("stats", False), ("one", False)):
        if plan.get(key):
            yield {**copy.deepcopy(plan), key: value}


def warm():
    from sim.props import c15
    c15.warm()
    import richard.module.InferenceModule, richard.data_source.SimpleDataSource  # noqa
