"""C10: an application answers as if it were alone: other applications, logging and the interpreter make no difference."""
import json
import os
import random
import shutil

from sim import toy as T
from sim.ctx import Violation
from sim.gengoal import ALL, SIGNATURES, GoalGen, gen_fact, gen_rule, has
from sim.props.c04 import warm as warm_toy
from sim.sched import LineTracer, Sched, gen_spots, gen_switches

ID = "C10"
LEVEL = "exploration"
RUNS = {"quick": 2800, "thorough": 40000}
REPEATED = {"quick": 400, "thorough": 4000}
RUN_TIMEOUT = 120
MISMATCH_IS_VIOLATION = True
RULE = ("one case = 2-4 applications with their own configuration (layout, optimizer, languages, words, logging) in one process, whose dialogs are interleaved between entering and reading, or "
        "which run in threads that are switched at any line of the code under test, also while they are set up; or one program of goals and ambiguous sentences of which all results are recorded "
        "in order; or 2-3 such programs, interleaved or in threads, of which everything has to come out as in a process of their own; a sample of the runs is repeated in another process, in another order, with another hash seed, and has to give the same record; non-trivial = applications were "
        "interleaved; distinct = distinct event logs")
STATE_MEASURE = "distinct (request kinds entered consecutively in different applications) pairs"
REAL = ["System", "blocks", "BasicParser", "SemanticComposer", "BasicQueryOptimizer", "AtomExecutor", "Solver", "InferenceModule", "BasicDialogContext", "BasicOutputBuffer",
        "GrammarModule", "BasicGenerator", "Sqlite3DataSource", "SimpleDataSource", "BasicParseTreeSortHeuristics"]
STUBS = ["domain module and grammar of the simulated applications"]
REQUIRED_PROBES = ["line_switches", "sequential", "recorded_order", "built_while_running", "ambiguous", "alone"]
ASSUMPTIONS = ["each application is used by one thread", "the host application returns its rows in a fixed order"]
SHRINK_LISTS = ["apps", "programs", "ops", "switches", "spots", "goals", "facts", "rules", "texts", "order"]

# where applications may meet
SHARED = ["SemanticComposer.py", "EarleyParser.py", "BasicParser.py", "AtomExecutor.py", "Solver.py", "Model.py", "CoreModule.py", "SentenceRequest.py", "System.py", "Chart.py", "tree_extract.py",
          "VariableGenerator.py", "InferenceModule.py", "BasicGenerator.py", "BasicDialogContext.py", "BasicOutputBuffer.py", "SimpleDataSource.py", "GrammarRules.py", "SimpleGrammarRulesParser.py",
          "SimpleInferenceRuleParser.py", "BasicQueryOptimizer.py", "SortByCost.py", "Logger.py"]


def gen_program(rng, most=3):
    goals = [GoalGen(rng, rng.sample(list(ALL), rng.randrange(2, len(ALL))), "Q").goal() for _ in range(rng.randrange(1, most + 1))]
    if rng.random() < 0.6:
        # many results, in an order of their own
        one = [rng.choice(["e1", "e2", "m1", "d1"]), {"v": "A1"}] if rng.random() < 0.7 else [rng.choice(["r1", "r2", "x1", "d2"]), {"v": "A1"}, {"v": "A2"}]
        goals.append(rng.choice([
            [["all", {"v": "A1"}, {"l": [one]}, {"l": [one]}]],
            [["all", {"v": "A1"}, {"l": [one]}, {"l": [one]}]],
            [["find_all", {"n": "A1"}, {"l": [one]}, {"v": "A3"}]],
            [["$or", [[one], [["e1", {"v": "A1"}]]]]],
            [one, ["scoped", {"l": [one]}]],
            [["arg_max", {"v": "A1"}, {"v": "A3"}, {"l": [["n1", {"v": "A1"}, {"v": "A3"}]]}]],
        ]))
    rules = []
    for _ in range(rng.randrange(0, 6)):
        head, body = gen_rule(rng)
        if not has(body, ("find_all", "find_one")):
            rules.append([head, body])
    texts = [" ".join(rng.choice(["star", "dog", "cat", "old", "red"]) if i % 2 == 0 else rng.choice(["with", "near", "with", "and"]) for i in range(rng.choice([1, 3, 5, 7])))
             for _ in range(rng.randrange(1, most))]
    return {"facts": [gen_fact(rng) for _ in range(rng.randrange(5, 60))], "rules": rules, "goals": goals, "texts": texts, "cfg": T.gen_config(rng),
            "ops": [T.gen_op(rng, {"crash": 0, "quiet": 0, "describe": 8, "parent": 8, "age": 5}) for _ in range(rng.randrange(3, 14) if most > 2 else rng.randrange(1, 6))],
            "sizes": {name: rng.choice([1, 5, 20, 50, 100, 1000]) for name in SIGNATURES} if rng.random() < 0.7 else {}, "boosts": [rng.choice([0, 0, 0, 1, 2]) for _ in range(10)]}


def gen(rng, tier, index):
    x = rng.random()
    if x < 0.3:
        return {"mode": "record", **gen_program(rng)}
    if x < 0.5:
        threads = rng.random() < 0.4
        return {"mode": "alone", "programs": [{"mode": "record", **gen_program(rng, 2)} for _ in range(rng.choice([2, 2, 3]))], "order": [rng.randrange(3) for _ in range(40)],
                "late": rng.random() < 0.4, "threads": threads,
                "spots": gen_spots(rng, 3, SHARED) if threads else [], "switches": gen_switches(rng, rng.randrange(1, 60), rng.choice([3000, 12000, 40000])) if threads else []}
    threads = x < 0.72
    apps = []
    words = {}
    for _ in range(rng.randrange(2, 4 if threads else 5)):
        cfg = T.gen_config(rng, multilingual=0.3)
        if rng.random() < 0.3:
            cfg["static_words"] = [[w, rng.choice(T.NOUNS)] for w in rng.sample(T.WORDS, 2)]
        ops = []
        learned = [w for w, _ in cfg.get("static_words", [])]
        # the applications learn the same words with other meanings, tell the same people other things
        for _ in range(rng.randrange(1, 6 if threads else 12)):
            op = T.gen_op(rng, {"word": 4, "learn": 4, "talk": 3, "where": 3, "enter": 4}, learned)
            if op[0] == "word":
                learned.append(op[1])
            ops.append(op)
        apps.append({"cfg": cfg, "ops": ops})
    order = [rng.randrange(len(apps)) for _ in range(60)]
    return {"mode": "threads" if threads else "sequential", "apps": apps, "order": order,
            "traced_build": rng.random() < 0.15, "late": rng.random() < 0.3, "spots": gen_spots(rng, 4, SHARED) if threads else [], "switches": gen_switches(rng, rng.randrange(1, 60), rng.choice([200, 3000, 12000])) if threads else []}


class App:
    def __init__(self, cfg, root, i):
        self.i = i
        folder = os.path.join(root, str(i))
        os.makedirs(folder)
        self.toy = T.Toy(cfg, folder)
        self.oracle = T.Oracle(cfg)
        self.pending = None
        self.log = []

    def enter(self, op):
        text = T.render(op)
        want = self.oracle.answer(op)
        try:
            self.toy.system.enter(self.toy.request(text))
        except Exception as e:
            self.check(op, want, None, e)
            return
        self.pending = (op, want)

    def read(self):
        if self.pending is None:
            return
        op, want = self.pending
        self.pending = None
        got = error = None
        try:
            got = self.toy.system.read_output()
        except Exception as e:
            error = e
        self.check(op, want, got, error)

    def check(self, op, want, got, error):
        self.log.append(f"{op[0]} -> {got if error is None else 'error'}")
        if not T.matches(want, got, error):
            raise Violation("influenced", f"application {self.i}: {T.render(op)!r} answered {got!r} {error!r}; alone it would be {want!r}")

    def finish(self):
        if self.toy.raw() != self.oracle.rows():
            raise Violation("influenced", f"application {self.i} holds {self.toy.raw()}, alone it would hold {self.oracle.rows()}")
        if self.toy.contexts() != sorted(self.oracle.contexts):
            raise Violation("influenced", f"application {self.i} has active contexts {self.toy.contexts()}, alone it would have {sorted(self.oracle.contexts)}")


def ops_of(app):
    """Leaves out words that would become ambiguous."""
    known = {w for w, _ in app["cfg"].get("static_words", [])}
    names = []
    for op in app["ops"]:
        if op[0] == "word":
            if op[1] in known:
                continue
            if op[2] in T.NOUNS:
                known.add(op[1])
        names.append(op)
    return names


def run(plan, ctx):
    root = os.path.join(os.environ["SIM_SCRATCH"], f"c10-{os.getpid()}")
    os.makedirs(root)
    try:
        {"sequential": run_sequential, "threads": run_threads, "record": run_record, "alone": run_alone}[plan["mode"]](plan, ctx, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def run_sequential(plan, ctx, root):
    ctx.probe("sequential")
    todo = [ops_of(a) for a in plan["apps"]]
    apps = {}
    if not plan["late"]:
        for i, a in enumerate(plan["apps"]):
            apps[i] = App(a["cfg"], root, i)
    last = None
    order = list(plan["order"]) + list(range(len(todo))) * 30
    for i in order:
        if i >= len(todo):
            continue
        if i not in apps:
            apps[i] = App(plan["apps"][i]["cfg"], root, i)
            if len(apps) > 1:
                ctx.probe("built_while_running")
        app = apps[i]
        if app.pending is not None:
            app.read()
        elif todo[i]:
            op = todo[i].pop(0)
            if last and last[0] != i:
                ctx.state(last[1], op[0])
                ctx.nontrivial = True
            last = (i, op[0])
            app.enter(op)
    for i in sorted(apps):
        apps[i].read()
        apps[i].finish()
        ctx.event(i, apps[i].log)


def run_threads(plan, ctx, root):
    import richard
    prefix = list(richard.__path__)[0]
    sched = Sched(plan["switches"], ctx, spots=plan.get("spots"), max_steps=5_000_000)
    sched.log_switches = False
    logs = {}
    current = {}
    tracer = LineTracer(lambda frame: sched.yield_point(frame=frame), prefix)

    def task(i, spec):
        def body():
            if plan["traced_build"]:
                ctx.probe("built_while_running")
                with tracer_of():
                    app = App(spec["cfg"], root, i)
            else:
                app = App(spec["cfg"], root, i)
            for op in ops_of(spec):
                current[i] = op[0]
                for j, kind in current.items():
                    if j != i:
                        ctx.state(kind, op[0])
                with tracer_of():
                    app.enter(op)
                    app.read()
            app.finish()
            logs[i] = app.log
        return body

    def tracer_of():
        return LineTracer(tracer.hook, prefix)

    for i, spec in enumerate(plan["apps"]):
        sched.spawn(f"app{i}", task(i, spec))
    sched.run()
    if sched.preemptions:
        ctx.probe("line_switches", sched.preemptions)
        ctx.nontrivial = True
        ctx.faults["preemption"] = sched.preemptions
    for i in sorted(logs):
        ctx.event(i, logs[i])


class Program:
    """An application of which everything that comes out is recorded, in order. steps: functions that return what was recorded."""

    def __init__(self, plan, ctx, root, i=0):
        from richard.core.Model import Model
        from richard.core.Solver import Solver
        from richard.core.constants import E1, E2
        from richard.data_source.SimpleDataSource import SimpleDataSource
        from richard.entity.Relation import Relation
        from richard.interface.SomeModule import SomeModule
        from richard.module.InferenceModule import InferenceModule
        from richard.processor.parser.BasicParser import BasicParser
        from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser
        from richard.processor.semantic_composer.SemanticComposer import SemanticComposer
        from richard.processor.semantic_composer.optimizer.BasicQueryOptimizer import BasicQueryOptimizer
        from richard.type.InferenceRule import InferenceRule
        from sim.refeval import atom_to_real, atoms_to_real

        self.ctx = ctx
        source = SimpleDataSource()
        sizes = {"e1": 30, "e2": 5, "m1": 5, "r1": 50, "r2": 50, "n1": 5, "n2": 100, "x1": 20, "x2": 20}
        sizes.update(plan.get("sizes", {}))

        class Facts(SomeModule):
            def __init__(self):
                super().__init__()
                for name, kinds in SIGNATURES.items():
                    self.add_relation(Relation(name, arguments=[f"c{i}" for i in range(len(kinds))], query_function=self.query, write_function=self.write, relation_size=sizes[name],
                                               argument_sizes=[5] * len(kinds)))

            def query(self, values, context):
                return source.select(context.relation.predicate, context.relation.arguments, values)

            def write(self, values, context):
                source.insert(context.relation.predicate, context.relation.arguments, list(values))

        inferences = InferenceModule()
        model = Model([Facts(), inferences])
        self.solver = Solver(model)
        for head, body in plan["rules"]:
            inferences.insert_rule(InferenceRule(atom_to_real(head), atoms_to_real(body)))
        for fact in plan["facts"]:
            self.solver.solve([("store", [atom_to_real(fact)])])
        self.optimizer = BasicQueryOptimizer(model)
        rules = [
            {"syn": "s(E1) -> np(E1)", "sem": lambda np: np},
            {"syn": "s(E1) -> /[a-z ]+/", "sem": lambda t: [("text", t)]},
            {"syn": "s(E1) -> np(E1) 'and' s(E2)", "sem": lambda np, s: np + s, "boost": 1},
            {"syn": "np(E1) -> noun(E1)", "sem": lambda n: n},
            {"syn": "np(E1) -> np(E1) pp(E1)", "sem": lambda n, p: n + p},
            {"syn": "np(E1) -> np(E1) 'and' np(E2)", "sem": lambda n, p: n + p},
            {"syn": "pp(E1) -> prep(E1, E2) np(E2)", "sem": lambda p, n: p + n},
            {"syn": "prep(E1, E2) -> 'with'", "sem": lambda: [("r1", E1, E2)]},
            {"syn": "prep(E1, E2) -> 'near'", "sem": lambda: [("r2", E1, E2)]},
            {"syn": "prep(E1, E2) -> 'with'", "sem": lambda: [("r2", E1, E2)]},
        ]
        for rule, boost in zip(rules, plan.get("boosts", [])):
            if boost:
                rule["boost"] = boost
        for word in ("star", "dog", "cat", "old", "red"):
            rules.append({"syn": f"noun(E1) -> '{word}'", "sem": lambda: [("e1", E1)]})
        rules.append({"syn": "noun(E1) -> 'star'", "sem": lambda: [("e2", E1)]})
        rules.append({"syn": "noun(E1) -> /[a-z]+/", "sem": lambda t: [("m1", E1)]})
        self.parser = BasicParser(SimpleGrammarRulesParser().parse_read_grammar(rules))
        self.composer = SemanticComposer(self.parser, query_optimizer=self.optimizer)
        self.app = App(plan["cfg"], root, i)
        self.steps = [lambda goal=goal: self.goal(atoms_to_real(goal)) for goal in plan["goals"]]
        self.steps += [lambda text=text: self.text(text) for text in plan["texts"]]
        self.steps += [lambda op=op: self.op(op) for op in ops_of({"cfg": plan["cfg"], "ops": plan["ops"]})]

    def goal(self, goal):
        out = []
        try:
            out.append("goal " + show([list(b.items()) for b in self.solver.solve(goal)]))
        except Exception as e:
            out.append(f"goal error {type(e).__name__} {e}")
        try:
            steps = self.optimizer.optimize(goal, [])
            out.extend(f"{k} {show(v)}" for k, v in steps.items())
            bindings = self.solver.solve(steps[list(steps)[-1]])
            out.append("optimized " + show([list(b.items()) for b in bindings]))
        except Exception as e:
            out.append(f"optimizer error {type(e).__name__} {e}")
        return out

    def text(self, text):
        from richard.entity.SentenceRequest import SentenceRequest
        out = []
        request = SentenceRequest(text)
        result = self.parser.process(request)
        if len(result.products) > 1:
            self.ctx.probe("ambiguous")
        for product in result.products[:12]:
            out.append("tree " + product.parse_tree.inline_str())
        for product in result.products[:5]:
            request.set_current_product(self.parser, product)
            out.append("meaning " + show(self.composer.process(request).products[0].get_semantics_last_iteration()))
        return out

    def op(self, op):
        n = len(self.app.log)
        self.app.enter(op)
        self.app.read()
        return self.app.log[n:]


def run_record(plan, ctx, root):
    """Everything that comes out, in order; compared with the same run in another interpreter."""
    ctx.probe("recorded_order")
    ctx.nontrivial = True
    program = Program(plan, ctx, root)
    for step in program.steps:
        ctx.event(step())


def record_alone(plan, ctx, root):
    """What a program gives in a process of its own."""
    reader, writer = os.pipe()
    child = os.fork()
    if child == 0:
        out = {"error": None, "steps": []}
        try:
            out["steps"] = [step() for step in Program(plan, ctx, root).steps]
        except BaseException as e:  # noqa - reported by the parent
            out["error"] = f"{type(e).__name__}: {e}"
        try:
            os.close(reader)
            with os.fdopen(writer, "w") as f:
                json.dump(out, f)
        finally:
            os._exit(0)
    os.close(writer)
    with os.fdopen(reader) as f:
        data = f.read()
    os.waitpid(child, 0)
    out = json.loads(data)
    if out["error"]:
        raise Violation("failed-alone", f"the program {plan} failed alone with {out['error']}")
    return out["steps"]


def run_alone(plan, ctx, root):
    """Several programs in this process; each is compared with what it gives in a process of its own."""
    import richard
    ctx.probe("alone")
    alone = []
    for i, p in enumerate(plan["programs"]):
        folder = os.path.join(root, f"alone{i}")
        os.makedirs(folder)
        alone.append(record_alone(p, ctx, folder))
        shutil.rmtree(folder)

    def compare(i, k, got):
        want = alone[i][k]
        if got != want:
            diff = [(g, w) for g, w in zip(got, want) if g != w] or [(got, want)]
            raise Violation("not-as-alone", f"step {k} of program {i} of {len(alone)} gives\n  {diff[0][0]}\n  alone\n  {diff[0][1]}")

    if plan["threads"]:
        prefix = list(richard.__path__)[0]
        sched = Sched(plan["switches"], ctx, spots=plan["spots"], max_steps=8_000_000)
        sched.log_switches = False

        def task(i, p):
            def body():
                program = Program(p, ctx, root, i)
                for k, step in enumerate(program.steps):
                    with LineTracer(lambda frame: sched.yield_point(frame=frame), prefix):
                        got = step()
                    compare(i, k, got)
            return body
        for i, p in enumerate(plan["programs"]):
            sched.spawn(f"program{i}", task(i, p))
        sched.run()
        if sched.preemptions:
            ctx.probe("line_switches", sched.preemptions)
            ctx.nontrivial = True
            ctx.faults["preemption"] = sched.preemptions
    else:
        programs, at = {}, {}
        last = None
        for i in ([] if plan["late"] else range(len(alone))):
            programs[i] = Program(plan["programs"][i], ctx, root, i)
        for i in list(plan["order"]) + sorted(range(len(alone))) * 40:
            if i >= len(alone):
                continue
            if i not in programs:
                programs[i] = Program(plan["programs"][i], ctx, root, i)
            k = at.get(i, 0)
            if k == len(alone[i]):
                continue
            compare(i, k, programs[i].steps[k]())
            at[i] = k + 1
            if last not in (None, i):
                ctx.nontrivial = True
            last = i
    ctx.event("alone", alone)


def show(x):
    from richard.entity.Variable import Variable
    if isinstance(x, Variable):
        return "?" + x.name
    if isinstance(x, (list, tuple)):
        return "(" + " ".join(show(y) for y in x) + ")"
    return repr(x)


def warm():
    warm_toy()
