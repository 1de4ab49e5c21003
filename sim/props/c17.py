"""C17: a system does not accumulate: the same work costs the same after any history."""
import gc
import os
import shutil
import sys
import types

from sim import toy as T
from sim.ctx import SimInterrupt, Violation
from sim.faultds import EXCEPTIONS, FaultDS, Faults
from sim.gengoal import ALL, SIGNATURES, GoalGen, gen_fact, gen_rule
from sim.gramsim import GramSystem, gen_base, gen_sentence, noise
from sim.refeval import atom_to_real, atoms_to_real
from sim.sched import LineTracer

ID = "C17"
LEVEL = "exploration"
RUNS = {"quick": 2400, "thorough": 30000}
RUN_TIMEOUT = 120
RULE = ("one case = an application with random knowledge, or a random grammar, or random facts and rules, that processes the same random sequence of requests that add no knowledge 6 times (one of them sometimes hundreds of times more): questions, "
        "ill-formed sentences, requests that raise, recurse without end, have no output, are not read, and that are cut off by a failing data access or an interrupt at any line; the number of executed lines of "
        "every request and the sizes of all reachable containers must not change after the second round; non-trivial = something failed or was interrupted; distinct = distinct event logs")
STATE_MEASURE = "distinct (mode, kinds of requests, kinds of failures) combinations"
REAL = ["System", "blocks", "BasicParser", "SemanticComposer", "BasicQueryOptimizer", "AtomExecutor", "Solver", "Model", "InferenceModule", "BasicDialogContext", "BasicOutputBuffer", "GrammarModule",
        "BasicGenerator", "Sqlite3DataSource", "SimpleDataSource", "Logger"]
STUBS = ["data-source wrapper that fails accesses", "domain modules and grammar of the simulated applications"]
REQUIRED_PROBES = ["toy", "grammar", "goals", "interrupted", "data_fault", "recursion", "not_read", "raised", "logged", "often"]
ASSUMPTIONS = ["the facts that a grammar declares to be added to the dialog (\"dialog\") are knowledge: their number grows by the same amount each round",
               "interrupts do not hit requests that open and close a dialog context"]
SHRINK_LISTS = ["ops", "texts", "goals", "setup", "base", "facts", "rules"]

ROUNDS = 6
QUESTIONS = {"isa": 5, "ancestor": 3, "children": 2, "descendants": 2, "count": 3, "which": 3, "howold": 1, "oldest": 3, "total": 2, "ages": 2, "every": 2, "no": 1, "where": 2, "busy": 3,
             "describe": 4, "garbage": 4, "dutch_isa": 1, "inbusy": 2, "inwhere": 1, "crash": 2, "quiet": 2, "loop": 0.3}
ONLY_QUESTIONS = {**{k: 0 for k in T.KINDS}, **QUESTIONS}


def gen(rng, tier, index):
    plan = gen_plan(rng)
    # one of the requests is repeated very often; preferably one that fails
    if rng.random() < 0.05:
        items = plan.get("ops") or plan.get("texts") or plan.get("goals")
        fit = [i for i, item in enumerate(items) if item.get("op", [""])[0] != "loop"]
        failing = [i for i in fit if "at" in items[i] or items[i].get("op", [""])[0] in ("crash", "quiet", "garbage") or items[i].get("text", "").startswith("crash")]
        if fit:
            plan["often"] = [rng.choice(failing if failing and rng.random() < 0.8 else fit), rng.choice([300, 1100])]
    return plan


def gen_plan(rng):
    x = rng.random()
    if x < 0.5:
        cfg = T.gen_config(rng)
        cfg["logging"] = None
        setup, words = [], []
        for _ in range(rng.randrange(2, 14)):
            op = T.gen_op(rng, {**{k: 0 for k in T.KINDS}, "tell": 8, "parent": 5, "age": 4, "learn": 3, "word": 2, "name": 2}, words)
            if op[0] == "word":
                if op[1] in words:
                    continue
                words.append(op[1])
            setup.append(op)
        ops = []
        for _ in range(rng.randrange(1, 6)):
            op = T.gen_op(rng, ONLY_QUESTIONS, words)
            item = {"op": op, "read": rng.random() < 0.8, "log": rng.random() < 0.2}
            if op[0] not in ("inbusy", "inwhere", "loop"):
                y = rng.random()
                if y < 0.3:
                    item["line"] = int(rng.expovariate(1 / rng.choice([100, 2000, 10000])))
                elif y < 0.6:
                    item["at"] = rng.randrange(0, 12)
                    item["error"] = rng.choice(list(EXCEPTIONS))
            ops.append(item)
        if rng.random() < 0.3:
            room = rng.choice(T.ROOMS)
            i = rng.randrange(0, len(ops) + 1)
            ops.insert(i, {"op": ["enter", room], "read": True, "log": False})
            ops.insert(rng.randrange(i + 1, len(ops) + 1), {"op": ["leave", room], "read": rng.random() < 0.5, "log": False})
        return {"mode": "toy", "cfg": cfg, "setup": setup, "ops": ops}
    if x < 0.8:
        base = gen_base(rng, rng.randrange(1, 6))
        texts = []
        for _ in range(rng.randrange(1, 6)):
            s = gen_sentence(rng, base)
            s = noise(rng, s) if rng.random() < 0.3 else s
            if rng.random() < 0.15:
                s = rng.choice(["crash learn 0", "no learn 0"])
            while len(s) > 35:
                s = s.rpartition(" ")[0] or s[:35]
            item = {"text": s, "log": rng.random() < 0.25, "read": rng.random() < 0.85}
            if rng.random() < 0.35:
                item["line"] = int(rng.expovariate(1 / rng.choice([50, 500, 3000])))
            texts.append(item)
        return {"mode": "grammar", "base": base, "texts": texts, "optimizer": rng.random() < 0.5,
                "blocks": rng.choice([["all", "first", "first"], ["one", "first", "first"], ["all", "all", "all"], ["one", "one", "one"]])}
    goals = []
    for _ in range(rng.randrange(1, 4)):
        item = {"goal": GoalGen(rng, rng.sample(list(ALL), rng.randrange(2, len(ALL))), "Q", ["X", "Y", "Z"] if rng.random() < 0.4 else None).goal()}
        y = rng.random()
        if y < 0.3:
            item["line"] = int(rng.expovariate(1 / rng.choice([30, 300])))
        elif y < 0.5:
            item["at"] = rng.randrange(0, 10)
            item["error"] = rng.choice(list(EXCEPTIONS))
        goals.append(item)
    return {"mode": "goals", "facts": [gen_fact(rng) for _ in range(rng.randrange(5, 22))], "rules": [list(gen_rule(rng)) for _ in range(rng.randrange(0, 6))], "goals": goals,
            "stats": rng.random() < 0.4, "keep": rng.random() < 0.5}


# --- measuring

class Lines:
    """Counts lines, and interrupts at one of them."""

    def __init__(self, at):
        self.at = at
        self.n = 0
        self.hit = False

    def __call__(self, frame):
        n = self.n
        self.n += 1
        if n == self.at and not self.hit:
            self.hit = True
            raise SimInterrupt("interrupted")


SKIP = (types.ModuleType, types.FrameType, types.CodeType, type, type(sys.implementation))
SIMPLE = (int, float, str, bytes, bool, type(None), complex)


def sizes(roots):
    """path -> number of elements, of everything that can be reached, and of everything that the library keeps in its modules, classes and functions."""
    out = {}
    seen = set()
    stack = []
    for name, module in list(sys.modules.items()):
        if name == "richard" or name.startswith("richard."):
            for key, value in list(vars(module).items()):
                if key.startswith("__"):
                    continue
                if isinstance(value, type):
                    if value.__module__.startswith("richard"):
                        for k, v in list(vars(value).items()):
                            if not k.startswith("__") or k == "__init__":
                                stack.append((v, f"{name}.{key}.{k}"))
                else:
                    stack.append((value, f"{name}.{key}"))
    for name, root in roots.items():
        stack.append((root, name))
    while stack:
        obj, path = stack.pop()
        if isinstance(obj, (str, bytes)) and len(obj) > 200:
            out[path[:300] + ".text"] = out.get(path[:300] + ".text", 0) + len(obj)
        if isinstance(obj, SIMPLE) or isinstance(obj, SKIP) or id(obj) in seen:
            continue
        seen.add(id(obj))
        if len(path) > 300:
            path = path[:300]
        if isinstance(obj, dict):
            out[path] = out.get(path, 0) + len(obj)
            for k, v in list(obj.items()):
                stack.append((k, path + ".key"))
                stack.append((v, path + "[]"))
        elif isinstance(obj, (list, tuple, set, frozenset)):
            out[path] = out.get(path, 0) + len(obj)
            for v in list(obj):
                stack.append((v, path + "[]"))
        elif isinstance(obj, types.FunctionType):
            for v in (obj.__defaults__ or ()):
                stack.append((v, path + ".default"))
            for v in (obj.__kwdefaults__ or {}).values():
                stack.append((v, path + ".default"))
            for v in (obj.__closure__ or ()):
                stack.append((v, path + ".cell"))
            if obj.__dict__:
                stack.append((obj.__dict__, path + ".dict"))
        elif isinstance(obj, types.MethodType):
            stack.append((obj.__self__, path + ".self"))
            stack.append((obj.__func__, path + ".func"))
        elif isinstance(obj, (FaultDS,)):
            stack.append((obj.inner, path))
        elif isinstance(obj, (Faults, Lines)) or type(obj).__module__ in ("sqlite3", "_sqlite3", "unittest.case"):
            # the sqlite3 module keeps weak references to cursors and drops them now and then
            continue
        elif type(obj).__module__.split(".")[0] in ("richard", "sim", "types") and hasattr(obj, "__dict__"):
            for k, v in list(vars(obj).items()):
                stack.append((v, f"{path}.{k}"))
            if isinstance(obj, (list, dict, set)):
                out[path] = out.get(path, 0) + len(obj)
        else:
            for v in gc.get_referents(obj):
                stack.append((v, path + ".ref"))
    return out


def steady(values):
    """Grows, or shrinks, in every round after the first."""
    values = [v or 0 for v in values[1:]]
    pairs = list(zip(values, values[1:]))
    return all(a < b for a, b in pairs) or all(a > b for a, b in pairs)


def execute(item, act, ctx, traced=True):
    """Returns [lines, outcome]"""
    import richard
    prefix = list(richard.__path__)[0]
    lines = Lines(item.get("line"))
    try:
        if traced:
            with LineTracer(lines, prefix):
                outcome = act()
        else:
            outcome = act()
    except SimInterrupt:
        outcome = "interrupted"
        if lines.hit:
            ctx.fault("interrupt")
            ctx.probe("interrupted")
    except Exception as e:
        outcome = f"{type(e).__name__}: {str(e)[:80]}"
        ctx.probe("recursion" if isinstance(e, RecursionError) else "raised")
    return [lines.n, outcome]


def run(plan, ctx):
    ctx.probe(plan["mode"])
    {"toy": run_toy, "grammar": run_grammar, "goals": run_goals}[plan["mode"]](plan, ctx)


def rounds(items, act, roots, ctx, label, extra=None, traced=lambda item: True, often=None):
    costs = [[] for _ in items]
    history = []
    for r in range(ROUNDS):
        for i, item in enumerate(items):
            costs[i].append(execute(item, lambda: act(item), ctx, traced(item)))
        if r == 2 and often and often[0] < len(items):
            ctx.probe("often")
            item = {k: v for k, v in items[often[0]].items() if k != "line"}
            for _ in range(often[1]):
                try:
                    act(item)
                except (Exception, SimInterrupt):
                    pass
        gc.collect()
        history.append(sizes(roots))
        if extra:
            history[-1].update(extra(r))
    for i, item in enumerate(items):
        ctx.event(label(item), costs[i][-1][1], len(costs[i]))
        outcomes = [c[1] for c in costs[i]]
        if len(set(outcomes[1:])) > 1:
            raise Violation("outcome-changes", f"the outcomes of {label(item)} in successive rounds of {[label(i) for i in items]}" +
                            (f" (after the third round {label(items[often[0]])} was repeated {often[1]} times)" if often and often[0] < len(items) else "") + f": {outcomes}")
        lines = [c[0] for c in costs[i]]
        if steady(lines):
            raise Violation("cost-grows", f"the numbers of lines executed for {label(item)} in successive rounds of {[label(i) for i in items]}: {lines}")
    for path in sorted(set().union(*history)):
        values = [h.get(path, 0) for h in history]
        if steady(values):
            raise Violation("grows", f"after successive rounds of {[label(i) for i in items]} the size of {path} is {values}")


def run_toy(plan, ctx):
    scratch = f"/tmp/simrun-{os.getpid()}"
    os.makedirs(scratch, exist_ok=True)
    try:
        faults = Faults(ctx)
        toy = T.Toy(plan["cfg"], scratch, faults)
        for op in plan["setup"]:
            try:
                toy.ask(T.render(op))
            except Exception as e:
                ctx.event("setup", op, type(e).__name__)

        def act(item):
            from richard.core.Logger import Logger
            from richard.entity.SentenceRequest import SentenceRequest
            faults.arm({item["at"]: item["error"]} if "at" in item else {})
            logger = None
            if item["log"]:
                ctx.probe("logged")
                logger = Logger()
                logger.log_all_tests()
                logger.log_products()
                logger.log_stats()
            request = SentenceRequest(T.render(item["op"]), logger=logger) if logger else SentenceRequest(T.render(item["op"]))
            try:
                toy.system.enter(request)
                if item["read"]:
                    return repr(toy.system.read_output())
                ctx.probe("not_read")
                return "not read"
            finally:
                if faults.fired:
                    ctx.probe("data_fault")

        def count(source, table, columns):
            inner = source.inner if isinstance(source, FaultDS) else source
            return len(inner.select(table, columns, [None] * len(columns)))

        talked = []

        def extra(r):
            out = {}
            for source, part in toy.sources:
                for name in part:
                    out["rows of " + name] = count(source, name, T.COLUMNS[name])
            out["contexts"] = count(toy.dialog.data_source, "context", ["name"])
            # what the grammar adds to the dialog
            talked.append(count(toy.dialog.data_source, "dialog_isa", ["entity", "type"]))
            out["rows that a round adds to the dialog"] = talked[-1] - talked[-2] if r else 0
            out["rules of the grammar"] = toy.grammar_size()
            return out

        rounds(plan["ops"], act, {"system": toy.system, "dialog": toy.dialog}, ctx, lambda item: f"'{T.render(item['op'])}'", extra, lambda item: item["op"][0] != "loop", plan.get("often"))
        for item in plan["ops"]:
            ctx.state("toy", item["op"][0], item.get("error"), "line" in item, item["read"])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run_grammar(plan, ctx):
    me = GramSystem(plan["base"], [{"syn": "np(E1) -> 'zz'", "k": 99}], [], plan["blocks"], plan["optimizer"])

    def act(item):
        from richard.core.Logger import Logger
        from richard.entity.SentenceRequest import SentenceRequest
        logger = None
        if item["log"]:
            ctx.probe("logged")
            logger = Logger()
            logger.log_all_tests()
            logger.log_products()
            logger.log_stats()
        request = SentenceRequest(item["text"], logger=logger) if logger else SentenceRequest(item["text"])
        me.system.enter(request)
        out = len(request.get_alternative_products(me.parser)), len(request.get_alternative_products(me.composer))
        if item["read"]:
            return str(out) + repr(me.system.read_output())
        ctx.probe("not_read")
        return str(out)

    rounds(plan["texts"], act, {"system": me.system, "read": me.read}, ctx, lambda item: f"'{item['text']}'", often=plan.get("often"))
    for item in plan["texts"]:
        ctx.state("grammar", "line" in item, item["read"], len(item["text"]) // 5, plan["optimizer"], plan["blocks"])


def run_goals(plan, ctx):
    from richard.core.Model import Model
    from richard.core.Solver import Solver
    from richard.data_source.SimpleDataSource import SimpleDataSource
    from richard.entity.Relation import Relation
    from richard.interface.SomeModule import SomeModule
    from richard.module.InferenceModule import InferenceModule
    from richard.type.InferenceRule import InferenceRule

    faults = Faults(ctx)
    source = SimpleDataSource()
    data = FaultDS(source, faults)

    def columns(name):
        return [f"c{i}" for i in range(len(SIGNATURES[name]))]

    class FactModule(SomeModule):
        def __init__(self):
            super().__init__()
            for name in SIGNATURES:
                self.add_relation(Relation(name, arguments=columns(name), query_function=self.query))

        def query(self, values, context):
            return data.select(context.relation.predicate, context.relation.arguments, values)

    for name, *args in plan["facts"]:
        source.insert(name, columns(name), args)
    inference = InferenceModule()
    for head, body in plan["rules"]:
        inference.insert_rule(InferenceRule(atom_to_real(head), atoms_to_real(body)))
    model = Model([FactModule(), inference])
    kept = Solver(model, log_stats=False)

    def act(item):
        faults.arm({item["at"]: item["error"]} if "at" in item else {})
        # statistics are kept per solver
        solver = kept if plan["keep"] else Solver(model, log_stats=plan["stats"])
        if plan["stats"] and not plan["keep"]:
            ctx.probe("stats")
        try:
            return str(len(solver.solve(atoms_to_real(item["goal"]))))
        finally:
            if faults.fired:
                ctx.probe("data_fault")

    rounds(plan["goals"], act, {"model": model, "solver": kept, "source": source}, ctx, lambda item: str(item["goal"]), often=plan.get("often"))
    for item in plan["goals"]:
        ctx.state("goals", item.get("error"), "line" in item, str(item["goal"])[:30])


def simplify(plan):
    import copy
    if plan.get("often"):
        yield {k: v for k, v in copy.deepcopy(plan).items() if k != "often"}
    for key in ("ops", "texts", "goals"):
        for i, item in enumerate(plan.get(key, [])):
            for k in ("line", "at"):
                if k in item:
                    p = copy.deepcopy(plan)
                    del p[key][i][k]
                    yield p
            if item.get("log"):
                p = copy.deepcopy(plan)
                p[key][i]["log"] = False
                yield p
            if item.get("read") is False:
                p = copy.deepcopy(plan)
                p[key][i]["read"] = True
                yield p
    if plan.get("cfg", {}).get("multilingual"):
        p = copy.deepcopy(plan)
        p["cfg"]["multilingual"] = None
        yield p
    if plan.get("optimizer"):
        yield {**copy.deepcopy(plan), "optimizer": False}


def warm():
    from sim.props import c11, c15
    c11.warm_toy()
    c15.warm()
    import richard.module.InferenceModule, richard.data_source.SimpleDataSource  # noqa
