"""C04: a data access that fails while a request is handled never turns into a wrong answer, and does no harm to later requests."""
import os
import random
import shutil

from sim import toy as T
from sim.ctx import SimInterrupt, Violation
from sim.faultds import EXCEPTIONS, Faults

ID = "C04"
LEVEL = "exploration"
RUNS = {"quick": 10000, "thorough": 80000}
RUN_TIMEOUT = 60
RULE = ("one case = a dialog of up to 24 sentences with a complete application, in which the k-th data access of some requests fails with one of 25 kinds of errors "
        "(facts, output buffer, dialog context; while understanding, executing and producing output); non-trivial = a fault fired; distinct = distinct event logs")
STATE_MEASURE = "distinct (request kind, kind and table of the failing access, error, phase) combinations"
REAL = ["System", "blocks", "BasicParser", "SemanticComposer", "BasicQueryOptimizer", "AtomExecutor", "Solver", "InferenceModule", "BasicDialogContext", "BasicOutputBuffer",
        "GrammarModule", "BasicGenerator", "Sqlite3DataSource", "SimpleDataSource"]
STUBS = ["data-source wrapper that fails accesses and reorders rows", "domain module and grammar of the simulated application"]
REQUIRED_PROBES = ["fault_in_enter", "fault_in_read", "answers_after_fault", "failed_then_retried"]
ASSUMPTIONS = ["a failing access has no effect"]
SHRINK_LISTS = ["ops"]


def gen(rng, tier, index, kinds=None):
    cfg = T.gen_config(rng)
    ops = []
    words = []
    lists = {"which": 8, "count": 8, "total": 4, "children": 5, "descendants": 5, "ages": 4} if cfg["layout"] == "archive" else {}
    for _ in range(rng.randrange(4, 24)):
        op = T.gen_op(rng, {"crash": 0.3, "quiet": 0.3, "garbage": 0.7, "describe": 7, "parent": 6, "age": 5, **lists, **(kinds or {})}, words)
        if op[0] == "word":
            words.append(op[1])
        if op[0] in ("parent", "describe", "age") and rng.random() < 0.8:
            # people that the application knows
            people = sorted(rng.sample(cfg["names"], 2), key=T.NAMES.index)
            op[1:3] = people if op[0] == "parent" else [people[rng.randrange(2)]] + op[2:]
        item = {"op": op}
        if rng.random() < 0.35:
            item["at"] = rng.choice([0, 0, 1, 1, 2, 3, 4, 6, 9, rng.randrange(0, 30)])
            item["error"] = rng.choice(list(EXCEPTIONS)) if rng.random() < 0.6 else rng.choice(["operational", "connection", "timeout", "oserror", "interface"])
            item["phase"] = rng.choice(["enter", "enter", "enter", "read"])
            if op[0] == "describe" and rng.random() < 0.5:
                item["phase"] = "read"
            if item["phase"] == "read":
                # output generation consults the rules of the generator one after the other
                item["at"] = rng.randrange(0, rng.choice([3, 12, 26])) if rng.random() < 0.4 else rng.randrange(10, 17)
            item["retry"] = rng.random() < 0.7
        ops.append(item)
    return {"cfg": cfg, "ops": ops, "shuffle": rng.choice([None, rng.randrange(1 << 30)])}


def run(plan, ctx):
    faults = Faults(ctx)
    if plan["shuffle"] is not None:
        faults.rng = random.Random(plan["shuffle"])
    root = os.path.join(os.environ["SIM_SCRATCH"], f"c04-{os.getpid()}")
    os.makedirs(root)
    try:
        toy = T.Toy(plan["cfg"], root, faults)
        belief = T.Belief(T.Oracle(plan["cfg"]))
        after_fault = False
        for item in plan["ops"]:
            op = item["op"]
            if not T.allowed(op, belief):
                continue
            tries = [item] + ([{"op": op}] if item.get("retry") else [])
            failed = False
            for i, one in enumerate(tries):
                if i and not (failed and T.allowed(op, belief)):
                    break
                outcome, failed = ask(toy, belief, one, faults, ctx)
                after_fault = after_fault or failed
                if i:
                    ctx.probe("failed_then_retried")
                if after_fault and not failed:
                    ctx.probe("answers_after_fault")
    finally:
        shutil.rmtree(root, ignore_errors=True)


def ask(toy, belief, item, faults, ctx):
    """Asks one question; returns (outcome, whether a data access failed)."""
    op, text = item["op"], T.render(item["op"])
    got = error = None
    fired = []
    phase = "enter"
    try:
        faults.arm({item["at"]: item["error"]} if item.get("phase") == "enter" else {})
        try:
            toy.system.enter(toy.request(text))
        finally:
            fired += faults.fired
        phase = "read"
        faults.arm({item["at"]: item["error"]} if item.get("phase") == "read" else {})
        try:
            got = toy.system.read_output()
        finally:
            fired += faults.fired
    except (Exception, SimInterrupt) as e:
        error = e
    faults.arm({})
    ctx.event(op[0], "->", got if error is None else "error " + type(error).__name__)
    if fired:
        ctx.probe("fault_in_" + phase)
        ctx.state(op[0], fired[0][1:], phase)
        if error is None:
            # the answer can only be right if it is the same as without the failure
            wrong = belief.expect(op, got, None)
            if wrong:
                raise Violation("wrong-answer-after-failed-access", f"the data access {fired} failed during {text!r}, which answered {got!r}; right: {wrong[0]!r} or an error")
        else:
            if phase == "read":
                # the request itself was handled
                new = []
                for o in belief.worlds:
                    o = o.copy()
                    o.answer(op)
                    new.append(o)
                belief.set(new)
            else:
                temp = set(op[1:-1]) if op[0] in ("inbusy", "in2busy") else set(op[1:]) if op[0] == "inwhere" else set()
                belief.failed(op, temp if fired[0][1:3] == ("delete", "context") else ())
    else:
        wrong = belief.expect(op, got, error)
        if wrong:
            raise Violation("wrong-answer", f"{text!r} answered {got!r} {error!r}; right: {wrong[0]!r}; contexts {toy.contexts()}")
    if not belief.narrow_rows(toy.raw()):
        raise Violation("wrong-facts", f"after {text!r} (failed access: {fired}) the data sources hold {toy.raw()}, expected {belief.worlds[0].rows()}")
    if not belief.narrow_contexts(toy.contexts()):
        raise Violation("wrong-contexts", f"after {text!r} (failed access: {fired}) the active contexts are {toy.contexts()}, expected {sorted(belief.worlds[0].contexts)}")
    return got, bool(fired)


def simplify(plan):
    import copy
    for key, value in (("layout", "simple"), ("optimizer", False), ("multilingual", None), ("logging", None)):
        if plan["cfg"][key] != value:
            p = copy.deepcopy(plan)
            p["cfg"][key] = value
            yield p
    if plan["shuffle"] is not None:
        yield {**copy.deepcopy(plan), "shuffle": None}
    for i, item in enumerate(plan["ops"]):
        if "at" in item:
            p = copy.deepcopy(plan)
            for k in ("at", "error", "phase", "retry"):
                p["ops"][i].pop(k, None)
            yield p


def warm():
    import richard.core.System, richard.core.Solver, richard.core.BasicGenerator, richard.core.Logger, richard.block.FindAll, richard.block.FindOne  # noqa
    import richard.block.TryFirst, richard.data_source.SimpleDataSource, richard.data_source.Sqlite3DataSource, richard.grammar.en_us_write  # noqa
    import richard.module.BasicDialogContext, richard.module.BasicOutputBuffer, richard.module.GrammarModule, richard.module.InferenceModule  # noqa
    import richard.processor.language_selector.LanguageSelector, richard.processor.language_selector.Multilingual, richard.processor.parser.BasicParser  # noqa
    import richard.processor.semantic_composer.SemanticComposer, richard.processor.semantic_composer.optimizer.BasicQueryOptimizer  # noqa
    import richard.processor.semantic_executor.AtomExecutor, richard.processor.parser.helper.SimpleGrammarRulesParser  # noqa
    import richard.entity.SentenceRequest, richard.core.DialogTester  # noqa
