"""C11: the answer to a request depends on what is known, not on what was asked, failed or was interrupted before."""
import os
import re
import shutil

from sim import toy as T
from sim.ctx import SimInterrupt, Violation
from sim.faultds import EXCEPTIONS, Faults
from sim.props.c04 import warm as warm_toy
from sim.props.c07 import Interrupter
from sim.sched import LineTracer

ID = "C11"
LEVEL = "exploration"
RUNS = {"quick": 8000, "thorough": 80000}
RUN_TIMEOUT = 60
RULE = ("one case = a history of requests that change what is known, with in between questions, ill-formed sentences, requests that fail, that recurse without end, that have no output, that are not read, and "
        "questions that are cut off by a failing data access or an interrupt at any line; then questions of which result, text and error are compared with those of an application that was only "
        "told what changes its knowledge, or that was restarted on the stored facts; non-trivial = something failed or was interrupted; distinct = distinct event logs")
STATE_MEASURE = "distinct (kinds of disturbances in the history, kind of question that was compared)"
REAL = ["System", "blocks", "BasicParser", "SemanticComposer", "BasicQueryOptimizer", "AtomExecutor", "Solver", "InferenceModule", "BasicDialogContext", "BasicOutputBuffer",
        "GrammarModule", "BasicGenerator", "Sqlite3DataSource", "SimpleDataSource"]
STUBS = ["data-source wrapper that fails accesses", "domain module and grammar of the simulated application"]
REQUIRED_PROBES = ["interrupted", "data_fault", "recursion", "restarted", "compared", "repeated"]
ASSUMPTIONS = ["interrupts and failing accesses hit questions only (C04 and C13 cover requests that change knowledge)"]
SHRINK_LISTS = ["ops", "probes"]

QUESTIONS = {"isa": 5, "ancestor": 3, "children": 2, "descendants": 2, "count": 3, "which": 3, "howold": 1, "oldest": 3, "total": 2, "ages": 2, "every": 2, "no": 1, "where": 2, "busy": 3,
             "describe": 4, "garbage": 4, "dutch_isa": 1, "inbusy": 2, "inwhere": 1}
ONLY_QUESTIONS = {**{k: 0 for k in T.KINDS}, **QUESTIONS}
CHANGES = ("tell", "parent", "age", "learn", "enter", "leave", "word", "name", "dutch_tell")
CONTEXTUAL = ("inbusy", "in2busy", "inwhere")


def gen(rng, tier, index):
    cfg = T.gen_config(rng)
    ops, words = [], []
    for _ in range(rng.randrange(4, 22)):
        op = T.gen_op(rng, {"crash": 1.5, "quiet": 1, "garbage": 3, "describe": 3, "loop": 0.4, "talk": 0, "tell": 8, "age": 4, "parent": 5}, words)
        if op[0] == "word":
            words.append(op[1])
        item = {"op": op, "read": rng.random() < 0.85}
        if op[0] not in CHANGES and op[0] not in CONTEXTUAL:
            x = rng.random()
            if x < 0.25:
                item["line"] = int(rng.expovariate(1 / rng.choice([100, 2000, 10000])))
            elif x < 0.55:
                item["at"] = rng.randrange(0, rng.choice([4, 15]))
                item["error"] = rng.choice(list(EXCEPTIONS))
        ops.append(item)
    # what was cut off is asked again
    again = [item["op"] for item in ops if ("line" in item or "at" in item) and item["op"][0] in QUESTIONS and rng.random() < 0.7]
    return {"cfg": cfg, "ops": ops, "probes": again + [T.gen_op(rng, ONLY_QUESTIONS, words) for _ in range(rng.randrange(2, 9))], "restart": rng.random() < 0.35}


def result_of(toy, text):
    """Everything that can be seen of a request."""
    raw = got = error = None
    try:
        raw = toy.system.enter(toy.request(text))
        got = toy.system.read_output()
    except Exception as e:
        error = f"{type(e).__name__}: {e}"
    names = {}
    return [re.sub(r"\$\d+", lambda m: names.setdefault(m.group(0), f"v{len(names)}"), repr(x)) for x in (raw, got, error)]


def run(plan, ctx):
    import richard
    prefix = list(richard.__path__)[0]
    faults = Faults(ctx)
    root = os.path.join(os.environ["SIM_SCRATCH"], f"c11-{os.getpid()}")
    os.makedirs(root)
    try:
        toy = T.Toy(plan["cfg"], root, faults)
        oracle = T.Oracle(plan["cfg"])
        changes = []
        seen = set()
        for item in plan["ops"]:
            op = item["op"]
            if op[0] == "word" and op[1] in oracle.words:
                continue
            text = T.render(op)
            hook = Interrupter(item["line"]) if "line" in item else None
            faults.arm({item["at"]: item["error"]} if "at" in item else {})
            got = error = None
            try:
                if hook:
                    with LineTracer(hook, prefix):
                        toy.system.enter(toy.request(text))
                        got = toy.system.read_output()
                else:
                    toy.system.enter(toy.request(text))
                    if item["read"]:
                        got = toy.system.read_output()
            except (Exception, SimInterrupt) as e:
                error = e
            fired = list(faults.fired)
            faults.arm({})
            if hook and hook.hit:
                ctx.probe("interrupted")
                ctx.fault("interrupt")
                seen.add("interrupt")
            elif fired:
                ctx.probe("data_fault")
                seen.add("data")
            else:
                if op[0] == "loop":
                    ctx.probe("recursion")
                if op[0] in ("crash", "loop", "quiet", "garbage"):
                    seen.add(op[0])
                    ctx.nontrivial = True
                want = oracle.copy()
                answer = want.answer(op)
                if (item["read"] or error is not None) and not T.matches(answer, got, error):
                    raise Violation("wrong-answer", f"{text!r} answered {got!r} {error!r} after {sorted(seen)}; right: {answer!r}")
                if op[0] in CHANGES:
                    oracle = want
                    changes.append(op)
            ctx.event(op[0], got, type(error).__name__)
        if plan["restart"]:
            ctx.probe("restarted")
            fresh = T.Toy(plan["cfg"], root, faults, shared=toy)
            again = [op for op in changes if op[0] in ("learn", "enter", "leave", "word")]
        else:
            fresh = T.Toy(plan["cfg"], os.path.join(root), Faults(ctx))
            again = changes
        for op in again:
            fresh.ask(T.render(op))
        for op in plan["probes"]:
            text = T.render(op)
            a, b = result_of(toy, text), result_of(fresh, text)
            ctx.probe("compared")
            ctx.state(sorted(seen), op[0])
            ctx.event("probe", op[0], a)
            if a != b:
                raise Violation("history-dependent", f"{text!r} gives {a} after the history with {sorted(seen)}, and {b} in {'a restarted' if plan['restart'] else 'a fresh'} application with the same knowledge")
            c = result_of(toy, text)
            ctx.probe("repeated")
            if a != c:
                raise Violation("history-dependent", f"{text!r} gives {a} the first time and {c} the second time")
    finally:
        shutil.rmtree(root, ignore_errors=True)


def simplify(plan):
    import copy
    for key, value in (("layout", "simple"), ("optimizer", False), ("multilingual", None), ("logging", None)):
        if plan["cfg"][key] != value:
            p = copy.deepcopy(plan)
            p["cfg"][key] = value
            yield p
    if plan["restart"]:
        yield {**copy.deepcopy(plan), "restart": False}
    for i, item in enumerate(plan["ops"]):
        for k in ("at", "line"):
            if k in item:
                p = copy.deepcopy(plan)
                p["ops"][i].pop(k)
                p["ops"][i].pop("error", None)
                yield p


def warm():
    warm_toy()
