"""C18: a dialog test passes exactly when every request was answered as expected."""
import contextlib
import io
import os
import re
import shutil
import time
import unittest

from sim import toy as T
from sim.ctx import SimInterrupt, Violation
from sim.faultds import EXCEPTIONS, Faults
from sim.props.c07 import Interrupter
from sim.sched import LineTracer

ID = "C18"
LEVEL = "exploration"
RUNS = {"quick": 10000, "thorough": 80000}
RUN_TIMEOUT = 60
RULE = ("one case = 1-2 runs of a DialogTester over a random dialog with an application, with right expectations, and expectations that differ from the answer in a character, in type, in order or altogether, while data "
        "accesses fail, the run is interrupted at any line, and the clock jumps; for every logger setting, terminal width, with and without profiling and output; compared with what the same requests give when they are sent "
        "directly; non-trivial = the run has to fail, or the clock jumped; distinct = distinct event logs")
STATE_MEASURE = "distinct (logger setting, profiling, kind of deviation, position) combinations"
REAL = ["DialogTester", "Logger", "System", "blocks", "BasicParser", "SemanticComposer", "AtomExecutor", "Solver", "BasicGenerator", "BasicOutputBuffer", "BasicDialogContext"]
STUBS = ["data-source wrapper that fails accesses", "clock", "standard output", "terminal size", "domain module and grammar of the simulated application"]
REQUIRED_PROBES = ["passed", "wrong_answer", "raised", "data_fault", "interrupted", "clock_back", "profile", "log_all", "log_last", "log_none", "no_output", "empty", "again"]
ASSUMPTIONS = ["requests do not end the process (SystemExit)"]
SHRINK_LISTS = ["ops", "setup"]

WRONG = ["other", "case", "space", "newline", "empty", "none", "number", "listed", "truth", "prefix", "bytes", "printed", "printed", "printed", "repr", "tuple", "equal"]


def gen(rng, tier, index):
    cfg = T.gen_config(rng)
    cfg["logging"] = None
    clean = rng.random() < 0.35
    words = []
    setup = [T.gen_op(rng, {**{k: 0 for k in T.KINDS}, "tell": 8, "parent": 4, "age": 4, "learn": 2}) for _ in range(rng.randrange(0, 7))]
    ops = []
    many = rng.random() < 0.01
    for _ in range(rng.choice([30, 70]) if many else rng.choice([0, 1, 1, 2, 3, 5, 8])):
        weights = {"crash": 0, "quiet": 0, "loop": 0} if clean or rng.random() < 0.8 else {"crash": 6, "quiet": 4, "loop": 1}
        op = T.gen_op(rng, {**weights, "talk": 0, "ages": 4, "count": 4}, words)
        if op[0] == "word":
            words.append(op[1])
        item = {"op": op}
        if not clean and rng.random() < (0.02 if many else 0.15):
            item["wrong"] = rng.choice(WRONG)
        ops.append(item)
    if ops and rng.random() < 0.2:
        # the last test occurs twice
        ops.insert(0, dict(ops[-1]))
    plan = {"cfg": cfg, "setup": setup, "ops": ops, "which": rng.choice(["all", "last", "none", "default"]), "products": rng.choice([None, None, "all", "parser", "composer", "executor"]),
            "stats": rng.random() < 0.4, "profile": rng.random() < 0.25, "generator": rng.random() < 0.85, "columns": rng.choice([None, "0", "1", "12", "80", "500", "x"]),
            "clock": [rng.choice([0, 0, 1e-9, 0.001, 1.5, -3.0, 1e9, -1e9]) for _ in range(rng.randrange(1, 6))], "times": 2 if rng.random() < 0.25 else 1}
    if not clean and rng.random() < 0.3:
        plan["at"] = int(rng.expovariate(1 / 12))
        plan["error"] = rng.choice(list(EXCEPTIONS))
    elif not clean and rng.random() < 0.15:
        plan["line"] = int(rng.expovariate(1 / rng.choice([20, 3000, 30000])))
    return plan


class Printed:
    """Something that is printed like the answer."""

    def __init__(self, value):
        self.value = value

    def __str__(self):
        return str(self.value)

    def __repr__(self):
        return repr(self.value)


def wrong(kind, output):
    """A value that is not equal to the output."""
    text = output if isinstance(output, str) else "table"
    value = {
        "other": lambda: "something else", "case": lambda: text.swapcase(), "space": lambda: text + " ", "newline": lambda: text + "\n", "empty": lambda: "", "none": lambda: None,
        # printed in the same way
        "printed": lambda: int(text) if text.isdigit() else str(output) if not isinstance(output, str) else Printed(text), "repr": lambda: repr(output),
        "tuple": lambda: tuple(output), "equal": lambda: Printed(output),
        "number": lambda: int(text) if text.isdigit() else 0, "listed": lambda: [output], "truth": lambda: True, "prefix": lambda: text[:-1], "bytes": lambda: text.encode()}[kind]()
    return value if value != output else "something else"


def run(plan, ctx):
    scratch = f"/tmp/simrun-{os.getpid()}"
    os.makedirs(scratch, exist_ok=True)
    old = os.environ.get("COLUMNS")
    clock = time.perf_counter
    try:
        if plan["columns"] is None:
            os.environ.pop("COLUMNS", None)
        else:
            os.environ["COLUMNS"] = plan["columns"]
        jumps = list(plan["clock"])
        state = {"now": 1000.0, "n": 0}

        def now():
            step = jumps[state["n"] % len(jumps)]
            state["n"] += 1
            state["now"] += step
            ctx.sim_time += abs(step) if abs(step) < 1000 else 0
            if step < 0:
                ctx.probe("clock_back")
                ctx.fault("clock_back")
            return state["now"]

        time.perf_counter = now
        run_dialog(plan, ctx, scratch)
    finally:
        time.perf_counter = clock
        if old is None:
            os.environ.pop("COLUMNS", None)
        else:
            os.environ["COLUMNS"] = old
        shutil.rmtree(scratch, ignore_errors=True)


def application(plan, ctx, scratch):
    from richard.core.System import System
    faults = Faults(ctx)
    toy = T.Toy(plan["cfg"], scratch, faults)
    for op in plan["setup"]:
        toy.ask(T.render(op))
    if not plan["generator"]:
        toy.system = System(model=toy.model, input_pipeline=toy.system.reader_pipeline)
    faults.arm({plan["at"]: plan["error"]} if "at" in plan else {})
    return toy, faults




def run_dialog(plan, ctx, scratch):
    import richard
    from richard.core.DialogTester import DialogTester
    from richard.core.Logger import Logger
    from richard.entity.SentenceRequest import SentenceRequest
    prefix = list(richard.__path__)[0]

    # what the application does with the requests
    twin, _ = application(plan, ctx, scratch)
    toy, faults = application(plan, ctx, scratch)
    ctx.faults.clear()
    expected_runs = []
    tests = None
    for _ in range(plan["times"]):
        outcomes = []
        for item in plan["ops"]:
            text = T.render(item["op"])
            try:
                twin.system.enter(SentenceRequest(text))
                outcomes.append(("output", twin.system.read_output() if plan["generator"] else ""))
            except (Exception, SimInterrupt) as e:
                outcomes.append(("raised", type(e), str(e)))
            o = outcomes[-1]
            # a run ends at the first deviation; later requests are not sent
            if o[0] == "raised" or item.get("wrong") or (tests is not None and o[1] != tests[len(outcomes) - 1][1]):
                break
        if tests is None:
            tests = []
            for i, item in enumerate(plan["ops"]):
                if i < len(outcomes) and outcomes[i][0] == "output":
                    out = outcomes[i][1]
                    tests.append([T.render(item["op"]), wrong(item["wrong"], out) if item.get("wrong") else out])
                else:
                    tests.append([T.render(item["op"]), "never reached"])
        expected_runs.append(outcomes)

    logger = Logger()
    {"all": logger.log_all_tests, "last": logger.log_only_last_test, "none": logger.log_no_tests, "default": lambda: None}[plan["which"]]()
    ctx.probe({"default": "log_last"}.get(plan["which"], "log_" + plan["which"]))
    if plan["products"]:
        processors = {"all": [], "parser": [toy.parser], "composer": [toy.composer], "executor": [toy.executor]}[plan["products"]]
        logger.log_products(*processors)
    if plan["stats"]:
        logger.log_stats()
    case = unittest.TestCase()
    case.maxDiff = None
    entered = []
    enter = toy.system.enter

    def counted(request):
        entered.append(request.text)
        return enter(request)
    toy.system.enter = counted
    given = [tuple(t) for t in tests]
    tester = DialogTester(case, list(given), toy.system, logger, plan["profile"])
    if plan["profile"]:
        ctx.probe("profile")
    if not plan["generator"]:
        ctx.probe("no_output")
    if not tests:
        ctx.probe("empty")
    for n, outcomes in enumerate(expected_runs):
        if n:
            ctx.probe("again")
        del entered[:]
        logger.entries.clear()
        error = None
        printed = io.StringIO()
        hook = Interrupter(plan.get("line") if n == 0 else None)
        try:
            with contextlib.redirect_stdout(printed):
                if "line" in plan and n == 0:
                    with LineTracer(hook, prefix):
                        tester.run()
                else:
                    tester.run()
        except (Exception, SimInterrupt) as e:
            error = e
        printed = printed.getvalue()
        if faults.fired:
            ctx.probe("data_fault")
        # the first deviation
        at, why = None, None
        for i, o in enumerate(outcomes):
            if o[0] == "raised":
                at, why = i, "raised"
            elif o[1] != tests[i][1]:
                at, why = i, "wrong"
            if why:
                break
        ctx.event("run", n, [str(o[1])[:60] for o in outcomes], at, why, type(error).__name__, len(entered))
        ctx.state(plan["which"], plan["profile"], why, at, plan["ops"][at].get("wrong") if at is not None else None, plan["generator"])
        where = f"run {n + 1} of the tests {tests} (log {plan['which']}, products {plan['products']}, profile {plan['profile']})"
        if hook.hit:
            ctx.probe("interrupted")
            ctx.fault("interrupt")
            if not isinstance(error, SimInterrupt):
                raise Violation("interrupt-lost", f"{where} was interrupted but ended with {error!r}")
            return
        if why is None:
            ctx.probe("passed")
            if error is not None:
                raise Violation("false-alarm", f"{where} failed with {type(error).__name__}: {error}; the outputs are {[o[1] for o in outcomes]}")
            if entered != [t[0] for t in tests]:
                raise Violation("skipped", f"{where}: the requests that were sent are {entered}")
        else:
            ctx.nontrivial = True
            ctx.probe("wrong_answer" if why == "wrong" else "raised")
            if error is None:
                raise Violation("missed", f"{where} passed; test {at + 1} gives {outcomes[at][1:]}")
            if entered != [t[0] for t in tests[:at + 1]]:
                raise Violation("late", f"{where}: test {at + 1} deviates, the requests that were sent are {entered}")
            if why == "wrong":
                if not isinstance(error, AssertionError):
                    raise Violation("other-error", f"{where}: test {at + 1} gives {outcomes[at][1]!r}, reported as {type(error).__name__}: {error}")
                if str(outcomes[at][1]) not in printed:
                    raise Violation("not-shown", f"{where}: test {at + 1} gives {outcomes[at][1]!r}, printed is {printed[-600:]!r}")
            elif type(error) is not outcomes[at][1] or (not isinstance(error, RecursionError) and str(error) != outcomes[at][2]):
                raise Violation("other-error", f"{where}: test {at + 1} raises {outcomes[at][1:]}, reported as {type(error).__name__}: {error}")
        check_log(plan, ctx, tests, at, why, logger, where)


def check_log(plan, ctx, tests, at, why, logger, where):
    """Which requests and answers are in the log."""
    text = re.sub(r"\033\[\d+m", "", str(logger))
    done = tests if at is None else tests[:at + 1]
    humans = re.findall(r"^\[Human\] (.*)$", text, re.M)
    computers = len(re.findall(r"^\[Computer\]", text, re.M))
    last = tests[-1] if tests else None
    if plan["which"] == "all":
        want = [t[0] for t in done]
        if humans != [w for w in want if "\n" not in w]:
            raise Violation("log", f"{where}: the log holds the requests {humans}")
        if computers != len(done) - (why == "raised"):
            raise Violation("log", f"{where}: the log holds {computers} answers")
    elif plan["which"] == "none":
        if humans or computers != (why == "wrong"):
            raise Violation("log", f"{where}: the log holds the requests {humans} and {computers} answers")
    else:
        # equal to the last test
        least = [last[0]] if last and at is None else []
        most = [t[0] for t in done if t == last]
        if not (len(least) <= len(humans) <= len(most)) or any(h not in most for h in humans):
            raise Violation("log", f"{where}: the log holds the requests {humans}")


def simplify(plan):
    import copy
    for key, value in (("stats", False), ("products", None), ("profile", False), ("columns", "80"), ("clock", [0]), ("times", 1), ("which", "none")):
        if plan[key] != value:
            yield {**copy.deepcopy(plan), key: value}
    for key in ("at", "line"):
        if key in plan:
            p = copy.deepcopy(plan)
            del p[key]
            yield p
    for i, item in enumerate(plan["ops"]):
        if item.get("wrong") not in (None, "other"):
            p = copy.deepcopy(plan)
            p["ops"][i]["wrong"] = "other"
            yield p


def warm():
    from sim.props import c11
    c11.warm_toy()
    import cProfile, richard.core.DialogTester  # noqa
