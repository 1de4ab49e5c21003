"""C07: the output of a request is that of the request itself, whatever happened to the requests before and around it."""
import os
import random
import shutil

from sim import toy as T
from sim.ctx import SimInterrupt, Violation
from sim.faultds import EXCEPTIONS, Faults
from sim.props.c04 import warm as warm_toy
from sim.sched import LineTracer

ID = "C07"
LEVEL = "exploration"
RUNS = {"quick": 8000, "thorough": 80000}
RUN_TIMEOUT = 60
RULE = ("one case = a dialog of up to 28 steps (enter a request, read output) with one application or with two applications on the same facts; requests fail in the domain, "
        "have no output, are ill-formed, are never read, are read twice, or are cut off by a failing data access or an interrupt (at any line) while entering or reading; "
        "non-trivial = such an event happened before a later read; distinct = distinct event logs")
STATE_MEASURE = "distinct (what happened to the request before, kind of request that was read) pairs"
REAL = ["System", "blocks", "BasicParser", "SemanticComposer", "BasicQueryOptimizer", "AtomExecutor", "Solver", "InferenceModule", "BasicDialogContext", "BasicOutputBuffer",
        "GrammarModule", "BasicGenerator", "Sqlite3DataSource", "SimpleDataSource"]
STUBS = ["data-source wrapper that fails accesses", "domain module and grammar of the simulated application"]
REQUIRED_PROBES = ["unread", "crashed_before", "quiet_before", "fault_in_read_retried", "two_systems_interleaved", "not_understood", "interrupted", "read_twice"]
ASSUMPTIONS = ["a failing access has no effect", "one request at a time is entered and read per output buffer"]
SHRINK_LISTS = ["steps"]

RICHARD = None


def question(op):
    return op[0] in ("isa", "ancestor", "children", "descendants", "count", "which", "howold", "oldest", "total", "ages", "every", "no", "where", "busy", "describe", "garbage", "dutch_isa")


def gen(rng, tier, index):
    cfg = T.gen_config(rng)
    two = rng.random() < 0.3
    steps, words = [], []
    kinds = {"crash": 2.5, "quiet": 2, "garbage": 4, "describe": 5, "ages": 2, "name": 3, "talk": 1}
    open_ = {0: False, 1: False}
    for _ in range(rng.randrange(5, 28)):
        s = rng.randrange(2) if two else 0
        if open_[s] and rng.random() < 0.85:
            step = {"do": "read", "sys": s}
            if not two and rng.random() < 0.2:
                step["error"] = rng.choice(list(EXCEPTIONS))
                step["at"] = rng.randrange(0, 12)
            elif not two and rng.random() < 0.08:
                step["line"] = int(rng.expovariate(1 / 150))
            steps.append(step)
            open_[s] = rng.random() < 0.15 or "at" in step or "line" in step
            continue
        op = T.gen_op(rng, kinds, words)
        if op[0] == "word":
            words.append(op[1])
        step = {"do": "enter", "sys": s, "op": op}
        if not two and rng.random() < 0.15:
            step["error"] = rng.choice(list(EXCEPTIONS))
            step["at"] = rng.choice([0, 1, 2, 3, 5, rng.randrange(0, 20)])
        elif not two and question(op) and rng.random() < 0.12:
            step["line"] = int(rng.expovariate(1 / rng.choice([100, 2000, 10000])))
        steps.append(step)
        open_[s] = True
    return {"cfg": cfg, "two": two, "steps": steps, "shuffle": rng.choice([None, rng.randrange(1 << 30)])}


class Interrupter:
    def __init__(self, line):
        self.left = line
        self.hit = False

    def __call__(self, frame):
        if self.left == 0 and not self.hit:
            self.hit = True
            raise SimInterrupt("interrupted")
        self.left -= 1


def guarded(fn, step, faults):
    """Calls fn with the fault of this step; returns (result, error, fired)"""
    got = error = None
    hook = Interrupter(step["line"]) if "line" in step else None
    faults.arm({step["at"]: step["error"]} if "at" in step else {})
    try:
        if hook:
            with LineTracer(hook, RICHARD):
                got = fn()
        else:
            got = fn()
    except (Exception, SimInterrupt) as e:
        error = e
    fired = list(faults.fired) + ([("interrupt",)] if hook and hook.hit else [])
    faults.arm({})
    return got, error, fired


def run(plan, ctx):
    import richard
    global RICHARD
    RICHARD = list(richard.__path__)[0]
    faults = Faults(ctx)
    if plan["shuffle"] is not None:
        faults.rng = random.Random(plan["shuffle"])
    root = os.path.join(os.environ["SIM_SCRATCH"], f"c07-{os.getpid()}")
    os.makedirs(root)
    try:
        if plan["two"]:
            run_two(plan, ctx, faults, root)
        else:
            run_one(plan, ctx, faults, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def own_text(op, got):
    """A message about a word must be about a word of the sentence."""
    if isinstance(got, str) and got.startswith("Could not understand: "):
        return got[len("Could not understand: "):].removesuffix(" ...").strip() in " ".join(T.render(op).split()) + " "
    return True


def check_answer(belief, op, got, error, ctx, before):
    wrong = belief.expect(op, got, error)
    ctx.state(before, op[0])
    if before != "read":
        ctx.nontrivial = True
    if wrong:
        raise Violation("wrong-answer", f"{T.render(op)!r} (request before: {before}) gave {got!r} {error!r}; right: {wrong[0]!r}")
    if error is None and not own_text(op, got):
        raise Violation("wrong-answer", f"{T.render(op)!r} (request before: {before}) gave {got!r}, which is not about this sentence")


def run_one(plan, ctx, faults, root):
    toy = T.Toy(plan["cfg"], root, faults)
    belief = T.Belief(T.Oracle(plan["cfg"]))
    pending = None      # operation entered and not read
    done = None         # (operation, answer) that was read
    before = "read"     # what happened to the request before the pending one
    last = "read"
    for step in plan["steps"]:
        if step["do"] == "enter":
            op = step["op"]
            if not T.allowed(op, belief):
                continue
            if pending is not None:
                ctx.probe("unread")
                last = "unread"
                # the request was handled
                advance(belief, pending)
            before, last = last, "read"
            pending = done = None
            _, error, fired = guarded(lambda: toy.system.enter(toy.request(T.render(op))), step, faults)
            ctx.event("enter", op[0], type(error).__name__ if error else "")
            if error is not None:
                if ("interrupt",) in fired:
                    ctx.probe("interrupted")
                    ctx.fault("interrupt")
                if fired:
                    last = "fault-in-enter"
                    temp = set(op[1:-1]) if op[0] in ("inbusy", "in2busy") else set(op[1:]) if op[0] == "inwhere" else set()
                    belief.failed(op, temp if fired[0][1:3] == ("delete", "context") else ())
                else:
                    last = "crashed"
                    if op[0] == "crash":
                        ctx.probe("crashed_before")
                    check_answer(belief, op, None, error, ctx, before)
            else:
                if op[0] == "crash" and not fired:
                    raise Violation("wrong-answer", "a request that failed in the domain is not reported as failed")
                pending = op
        else:
            if pending is None:
                if done is None:
                    continue
                got, error, fired = guarded(toy.system.read_output, step, faults)
                ctx.probe("read_twice")
                if error is None and got != done[1] and not fired:
                    raise Violation("wrong-answer", f"reading the output of {T.render(done[0])!r} again gave {got!r}")
                continue
            op = pending
            if op[0] == "quiet":
                ctx.probe("quiet_before")
                got, error, fired = guarded(toy.system.read_output, {}, faults)
                ctx.event("read", op[0], got, bool(error))
                check_answer(belief, op, got, error, ctx, before)
                last, pending = "quiet", None
                continue
            got, error, fired = guarded(toy.system.read_output, step, faults)
            ctx.event("read", op[0], got, bool(error))
            if op[0] == "garbage":
                ctx.probe("not_understood")
            if error is not None and fired:
                if ("interrupt",) in fired:
                    ctx.probe("interrupted")
                    ctx.fault("interrupt")
                    advance(belief, op)
                    last, pending = "interrupt-in-read", None
                else:
                    # nothing was taken from the output: it can be read again
                    ctx.probe("fault_in_read_retried")
                    before = "fault-in-read"
                continue
            check_answer(belief, op, got, error, ctx, before)
            pending, done = None, (op, got)
            last = "garbage" if op[0] == "garbage" else "read"
        if not belief.narrow_rows(toy.raw()) and pending is None:
            raise Violation("wrong-facts", f"after {step} the data sources hold {toy.raw()}, expected {belief.worlds[0].rows()}")
        if pending is None and not belief.narrow_contexts(toy.contexts()):
            raise Violation("wrong-contexts", f"after {step} the active contexts are {toy.contexts()}, expected {sorted(belief.worlds[0].contexts)}")


def advance(belief, op):
    new = []
    for o in belief.worlds:
        o = o.copy()
        o.answer(op)
        new.append(o)
    belief.set(new)


def run_two(plan, ctx, faults, root):
    """Two applications with their own output, on the same facts."""
    a = T.Toy(plan["cfg"], root, faults)
    b = T.Toy(plan["cfg"], root, faults, shared=a)
    toys = [a, b]
    oracles = [T.Oracle(plan["cfg"]), T.Oracle(plan["cfg"])]
    for x in ("names", "facts", "parents", "ages"):
        setattr(oracles[1], x, getattr(oracles[0], x))
    pending = {}
    last = {0: "read", 1: "read"}
    for step in plan["steps"]:
        s = step["sys"]
        if step["do"] == "enter":
            op = step["op"]
            if op[0] == "word" and op[1] in oracles[s].words:
                continue
            if s in pending:
                ctx.probe("unread")
                last[s] = "unread"
            pending.pop(s, None)
            _, error, _ = guarded(lambda: toys[s].system.enter(toys[s].request(T.render(op))), {}, faults)
            want = oracles[s].answer(op)
            ctx.event("enter", s, op[0], type(error).__name__ if error else "")
            if error is not None:
                if op[0] != "crash":
                    raise Violation("wrong-answer", f"{T.render(op)!r} failed with {error!r}; right: {want!r}")
                ctx.probe("crashed_before")
                last[s] = "crashed"
            elif op[0] == "crash":
                raise Violation("wrong-answer", "a request that failed in the domain is not reported as failed")
            else:
                pending[s] = (op, want)
        elif s in pending:
            op, want = pending.pop(s)
            if op[0] == "describe" and isinstance(want, T.OneOf):
                want = oracles[s].answer(op)
            got, error, _ = guarded(toys[s].system.read_output, {}, faults)
            ctx.event("read", s, op[0], got, bool(error))
            if 1 - s in pending:
                ctx.probe("two_systems_interleaved")
                ctx.nontrivial = True
            if op[0] == "garbage":
                ctx.probe("not_understood")
            ctx.state(last[s], op[0], 1 - s in pending)
            last[s] = "quiet" if op[0] == "quiet" else "read"
            if not T.matches(want, got, error) or (error is None and not own_text(op, got)):
                raise Violation("wrong-answer", f"{T.render(op)!r} gave {got!r} {error!r}; right: {want!r}")


def simplify(plan):
    import copy
    for key, value in (("layout", "simple"), ("optimizer", False), ("multilingual", None), ("logging", None)):
        if plan["cfg"][key] != value:
            p = copy.deepcopy(plan)
            p["cfg"][key] = value
            yield p
    if plan["shuffle"] is not None:
        yield {**copy.deepcopy(plan), "shuffle": None}
    for i, step in enumerate(plan["steps"]):
        if "at" in step or "line" in step:
            p = copy.deepcopy(plan)
            for k in ("at", "error", "line"):
                p["steps"][i].pop(k, None)
            yield p


def warm():
    warm_toy()
