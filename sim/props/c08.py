"""C08: a context is active exactly while it should be."""
import os

from sim.ctx import SimInterrupt, Violation
from sim.faultds import EXCEPTIONS, FaultDS, Faults
from sim.props import c04

ID = "C08"
LEVEL = "exploration"
RUNS = {"quick": 20000, "thorough": 150000}
RUN_TIMEOUT = 60
RULE = ("one case = a history of goals on one dialog context, with randomly nested with_context, start_context, end_context, quantifiers, disjunctions, rules, failing atoms and failing data "
        "accesses; or a dialog in which requests start, end and use contexts; non-trivial = a scope was left by a failure or a data access failed; distinct = distinct event logs")
STATE_MEASURE = "distinct (program shape, active contexts at the end, how it ended)"
REAL = ["BasicDialogContext", "SimpleMemoryModule", "Sqlite3DataSource", "CoreModule", "InferenceModule", "Solver", "and for dialogs the components of C04"]
STUBS = ["data-source wrapper that fails accesses", "module with atoms that fail, do not hold, hold several times, and observe the active contexts"]
REQUIRED_PROBES = ["left_by_failure", "nested_same_name", "delete_fault", "other_fault", "failing_inside_with", "with_each"]
ASSUMPTIONS = ["start_context and end_context of a name do not occur inside a with_context of that name", "a failing access has no effect"]
SHRINK_LISTS = ["goals", "ops"]

CONTEXTS = ["kitchen", "garden", "it's", "", "\u00e9t\u00e9 x", "Kitchen", "gar_en", "%"]


class Bang(Exception):
    pass


def gen_body(rng, depth, inside, budget):
    return [gen_atom(rng, depth, inside, budget) for _ in range(rng.choice([1, 1, 2, 2, 3]))]


def gen_atom(rng, depth, inside, budget):
    budget[0] -= 1
    x = rng.random()
    free = [c for c in CONTEXTS if c not in inside]
    if depth < 4 and budget[0] > 0:
        if x < 0.28:
            name = rng.choice(CONTEXTS)
            return ["with", name, gen_body(rng, depth + 1, inside | {name}, budget)]
        if x < 0.34:
            names = rng.sample(CONTEXTS, rng.randrange(0, 4))
            return ["each", names, gen_body(rng, depth + 1, inside | set(names), budget)]
        if x < 0.39:
            return ["not", gen_body(rng, depth + 1, inside, budget)]
        if x < 0.44:
            return ["scoped", gen_body(rng, depth + 1, inside, budget)]
        if x < 0.50:
            return ["or", [gen_body(rng, depth + 1, inside, budget) for _ in range(rng.randrange(1, 4))]]
        if x < 0.54:
            return ["rule", gen_body(rng, depth + 1, inside, budget)]
        if x < 0.57:
            return ["count", gen_body(rng, depth + 1, inside, budget)]
    if x < 0.64 and free:
        return ["start", rng.choice(free)]
    if x < 0.70 and free:
        return ["end", rng.choice(free)]
    if x < 0.74:
        return ["raise"]
    if x < 0.79:
        return ["false"]
    if x < 0.84:
        return ["many", rng.randrange(1, 4)]
    if x < 0.90:
        return ["active", rng.choice(CONTEXTS)]
    return ["probe"]


def gen(rng, tier, index):
    if rng.random() < 0.12:
        plan = c04.gen(rng, tier, index, {"enter": 10, "leave": 7, "where": 6, "busy": 8, "inbusy": 9, "in2busy": 6, "inwhere": 6, "crash": 1})
        return {"mode": "dialog", **plan}
    goals = []
    for _ in range(rng.randrange(1, 7)):
        goal = {"atoms": gen_body(rng, 0, frozenset(), [14])}
        if rng.random() < 0.4:
            goal["at"] = rng.randrange(0, 12)
            goal["error"] = rng.choice(list(EXCEPTIONS))
        goals.append(goal)
    return {"mode": "goals", "goals": goals}


class Model:
    """What the goals mean."""

    def __init__(self, active):
        self.active = set(active)       # everything that is active
        self.started = set(active)      # without the contexts of enclosing scopes
        self.probes = []
        self.history = [set(active)]    # of `started`

    def solve(self, atoms):
        """The number of results."""
        if not atoms:
            return 1
        first, rest = atoms[0], atoms[1:]
        total = 0
        if first[0] == "each":
            for name in first[1]:
                self.scope(name, first[2])
                total += self.solve(rest)
            return total
        n = self.single(first)
        for _ in range(n):
            total += self.solve(rest)
        return total

    def scope(self, name, body):
        if name in self.active:
            self.solve(body)
            return
        self.active.add(name)
        try:
            self.solve(body)
        finally:
            self.active.discard(name)

    def single(self, atom):
        kind, a = atom[0], atom[1:]
        if kind == "with":
            self.scope(a[0], a[1])
            return 1
        if kind == "not":
            return 0 if self.solve(a[0]) else 1
        if kind == "scoped":
            return 1 if self.solve(a[0]) else 0
        if kind == "rule":
            return 1 if self.solve(a[0]) else 0
        if kind == "count":
            self.solve(a[0])
            return 1
        if kind == "or":
            for body in a[0]:
                n = self.solve(body)
                if n:
                    return n
            return 0
        if kind == "start":
            self.active.add(a[0])
            self.started.add(a[0])
            self.history.append(set(self.started))
            return 1
        if kind == "end":
            self.active.discard(a[0])
            self.started.discard(a[0])
            self.history.append(set(self.started))
            return 1
        if kind == "raise":
            raise Bang("bang")
        if kind == "false":
            return 0
        if kind == "many":
            return a[0]
        if kind == "active":
            return 1 if a[0] in self.active else 0
        if kind == "probe":
            self.probes.append(sorted(self.active))
            return 1
        raise ValueError(kind)


def names_in(atoms, out):
    for atom in atoms:
        if atom[0] == "with":
            out.add(atom[1])
        if atom[0] == "each":
            out.update(atom[1])
        for x in atom[1:]:
            if isinstance(x, list) and x and isinstance(x[0], list):
                if isinstance(x[0][0], list):
                    for b in x:
                        names_in(b, out)
                else:
                    names_in(x, out)
    return out


def nested_same(atoms, inside=frozenset()):
    for atom in atoms:
        if atom[0] == "with":
            if atom[1] in inside or nested_same(atom[2], inside | {atom[1]}):
                return True
        elif atom[0] == "or":
            if any(nested_same(b, inside) for b in atom[1]):
                return True
        elif atom[0] in ("not", "scoped", "rule", "count"):
            if nested_same(atom[1], inside):
                return True
    return False


def raise_inside(atoms, inside=False):
    for atom in atoms:
        if atom[0] == "raise" and inside:
            return True
        if atom[0] in ("with", "each") and raise_inside(atom[2], True):
            return True
        if atom[0] == "or" and any(raise_inside(b, inside) for b in atom[1]):
            return True
        if atom[0] in ("not", "scoped", "rule", "count") and raise_inside(atom[1], inside):
            return True
    return False


def shape(atoms):
    return [[a[0]] + [shape(x) for x in a[1:] if isinstance(x, list) and x and isinstance(x[0], list) and isinstance(x[0][0], str)] for a in atoms]


def run(plan, ctx):
    if plan["mode"] == "dialog":
        c04.run(plan, ctx)
    else:
        run_goals(plan, ctx)


def run_goals(plan, ctx):
    from richard.core.Model import Model as RichardModel
    from richard.core.Solver import Solver
    from richard.core.constants import DISJUNCTION
    from richard.entity.Relation import Relation
    from richard.entity.Variable import Variable
    from richard.interface.SomeModule import SomeModule
    from richard.module.BasicDialogContext import BasicDialogContext
    from richard.module.InferenceModule import InferenceModule
    from richard.type.InferenceRule import InferenceRule

    faults = Faults(ctx)
    faults.enabled = False
    seen = []
    lists = {}

    class Probe(SomeModule):
        def __init__(self):
            super().__init__()
            for name in ("bang", "never", "several", "look", "element"):
                self.add_relation(Relation(name, query_function=getattr(self, name)))

        def bang(self, values, context):
            raise Bang("bang")

        def never(self, values, context):
            return []

        def several(self, values, context):
            return [[values[0], i] for i in range(values[0])]

        def look(self, values, context):
            seen.append(contexts())
            return [[]]

        def element(self, values, context):
            return [[values[0], name] for name in lists[values[0]]]

    class Dialog(BasicDialogContext):
        def clear(self):
            super().clear()
            self.data_source = FaultDS(self.data_source, faults)

    dialog = Dialog()
    inferences = InferenceModule()
    solver = Solver(RichardModel([dialog, Probe(), inferences]))
    counter = [0]

    def contexts():
        return sorted({r[0] for r in dialog.data_source.inner.select("context", ["name"], [None])})

    def build(atoms):
        out = []
        for atom in atoms:
            counter[0] += 1
            n = counter[0]
            kind, a = atom[0], atom[1:]
            if kind == "with":
                out.append(("with_context", a[0], build(a[1])))
            elif kind == "each":
                lists[n] = list(a[0])
                v = Variable(f"N{n}")
                # the name is taken from a variable
                out.append(("element", n, v))
                out.append(("with_context", v, build(a[1])))
            elif kind == "not":
                out.append(("not", build(a[0])))
            elif kind == "scoped":
                out.append(("scoped", build(a[0])))
            elif kind == "count":
                out.append(("count", Variable(f"C{n}"), build(a[0])))
            elif kind == "rule":
                inferences.insert_rule(InferenceRule((f"rule{n}",), build(a[0])))
                out.append((f"rule{n}",))
            elif kind == "or":
                out.append((DISJUNCTION, [build(b) for b in a[0]]))
            elif kind == "start":
                out.append(("start_context", a[0]))
            elif kind == "end":
                out.append(("end_context", a[0]))
            elif kind == "raise":
                out.append(("bang",))
            elif kind == "false":
                out.append(("never",))
            elif kind == "many":
                out.append(("several", a[0], Variable(f"M{n}")))
            elif kind == "active":
                out.append(("context", a[0]))
            else:
                out.append(("look",))
        return out

    for goal in plan["goals"]:
        before = set(contexts())
        model = Model(before)
        error = want_error = None
        try:
            want = model.solve(goal["atoms"]) > 0
        except Bang:
            want_error = True
            want = None
        atoms = build(goal["atoms"])
        seen.clear()
        faults.arm({goal["at"]: goal["error"]} if "at" in goal else {})
        faults.enabled = True
        got = None
        try:
            got = len(solver.solve(atoms)) > 0
        except (Exception, SimInterrupt) as e:
            error = e
        faults.enabled = False
        fired = list(faults.fired)
        after = contexts()
        if nested_same(goal["atoms"]):
            ctx.probe("nested_same_name")
        if any(a[0] == "each" for a in goal["atoms"]):
            ctx.probe("with_each")
        if raise_inside(goal["atoms"]):
            ctx.probe("failing_inside_with")
        ctx.event(shape(goal["atoms"]), got, type(error).__name__, after, seen)
        ctx.state(shape(goal["atoms"]), after, type(error).__name__, fired)
        if fired:
            ctx.probe("delete_fault" if fired[0][1] == "delete" else "other_fault")
            if error is None:
                raise Violation("failure-hidden", f"the access {fired} failed but {goal['atoms']} succeeded: {got}")
            if seen != model.probes[:len(seen)]:
                raise Violation("wrong-context-during", f"{goal['atoms']} with failing {fired}: active contexts at the probes {seen}, expected a prefix of {model.probes}")
            extra = names_in(goal["atoms"], set()) if fired[0][1] == "delete" else set()
            if not any(state <= set(after) and set(after) - state <= extra for state in model.history):
                raise Violation("wrong-context-after-failure", f"{goal['atoms']} with failing {fired}, started with {sorted(before)}: after it {after} is active")
            # go on from a known state
            for name in after:
                dialog.data_source.inner.delete("context", ["name"], [name])
            continue
        if want_error:
            ctx.probe("left_by_failure")
            ctx.nontrivial = True
        if bool(error) != bool(want_error) or (error is not None and not isinstance(error, Bang)):
            raise Violation("wrong-outcome", f"{goal['atoms']} ended with {error!r}, expected {'a failure' if want_error else 'success'}")
        if seen != model.probes:
            raise Violation("wrong-context-during", f"{goal['atoms']}, started with {sorted(before)}: active contexts at the probes {seen}, expected {model.probes}")
        if after != sorted(model.started):
            raise Violation("wrong-context-after", f"{goal['atoms']}, started with {sorted(before)}: after it {after} is active, expected {sorted(model.started)} ({'it failed' if error else 'it ended normally'})")
        if error is None and got != want:
            raise Violation("wrong-result", f"{goal['atoms']}, started with {sorted(before)}: {'holds' if got else 'does not hold'}")


def simplify(plan):
    import copy
    if plan["mode"] == "dialog":
        yield from ({"mode": "dialog", **p} for p in c04.simplify(plan))
        return

    def smaller(atoms):
        for i, atom in enumerate(atoms):
            if len(atoms) > 1:
                yield atoms[:i] + atoms[i + 1:]
            inner = {"with": 2, "each": 2, "not": 1, "scoped": 1, "rule": 1, "count": 1}.get(atom[0])
            if inner:
                for body in smaller(atom[inner]):
                    yield atoms[:i] + [atom[:inner] + [body] + atom[inner + 1:]] + atoms[i + 1:]
                if atom[0] in ("not", "scoped", "rule", "count"):
                    yield atoms[:i] + atom[inner] + atoms[i + 1:]
            elif atom[0] == "or":
                for j, b in enumerate(atom[1]):
                    if len(atom[1]) > 1:
                        yield atoms[:i] + [["or", atom[1][:j] + atom[1][j + 1:]]] + atoms[i + 1:]
                    for body in smaller(b):
                        yield atoms[:i] + [["or", atom[1][:j] + [body] + atom[1][j + 1:]]] + atoms[i + 1:]

    for i, goal in enumerate(plan["goals"]):
        if "at" in goal:
            p = copy.deepcopy(plan)
            p["goals"][i] = {"atoms": goal["atoms"]}
            yield p
        for atoms in smaller(goal["atoms"]):
            p = copy.deepcopy(plan)
            p["goals"][i]["atoms"] = atoms
            yield p


def warm():
    c04.warm()
