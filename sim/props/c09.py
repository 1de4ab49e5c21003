"""C09: the alternatives of a sentence are tried in order, and the outcome is that of the first (each, best) alternative that works."""
from sim.ctx import Violation
from sim.sched import LineTracer, Sched, current_task, gen_spots, gen_switches

ID = "C09"
LEVEL = "exploration"
RUNS = {"quick": 18000, "thorough": 120000}
RUN_TIMEOUT = 60
RULE = ("one case = a pipeline of 1-5 random blocks (FindOne, FindAll, TryFirst, possibly language selection) through which 1-4 tasks send requests with random trees of "
        "alternatives, of which some fail with an error, and some raise an exception; tasks are switched at any line of the code under test; non-trivial = an alternative failed or tasks were "
        "switched; distinct = distinct event logs")
STATE_MEASURE = "distinct (blocks, shape of the tree of alternatives, outcome)"
REAL = ["System", "FindOne", "FindAll", "TryFirst", "Succeed", "SentenceRequest", "LanguageSelector", "Multilingual", "Logger", "Solver", "Model"]
STUBS = ["processors that return scripted alternatives", "module that records the output"]
REQUIRED_PROBES = ["backtracked", "all_failed", "raised", "interleaved", "multilingual", "find_all_partly_failed", "try_first_failed"]
ASSUMPTIONS = ["a processor returns alternatives or an error"]
SHRINK_LISTS = ["tasks", "switches", "spots"]
KEEP_ONE = ["tasks"]

ERRORS = ["unknown_word", "no_sentence", "not_understood", "name_not_found"]
ARGS = {"unknown_word": 1, "no_sentence": 0, "not_understood": 0, "name_not_found": 1}


def gen_node(rng, depth, levels, budget, p_err):
    budget[0] -= 1
    x = rng.random()
    if x < p_err:
        error = rng.choice(ERRORS)
        return {"err": error, "args": [f"w{rng.randrange(1000)}" for _ in range(ARGS[error])]}
    if x < p_err + 0.02:
        return {"raise": f"x{rng.randrange(1000)}"}
    n = rng.choice([1, 1, 1, 2, 2, 3, 4]) if budget[0] > 0 else 1
    return {"products": [gen_node(rng, depth + 1, levels, budget, p_err) if depth + 1 < levels else None for _ in range(n)]}


def gen(rng, tier, index):
    multilingual = rng.random() < 0.3
    levels = rng.randrange(1, 5)
    blocks = [rng.choice(["FindOne", "FindOne", "FindAll", "TryFirst"]) for _ in range(levels)]
    locales = rng.sample(["en", "nl", "fr", "de"], rng.randrange(1, 4)) if multilingual else None
    if multilingual:
        blocks[0:0] = [rng.choice(["FindOne", "FindOne", "FindAll", "TryFirst"])]
    tasks = []
    several = rng.random() < 0.5
    for _ in range(rng.randrange(2, 5) if several else 1):
        requests = []
        for _ in range(rng.randrange(1, 3) if several else rng.randrange(1, 4)):
            p_err = rng.choice([0.1, 0.35, 0.6])
            if multilingual:
                requests.append({"products": [gen_node(rng, 0, levels, [8], p_err) for _ in locales]})
            else:
                requests.append(gen_node(rng, 0, levels, [12], p_err))
        if not multilingual and rng.random() < 0.03:
            # very many alternatives
            requests[0] = {"products": [gen_node(rng, 1, levels, [2], 0.9) if levels > 1 else None for _ in range(rng.choice([12, 30, 70]))]}
        tasks.append(requests)
    return {"blocks": blocks, "locales": locales, "missing": rng.random() < 0.1, "tasks": tasks, "spots": gen_spots(rng, 4, ["FindOne.py", "FindAll.py", "TryFirst.py", "SentenceRequest.py", "System.py", "LanguageSelector.py", "Multilingual.py"]) if several else [], "switches": gen_switches(rng, rng.randrange(0, 25), 120) if several else [],
            "log": rng.random() < 0.3, "same_names": rng.random() < 0.25}


# --- what should happen

class Raised(Exception):
    pass


class Reference:
    def __init__(self, plan):
        self.blocks = plan["blocks"]
        self.plan = plan
        self.calls = []
        self.success = []
        self.alternatives = {}
        self.path = []

    def block(self, i, node):
        """Returns None for success, or an error."""
        if i == len(self.blocks):
            self.success.append(tuple(self.path))
            return None
        self.calls.append((i, tuple(self.path)))
        if self.plan["locales"] and i == 1:
            if self.plan["missing"] and self.plan["locales"][self.path[0]] == self.plan["locales"][-1]:
                self.calls.pop()
                raise Raised("No processor available for locale " + self.plan["locales"][self.path[0]])
        if "raise" in node:
            raise Raised(node["raise"])
        if "err" in node:
            return (node["err"], tuple(node["args"]))
        kind = self.blocks[i]
        paths = [tuple(self.path) + (j,) for j in range(len(node["products"]))]
        self.alternatives[i] = (self.alternatives.get(i, []) if kind == "FindAll" else []) + paths
        first, success = None, False
        for j, child in enumerate(node["products"]):
            self.path.append(j)
            error = self.block(i + 1, child)
            self.path.pop()
            if error is None:
                success = True
                if kind == "FindOne":
                    return None
            elif first is None:
                first = error
            if kind == "TryFirst":
                return error
        return None if success else first


def run(plan, ctx):
    import richard
    from richard.block.FindAll import FindAll
    from richard.block.FindOne import FindOne
    from richard.block.TryFirst import TryFirst
    from richard.core.Logger import Logger
    from richard.core.Model import Model
    from richard.core.System import System
    from richard.entity.ProcessResult import ProcessResult
    from richard.entity.Relation import Relation
    from richard.entity.SentenceRequest import SentenceRequest
    from richard.interface.Product import SomeProduct
    from richard.interface.SomeModule import SomeModule
    from richard.interface.SomeProcessor import SomeProcessor
    from richard.processor.language_selector.LanguageSelector import LanguageSelector
    from richard.processor.language_selector.Multilingual import Multilingual

    prefix = list(richard.__path__)[0]
    sched = Sched(plan["switches"], ctx, spots=plan.get("spots"))
    sched.log_switches = True
    logs = {}       # request text -> calls
    written = {}    # task name -> atoms

    class Product(SomeProduct):
        def __init__(self, node, path):
            self.node = node
            self.path = path

        def log(self, logger):
            logger.add(str(self.path))

        def get_output(self):
            return self.path

    class Scripted(SomeProcessor):
        def __init__(self, index, locale=None):
            super().__init__()
            self.index = index
            self.locale = locale

        def get_name(self):
            return "P" if plan.get("same_names") else f"P{self.index}"

        def process(self, request):
            sched.yield_point("processor")
            seen = []
            node = roots[request.text]
            for i in range(self.index):
                product = request.get_current_product(processors[i])
                if i == 0 and selector:
                    j = plan["locales"].index(product.locale)
                    node = node["products"][j]
                    seen.append(j)
                else:
                    node = product.node
                    seen.append(product.path[-1])
                    if tuple(seen) != product.path:
                        raise Violation("stale-product", f"processor {self.index} sees {product.path} of processor {i}, but earlier choices were {seen}")
            if self.locale is not None and self.locale != request.get_current_product(selector).locale:
                raise Violation("wrong-language", f"processor of {self.locale} called for {request.get_current_product(selector).locale}")
            logs[request.text].append((self.index, tuple(seen)))
            if "raise" in node:
                raise Raised(node["raise"])
            if "err" in node:
                return ProcessResult([], node["err"], list(node["args"]))
            return ProcessResult([Product(child, tuple(seen) + (j,)) for j, child in enumerate(node["products"])], "")

        def log_product(self, product, logger):
            logger.add("product")

    class Recorder(SomeModule):
        def __init__(self):
            super().__init__()
            for name in ["output_type"] + ["output_" + e for e in ERRORS]:
                self.add_relation(Relation(name, query_function=self.none, write_function=self.write))

        def none(self, values, context):
            return []

        def write(self, values, context):
            written[current_task().name].append((context.relation.predicate, *values))

    selector = None
    processors = []
    if plan["locales"]:
        selector = LanguageSelector(list(plan["locales"]))
        processors.append(selector)
        available = plan["locales"][:-1] if plan["missing"] else plan["locales"]
    for i in range(len(processors), len(plan["blocks"])):
        if selector and i == 1:
            processors.append(Multilingual({locale: Scripted(i, locale) for locale in available}, selector))
        else:
            processors.append(Scripted(i))
    kinds = {"FindOne": FindOne, "FindAll": FindAll, "TryFirst": TryFirst}
    system = System(model=Model([Recorder()]), input_pipeline=[kinds[k](p) for k, p in zip(plan["blocks"], processors)])

    roots, results = {}, []

    def task_body(t, requests):
        def body():
            with LineTracer(lambda frame: sched.yield_point(frame=frame), prefix):
                for r, root in enumerate(requests):
                    text = f"t{t}r{r}"
                    roots[text], logs[text] = root, []
                    written[f"t{t}"] = []
                    logger = Logger()
                    logger.log_all_tests()
                    logger.log_products()
                    request = SentenceRequest(text, logger=logger) if plan["log"] else SentenceRequest(text)
                    got = error = None
                    try:
                        got = system.enter(request)
                    except Exception as e:
                        error = e
                    results.append((text, root, request, got, error, list(written[f"t{t}"])))
        return body

    for t, requests in enumerate(plan["tasks"]):
        sched.spawn(f"t{t}", task_body(t, requests))
    sched.run()
    if sched.preemptions:
        ctx.probe("interleaved")
        ctx.nontrivial = True
        ctx.fault("preemption")
    if selector:
        ctx.probe("multilingual")

    for text, root, request, got, error, stored in results:
        ref = Reference(plan)
        want_error = outcome = None
        if selector:
            ref.calls = []
        try:
            outcome = ref.block(0, root)
        except Raised as e:
            want_error = e
        calls = [c for c in ref.calls if not (selector and c[0] == 0)]
        ctx.event(text, calls, outcome, ref.success, want_error)
        ctx.state(plan["blocks"], calls, outcome, str(want_error))
        if len(calls) > len(plan["blocks"]):
            ctx.probe("backtracked")
            ctx.nontrivial = True
        if logs[text] != calls:
            raise Violation("wrong-order", f"{plan['blocks']} with alternatives {root}: processors were called {logs[text]}, expected {calls}")
        if want_error is not None:
            ctx.probe("raised")
            ctx.fault("processor raises")
            if error is None or str(error) != str(want_error):
                raise Violation("wrong-outcome", f"{plan['blocks']} with alternatives {root} gave {got!r} {error!r}, expected exception {want_error!r}")
            continue
        if error is not None:
            raise Violation("wrong-outcome", f"{plan['blocks']} with alternatives {root} failed with {error!r}")
        if outcome is not None:
            ctx.probe("all_failed")
            ctx.fault("alternative fails")
            if "TryFirst" in plan["blocks"]:
                ctx.probe("try_first_failed")
            want = [("output_type", outcome[0]), ("output_" + outcome[0], *outcome[1])]
            if got is not None or stored != want:
                raise Violation("wrong-error", f"{plan['blocks']} with alternatives {root} returned {got!r} and stored {stored}, expected the first error {want}")
            continue
        if "FindAll" in plan["blocks"] and len(ref.success) < len(ref.calls):
            ctx.probe("find_all_partly_failed")
        want = ref.success[-1]
        if selector and len(plan["blocks"]) == 1:
            want = plan["locales"][want[-1]]
        if stored:
            raise Violation("wrong-error", f"{plan['blocks']} with alternatives {root} succeeded, but stored {stored}")
        if got != want:
            raise Violation("wrong-outcome", f"{plan['blocks']} with alternatives {root} returned {got!r}, expected {want}")
        for i, processor in enumerate(processors):
            have = [p.path if hasattr(p, "path") else (plan["locales"].index(p.locale),) for p in request.get_alternative_products(processor)]
            if have != ref.alternatives.get(i, []):
                raise Violation("wrong-alternatives", f"{plan['blocks']} with alternatives {root}: alternatives of block {i} are {have}, expected {ref.alternatives.get(i, [])}")


def simplify(plan):
    import copy
    if plan["log"]:
        yield {**copy.deepcopy(plan), "log": False}
    if plan["missing"]:
        yield {**copy.deepcopy(plan), "missing": False}
    if plan.get("same_names"):
        yield {**copy.deepcopy(plan), "same_names": False}

    def smaller(node):
        if node is None or "products" not in node:
            return
        for j, child in enumerate(node["products"]):
            if len(node["products"]) > 1:
                yield {"products": node["products"][:j] + node["products"][j + 1:]}
            for c in smaller(child):
                yield {"products": node["products"][:j] + [c] + node["products"][j + 1:]}

    for t, requests in enumerate(plan["tasks"]):
        for r, root in enumerate(requests):
            if len(requests) > 1:
                p = copy.deepcopy(plan)
                del p["tasks"][t][r]
                yield p
            if not plan["locales"]:
                for s in smaller(root):
                    p = copy.deepcopy(plan)
                    p["tasks"][t][r] = s
                    yield p


def warm():
    import richard.block.FindAll, richard.block.FindOne, richard.block.TryFirst, richard.core.Logger, richard.core.System, richard.core.Model  # noqa
    import richard.processor.language_selector.LanguageSelector, richard.processor.language_selector.Multilingual  # noqa
