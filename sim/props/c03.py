"""C03: an endpoint that falls silent at any point of an exchange, or refuses to answer, cannot hang a question."""
import os
import random
import shutil

from sim.ctx import SimHang, Violation
from sim.net import SimNet, gen_fault, gen_style
from sim.sched import Seams, SimClock
from sim import sparqlsim as W

ID = "C03"
LEVEL = "exploration"
RUNS = {"quick": 6000, "thorough": 60000}
RUN_TIMEOUT = 60
LIMIT = 300.0
RULE = ("one case = a sequence of selects, asked directly or as a question through the solver, in which the endpoint falls silent while connecting, before "
        "the response, or in the middle of the body, or refuses (come back later, look elsewhere); non-trivial = at least one silence or refusal; distinct = distinct event logs")
STATE_MEASURE = "distinct (silence or refusal kind, way of asking, cache, outcome, elapsed seconds) combinations"
REAL = ["SparqlDataSource", "WikidataDataSource", "Solver", "Model", "requests", "urllib3 response handling"]
STUBS = ["SPARQL endpoint", "network transport (HTTPAdapter.send)", "clock"]
REQUIRED_PROBES = ["timeouts_expired", "answered_after_silence", "refused", "redirected"]
ASSUMPTIONS = ["time passes only while the code under test waits"]
SHRINK_LISTS = ["ops", "triples"]
KINDS = ["silent_connect", "silent", "body_stall", "silent_connect", "silent", "body_stall", "refusal", "redirect", "refused"]

SILENT = ("silent_connect", "silent", "body_stall")


def gen(rng, tier, index):
    world = W.gen_world(rng, rng.choice([3, 6, 12, 30]))
    queries = [W.gen_query(rng, world) for _ in range(rng.randrange(1, 4))]
    ops = []
    for _ in range(rng.randrange(1, 7)):
        fault = None
        if rng.random() < 0.6:
            fault = gen_fault(rng, KINDS)
            fault.pop("slow", None)
            # how long the silence lasts, in exchanges
            fault["times"] = rng.choice([1, 1, 2, 10, 50])
        ops.append({"q": rng.randrange(len(queries)), "fault": fault, "via": rng.choice(["select", "solver"])})
    return {"style": gen_style(rng), "world": world, "queries": queries, "ops": ops, "cache": rng.random() < 0.3, "wikidata": rng.random() < 0.3, "seed": rng.randrange(1 << 30),
            "order": rng.randrange(1 << 30)}


def run(plan, ctx):
    root = os.path.join(os.environ["SIM_SCRATCH"], f"c03-{os.getpid()}")
    os.makedirs(root)
    try:
        run_in(plan, ctx, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def run_in(plan, ctx, root):
    from richard.core.Model import Model
    from richard.core.Solver import Solver
    from richard.data_source.SparqlDataSource import SparqlDataSource
    from richard.data_source.WikidataDataSource import WikidataDataSource
    from richard.entity.Relation import Relation
    from richard.entity.Variable import Variable
    from richard.interface.SomeModule import SomeModule
    world, queries = plan["world"], plan["queries"]
    if not queries:
        return
    clock = SimClock()
    with Seams(ctx, clock, plan["seed"]) as seams:
        store = W.to_store(world)
        net = SimNet(ctx, clock, {W.HOST: store, "query.wikidata.org": store})
        net.style(plan.get("style"))
        net.order = random.Random(plan["order"])
        net.install(seams)
        cache = root if plan["cache"] else None
        source = WikidataDataSource(cache) if plan["wikidata"] else SparqlDataSource(W.URL, result_cache_path=cache)

        class Remote(SomeModule):
            def __init__(self):
                super().__init__()
                for i, query in enumerate(queries):
                    self.add_relation(Relation(f"q{i}", query_function=self.query(query)))

            def query(self, query):
                return lambda values, context: source.select(query["table"], list(query["columns"]), list(values))
        solver = Solver(Model([Remote()]))
        after_silence = False
        for op in plan["ops"] + [{"q": i, "fault": None, "via": "select"} for i in range(len(queries))]:
            i = op["q"] % len(queries)
            query = queries[i]
            fault = op["fault"]
            left = [fault["times"] if fault else 0]
            hit = [0]

            def next_fault(host):
                if left[0] > 0:
                    left[0] -= 1
                    hit[0] += 1
                    if fault["kind"] not in SILENT:
                        ctx.probe("redirected" if fault["kind"] == "redirect" else "refused")
                    return fault
                return None
            net.next_fault = next_fault
            net.sends = 0
            t0 = clock.now
            error, got = None, None
            try:
                if op["via"] == "select":
                    got = W.as_counter(source.select(query["table"], list(query["columns"]), list(query["values"])))
                else:
                    args = [v if v is not None else Variable(f"X{k}") for k, v in enumerate(query["values"])]
                    bindings = solver.solve([(f"q{i}", *args)])
                    got = W.as_counter([[b[a.name] if isinstance(a, Variable) else a for a in args] for b in bindings])
            except SimHang as e:
                raise Violation("hang", f"{op}: {e}")
            except Exception as e:
                error = e
            elapsed = clock.now - t0
            ctx.event(op["via"], i, "fault", fault["kind"] if hit[0] else None, "error" if error else "rows", f"{elapsed:.2f}")
            ctx.state(fault["kind"] if hit[0] else None, op["via"], plan["cache"], error is not None, round(elapsed))
            if elapsed > LIMIT:
                raise Violation("too-late", f"{op}: it took {elapsed:.0f} simulated seconds before the question ended")
            if error is not None:
                if not hit[0]:
                    raise Violation("failed-without-silence", f"{op}: {query} raised {error!r}")
                after_silence = True
            else:
                if got != W.expected(world, query, "en"):
                    raise Violation("wrong-rows", f"{op}: {query}: {W.short(got)}, expected {W.short(W.expected(world, query, 'en'))}")
                if after_silence and not hit[0]:
                    ctx.probe("answered_after_silence")
        ctx.sim_time = clock.elapsed()


def warm():
    import richard.data_source.SparqlDataSource, richard.data_source.WikidataDataSource, richard.core.Solver, requests, urllib3  # noqa
