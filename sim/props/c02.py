"""C02: a select on a remote endpoint is all-or-nothing under network, server and protocol faults."""
import contextlib
import os
import random
import shutil

from sim.ctx import SimHang, Violation
from sim.net import SimNet, gen_fault, gen_style
from sim.sched import LineTracer, Sched, Seams, SimClock, gen_spots, gen_switches, current_task
from sim import sparqlsim as W

ID = "C02"
LEVEL = "exploration"
RUNS = {"quick": 8000, "thorough": 120000}
RUN_TIMEOUT = 60
RULE = ("one case = one seeded world and 1-3 caller threads issuing selects on 1-3 shared data sources in phases, with a fault per exchange and a preemption "
        "list; the endpoint's facts may change between phases; non-trivial = a fault fired or a preemption happened; distinct = distinct event logs")
STATE_MEASURE = "distinct (fault kind, column kinds, bound arguments, outcome) combinations"
REAL = ["SparqlDataSource", "WikidataDataSource", "requests", "urllib3 response handling (length checks, decoding)"]
STUBS = ["SPARQL endpoint (evaluates the query text)", "network transport (HTTPAdapter.send)", "clock", "randomness", "thread scheduling"]
REQUIRED_PROBES = ["recovered_after_fault", "world_changed", "large"]
ASSUMPTIONS = ["a response with a success status, the announced length and a well-formed result document is the endpoint's answer"]
SHRINK_LISTS = ["phases", "threads", "ops", "switches", "spots", "net", "triples", "changes"]
NET_KINDS = ["refused", "dns", "silent_connect", "silent", "reset", "body_reset", "body_stall", "truncated", "http", "http", "http", "html", "badjson",
             "malformed", "badutf8", "badutf8", "badgzip", "empty"]


def gen(rng, tier, index):
    world = W.gen_world(rng, rng.choice([3, 6, 12, 30, 60]))
    queries = [W.gen_query(rng, world) for _ in range(rng.randrange(1, 6))]
    if rng.random() < 0.3:
        queries.append(W.neighbour(rng, queries[0]))
    sources = [{"lang": rng.choice(["en", "en", "nl", "de"]), "wikidata": rng.random() < 0.2, "cache": rng.random() < 0.25} for _ in range(rng.randrange(1, 4))]
    phases = []
    cached = any(s["cache"] for s in sources)
    for _ in range(rng.randrange(1, 5)):
        n = rng.choice([1, 1, 2, 3])
        threads = [{"ops": [[rng.randrange(len(sources)), rng.randrange(len(queries))] for _ in range(rng.randrange(1, 4))]} for _ in range(n)]
        total = sum(len(t["ops"]) for t in threads)
        phases.append({
            "threads": threads,
            "switches": gen_switches(rng, rng.randrange(0, 8), 8) if n > 1 else [],
            "spots": gen_spots(rng, n, ["SparqlDataSource.py"]) if n > 1 and rng.random() < 0.6 else [],
            "net": [{"at": rng.randrange(total + 1), "fault": gen_fault(rng, NET_KINDS)} for _ in range(rng.randrange(0, 4))],
            "changes": [] if cached else W.gen_world(random.Random(rng.randrange(1 << 30)), rng.randrange(0, 4))["triples"],
        })
    plan = {"style": gen_style(rng), "world": world, "queries": queries, "sources": sources, "phases": phases, "order": rng.randrange(1 << 30), "seed": rng.randrange(1 << 30),
            "chunk": rng.choice([1 << 16, 100, 7])}
    if rng.random() < 0.015:
        W.grow(rng, plan)
    return plan


def run(plan, ctx):
    root = os.path.join(os.environ["SIM_SCRATCH"], f"c02-{os.getpid()}")
    os.makedirs(root)
    try:
        run_in(plan, ctx, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def run_in(plan, ctx, root):
    from richard.data_source.SparqlDataSource import SparqlDataSource
    from richard.data_source.WikidataDataSource import WikidataDataSource
    import richard
    prefix = list(richard.__path__)[0]
    world, queries = W.grown(plan["world"]), plan["queries"]
    world = {**world, "triples": list(world["triples"])}
    if not queries or not plan["sources"]:
        return
    clock = SimClock()
    seams = Seams(ctx, clock, plan["seed"])
    with seams:
        store = W.to_store(world)
        net = SimNet(ctx, clock, {W.HOST: store, "query.wikidata.org": store})
        net.style(plan.get("style"))
        net.order = random.Random(plan["order"])
        net.chunk = plan["chunk"]
        net.install(seams)
        sources = []
        for i, conf in enumerate(plan["sources"]):
            cache = None
            if conf["cache"]:
                cache = f"{root}/cache{i}"
                os.makedirs(cache)
            if conf["wikidata"]:
                sources.append((WikidataDataSource(cache), "en"))
            else:
                sources.append((SparqlDataSource(W.URL, result_cache_path=cache, lang=conf["lang"]), conf["lang"]))
        failed = set()

        def one_select(s, q, who):
            source, lang = sources[s % len(sources)]
            query = queries[q % len(queries)]
            state["fault"][who] = None
            ctx.event(who, "select", s, q)
            want = W.expected(world, query, lang)
            error, got, result = None, None, None
            t0 = clock.now
            try:
                result = source.select(query["table"], list(query["columns"]), list(query["values"]))
            except SimHang as e:
                raise Violation("hang", f"{who}: select {query}: {e}")
            except Exception as e:
                error = e
            fault = state["fault"][who]
            kinds = (fault["kind"], fault.get("status")) if fault else None
            ctx.state(kinds, query["columns"], [v is None for v in query["values"]], error is not None, bool(want))
            if error is not None:
                ctx.event(who, "raised", type(error).__name__)
                if fault is None:
                    raise Violation("select-failed", f"{who}: select {query} on a healthy connection raised {error!r}")
                failed.add((s % len(sources), W.key_of(query)))
                return
            got = W.as_counter(result)
            ctx.event(who, "rows", len(result) if isinstance(result, list) else result)
            if got != want:
                raise Violation("wrong-rows", f"{who}: select {query} (lang {lang}, fault {fault}) returned {W.short(got)}, the endpoint holds {W.short(want)}")
            if len(result) > 250:
                ctx.probe("large")
            if (s % len(sources), W.key_of(query)) in failed and fault is None:
                ctx.probe("recovered_after_fault")
            W.spoil(result)

        for number, phase in enumerate(plan["phases"] + [None]):
            if phase is None:
                ops = [[s, q] for s in range(len(sources)) for q in range(len(queries))]
                phase = {"threads": [{"ops": ops}], "switches": [], "net": [], "changes": []}
            if phase["changes"]:
                for t in phase["changes"]:
                    if t not in world["triples"]:
                        world["triples"].append(t)
                store.triples = W.to_store(world).triples
                ctx.probe("world_changed")
            sched = Sched(phase["switches"], ctx, spots=phase.get("spots"))
            net.sched = seams.sched = sched
            net.sends = 0
            faults = {f["at"]: f["fault"] for f in phase["net"]}
            state = {"fault": {}}

            def next_fault(host):
                task = current_task()
                fault = faults.get(net.sends - 1)
                if fault:
                    state["fault"][task.name] = fault
                return fault
            net.next_fault = next_fault

            def body(who, ops):
                def fn():
                    with LineTracer(lambda frame: sched.yield_point(frame=frame), prefix) if phase.get("spots") else contextlib.nullcontext():
                        for s, q in ops:
                            one_select(s, q, who)
                return fn
            for i, thread in enumerate(phase["threads"]):
                sched.spawn(f"t{i}", body(f"t{i}", thread["ops"]))
            sched.run()
            if sched.preemptions:
                ctx.nontrivial = True
        ctx.sim_time = clock.elapsed()


def warm():
    import richard.data_source.SparqlDataSource, richard.data_source.WikidataDataSource, requests, urllib3  # noqa
