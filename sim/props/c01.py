"""C01: the result cache of the remote data source under crashes, torn writes, disk errors and concurrent processes."""
import contextlib
import os
import random
import shutil

from sim.ctx import SimAbort, SimCrash, SimHang, Violation
from sim.fs import SimDisk, gen_disk_faults
from sim.net import SimNet, gen_fault, gen_style
from sim.sched import LineTracer, Sched, Seams, SimClock, gen_spots, gen_switches, current_task
from sim import sparqlsim as W

ID = "C01"
LEVEL = "exploration"
RUNS = {"quick": 8000, "thorough": 120000}
RUN_TIMEOUT = 60
RULE = ("one case = one seeded world, 1-4 phases of 1-3 simulated processes issuing selects on one cache folder, with a preemption list and a fault "
        "list; non-trivial = at least one fault fired or one preemption happened; distinct = distinct event logs")
STATE_MEASURE = "distinct (phase outcome, per-process crash site, files in cache folder, cached-set) signatures"
REAL = ["SparqlDataSource", "requests", "urllib3 response handling", "pickle", "io buffering", "file system calls of a scratch folder"]
STUBS = ["SPARQL endpoint (evaluates the query text)", "network transport (HTTPAdapter.send)", "disk fault layer", "clock", "randomness", "processes (threads run one at a time)"]
REQUIRED_PROBES = ["threads_of_one_process", "served_from_cache", "cache_read_damaged", "endpoint_down_served", "large"]
ASSUMPTIONS = ["a rename is atomic with respect to other processes", "data that was synced survives a power failure"]
SHRINK_LISTS = ["phases", "procs", "ops", "switches", "spots", "faults", "net", "triples", "damage"]
DISK_KINDS = ["EIO", "ENOSPC", "EACCES", "EMFILE", "short", "short", "crash", "crash", "crash", "power"]
NET_KINDS = ["refused", "reset", "body_reset", "truncated", "http", "html", "badjson", "malformed", "badutf8"]


def gen(rng, tier, index):
    world = W.gen_world(rng, rng.choice([2, 6, 12, 30, 120, 400]) if rng.random() < 0.5 else None)
    queries = []
    for _ in range(rng.randrange(1, 5)):
        queries.append(W.neighbour(rng, rng.choice(queries)) if queries and rng.random() < 0.3 else W.gen_query(rng, world))
    phases = []
    concurrent = rng.random() < 0.7
    faulty_disk = rng.random() < 0.75
    faulty_net = rng.random() < 0.4
    for _ in range(rng.randrange(1, 4)):
        n = rng.randrange(2, 4) if concurrent else 1
        procs = [{"ops": [rng.randrange(len(queries)) for _ in range(rng.randrange(1, 4))]} for _ in range(n)]
        for i in range(1, n):
            if rng.random() < 0.3:
                # a thread of an earlier process
                procs[i]["of"] = rng.randrange(i)
        total = sum(len(p["ops"]) for p in procs)
        phases.append({
            "procs": procs,
            "switches": gen_switches(rng, rng.randrange(0, 10), 12) if n > 1 else [],
            "spots": gen_spots(rng, n, ["SparqlDataSource.py"]) if n > 1 and rng.random() < 0.5 else [],
            "faults": gen_disk_faults(rng, rng.randrange(0, 4), 9 * total, DISK_KINDS) if faulty_disk else [],
            "net": [{"at": rng.randrange(total), "fault": gen_fault(rng, NET_KINDS)} for _ in range(rng.randrange(0, 3))] if faulty_net else [],
            "down": rng.random() < 0.15,
            "damage": [{"file": rng.randrange(8), "cut": rng.random(), "style": rng.choice(["cut", "zero", "empty"])} for _ in range(rng.randrange(0, 3))] if rng.random() < 0.25 else [],
        })
    plan = {"style": gen_style(rng), "world": world, "queries": queries, "phases": phases, "bufsize": rng.choice([16, 64, 512, 8192, 8192]),
            "order": rng.randrange(1 << 30), "nodir": rng.random() < 0.03, "lang": rng.choice(["en", "en", "nl"]),
            "seed": rng.randrange(1 << 30), "chunk": rng.choice([1 << 16, 100, 7])}
    if rng.random() < 0.015:
        W.grow(rng, plan)
    return plan


def fixed_plans():
    # known finding: two data sources that share a cache folder but differ in endpoint or language
    return [{"cross": "lang"}, {"cross": "url"}]


def run(plan, ctx):
    root = os.path.join(os.environ["SIM_SCRATCH"], f"c01-{os.getpid()}")
    os.makedirs(root)
    try:
        if "cross" in plan:
            run_cross(plan, ctx, root)
        else:
            run_in(plan, ctx, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def run_cross(plan, ctx, root):
    from richard.data_source.SparqlDataSource import SparqlDataSource
    world = {"predicates": {}, "triples": [[["id", "http://x/Q1"], "rdfs:label", ["text", "cat", "en"]], [["id", "http://x/Q1"], "rdfs:label", ["text", "kat", "nl"]]]}
    other = {"predicates": {}, "triples": [[["id", "http://x/Q1"], "rdfs:label", ["text", "dog", "en"]]]}
    clock = SimClock()
    with Seams(ctx, clock, 1) as seams:
        net = SimNet(ctx, clock, {W.HOST: W.to_store(world), "other.example": W.to_store(other)})
        net.style(plan.get("style"))
        net.install(seams)
        a = SparqlDataSource(W.URL, result_cache_path=root, lang="en")
        b = SparqlDataSource(W.URL, result_cache_path=root, lang="nl") if plan["cross"] == "lang" else \
            SparqlDataSource("https://other.example/sparql", result_cache_path=root, lang="en")
        a.select("rdfs:label", ["id", "text"], [None, None])
        got = W.as_counter(b.select("rdfs:label", ["id", "text"], [None, None]))
        want = W.expected(world, {"table": "rdfs:label", "columns": ["id", "text"], "values": [None, None]}, "nl") if plan["cross"] == "lang" else \
            W.expected(other, {"table": "rdfs:label", "columns": ["id", "text"], "values": [None, None]}, "en")
        if got != want:
            raise Violation("cross-source-cache", f"data sources with another {plan['cross']} share cache entries: got {W.short(got)}, expected {W.short(want)}")


def run_in(plan, ctx, root):
    from richard.data_source.SparqlDataSource import SparqlDataSource
    world, queries, lang = W.grown(plan["world"]), plan["queries"], plan["lang"]
    if not queries:
        return
    cache = root + "/cache"
    if not plan["nodir"]:
        os.makedirs(cache)
    import richard
    prefix = list(richard.__path__)[0]
    clock = SimClock()
    must_be_cached = set()
    served = {"n": 0}
    seams = Seams(ctx, clock, plan["seed"])
    with seams:
        net = SimNet(ctx, clock, {W.HOST: W.to_store(world)})
        net.style(plan.get("style"))
        net.order = random.Random(plan["order"])
        net.chunk = plan["chunk"]
        net.install(seams)
        disk = SimDisk(ctx, root, bufsize=plan["bufsize"])
        disk.install(seams)

        def new_source():
            return SparqlDataSource(W.URL, result_cache_path=cache, lang=lang, headers={"User-Agent": "sim"})

        def one_select(source, q, who, down):
            query = queries[q % len(queries)]
            key = W.key_of(query)
            cached_before = key in must_be_cached
            proc = disk.proc()
            faults_before = len([f for f in disk.fired_by if f[1] == who])
            state["net_fault"][who] = 0
            state["sends"][who] = 0
            ctx.event(who, "select", q)
            error = None
            try:
                result = source.select(query["table"], list(query["columns"]), list(query["values"]))
            except SimHang as e:
                raise Violation("hang", str(e))
            except Exception as e:
                error = e
            if proc.dead:
                raise SimCrash("dead")
            disk_faults = len([f for f in disk.fired_by if f[1] == who]) - faults_before
            want = W.expected(world, query, lang)
            if error is not None:
                ctx.event(who, "raised", type(error).__name__)
                if not down and not state["net_fault"][who]:
                    raise Violation("select-failed", f"{who}: select {query} raised {error!r} although the endpoint answered correctly; a cache problem must not fail a select")
                if cached_before and not disk_faults:
                    raise Violation("not-served-from-cache", f"{who}: {query} was answered before, yet now (endpoint not available) it raised {error!r}")
                return
            got = W.as_counter(result)
            ctx.event(who, "rows", len(result) if isinstance(result, list) else result)
            if got != want:
                raise Violation("wrong-rows", f"{who}: select {query} returned {W.short(got)}, the endpoint holds {W.short(want)}")
            if cached_before and not disk_faults and state["sends"][who]:
                raise Violation("not-served-from-cache", f"{who}: {query} was answered before, yet the endpoint was asked again")
            if len(result) > 250:
                ctx.probe("large")
            if state["sends"][who] == 0:
                ctx.probe("served_from_cache")
                if down:
                    ctx.probe("endpoint_down_served")
            if not disk_faults and not plan["nodir"]:
                must_be_cached.add(key)
            W.spoil(result)

        for number, phase in enumerate(plan["phases"] + [None]):
            last = phase is None
            if last:
                phase = {"procs": [{"ops": list(range(len(queries)))}], "switches": [], "faults": [], "net": [], "down": False, "damage": []}
            ctx.event("phase", number, "down" if phase["down"] else "up")
            damage(phase["damage"], cache, disk, must_be_cached, ctx)
            sched = Sched(phase["switches"], ctx, spots=phase.get("spots"))
            disk.sched = net.sched = seams.sched = sched
            disk.count = 0
            disk.faults = {int(f["at"]): f for f in phase["faults"]}
            disk.procs = {}
            disk.fired_by = []
            net.sends = 0
            net.down = {W.HOST} if phase["down"] else set()
            net_faults = {f["at"]: f["fault"] for f in phase["net"]}
            state = {"net_fault": {}, "sends": {}}

            def next_fault(host):
                task = current_task()
                who = task.name if task else "main"
                state["sends"][who] = state["sends"].get(who, 0) + 1
                fault = net_faults.get(net.sends - 1)
                if fault or phase["down"]:
                    state["net_fault"][who] = 1
                return fault
            net.next_fault = next_fault
            power = []

            def on_power(fault):
                power.append(fault)
                for proc in disk.procs.values():
                    proc.dead = True
            disk.on_power = on_power

            def body(who, ops, group):
                def fn():
                    if group not in sources:
                        sources[group] = new_source()
                    source = sources[group]
                    with LineTracer(lambda frame: sched.yield_point(frame=frame), prefix) if phase.get("spots") else contextlib.nullcontext():
                        for q in ops:
                            one_select(source, q, who, phase["down"])
                return fn
            sources = {}
            groups = []
            for i, proc in enumerate(phase["procs"]):
                # threads of one process share the data source
                group = groups[proc["of"] % i] if i and "of" in proc else i
                groups.append(group)
                if group != i:
                    ctx.probe("threads_of_one_process")
                sched.spawn(f"p{i}", body(f"p{i}", proc["ops"], group), pid=9000 + 10 * number + group)
            sched.run()
            ctx.probe("preemptions", sched.preemptions)
            if sched.preemptions:
                ctx.nontrivial = True
            if power:
                disk.enabled = False
                disk.lose_unsynced(random.Random(power[0].get("seed", 0)))
                disk.enabled = True
                must_be_cached.clear()
            disk.unsynced = {} if not power else disk.unsynced
            ctx.state(number, sorted((f[2], f[3]) for f in disk.fired_by), len(must_be_cached), files(cache, disk))
        # everything stays available when the endpoint is gone
        net.down = {W.HOST}
        net.next_fault = lambda host: None
        disk.faults = {}
        state = {"net_fault": {"main": 1}, "sends": {"main": 0}}
        source = new_source()
        disk.sched = net.sched = seams.sched = None
        for q in range(len(queries)):
            one_select(source, q, "main", True)
        ctx.sim_time = clock.elapsed()


def files(cache, disk):
    try:
        return len(disk._real["listdir"](cache))
    except OSError:
        return 0


def damage(items, cache, disk, must_be_cached, ctx):
    """Entries damaged by something else: an older version, a full disk, a partial copy."""
    if not items:
        return
    disk.enabled = False
    try:
        if not os.path.isdir(cache):
            return
        names = sorted(os.listdir(cache), key=lambda name: disk.canon(os.path.join(cache, name)))
        for item in items:
            if not names:
                return
            path = os.path.join(cache, names[item["file"] % len(names)])
            with disk._real["open"](path, "rb") as f:
                data = f.read()
            if not data:
                continue
            cut = min(len(data) - 1, int(item["cut"] * len(data)))
            data = {"cut": data[:cut], "zero": data[:cut] + b"\0" * (len(data) - cut), "empty": b""}[item["style"]]
            with disk._real["open"](path, "wb") as f:
                f.write(data)
            must_be_cached.clear()
            ctx.fault("damaged_entry." + item["style"])
            ctx.probe("cache_read_damaged")
    finally:
        disk.enabled = True


def simplify(plan):
    import copy
    if "cross" in plan:
        return
    for key, value in (("bufsize", 8192), ("chunk", 1 << 16), ("nodir", False), ("lang", "en")):
        if plan[key] != value:
            yield {**copy.deepcopy(plan), key: value}
    for i, phase in enumerate(plan["phases"]):
        if phase["down"]:
            p = copy.deepcopy(plan)
            p["phases"][i]["down"] = False
            yield p
        for j, (gap, to) in enumerate(phase["switches"]):
            for new in ([0, to], [gap // 2, to], [gap, 0]):
                if new != [gap, to] and new[0] <= gap and new[1] <= to:
                    p = copy.deepcopy(plan)
                    p["phases"][i]["switches"][j] = new
                    yield p
        for j, f in enumerate(phase["faults"]):
            if f.get("portion"):
                p = copy.deepcopy(plan)
                p["phases"][i]["faults"][j]["portion"] = 0
                yield p


def warm():
    import richard.data_source.SparqlDataSource, requests, urllib3, pickle, uuid  # noqa
