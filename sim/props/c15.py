"""C15: a learned grammar rule is in force from the next request on, as if it had always been there."""
from sim.ctx import SimInterrupt, Violation
from sim.gramsim import GramSystem, gen_base, gen_rule, gen_sentence, noise
from sim.props.c07 import Interrupter
from sim.sched import LineTracer

ID = "C15"
LEVEL = "exploration"
RUNS = {"quick": 7000, "thorough": 50000}
RUN_TIMEOUT = 60
RULE = ("one case = a random grammar of which a part is learned by requests (one or two rules per request, in executable atoms, in disjunctions, followed or preceded by a failure), "
        "with ill-formed rules, requests that fail or are interrupted at any line, repeated rules, and sentences in between, of which trees, meanings, bindings and errors are compared "
        "with those of a system that was built with these rules; non-trivial = a request failed or was interrupted; distinct = distinct event logs")
STATE_MEASURE = "distinct (kinds of learning steps so far, number of trees, error)"
REAL = ["GrammarModule", "GrammarRules", "SimpleGrammarRulesParser", "EarleyParser", "BasicParser", "SemanticComposer", "AtomExecutor", "Solver", "System", "blocks", "BasicGenerator", "BasicOutputBuffer"]
STUBS = ["module with atoms that fail or record"]
REQUIRED_PROBES = ["learned", "refused", "failed_after", "failed_before", "interrupted", "two_rules", "new_root", "changed_meaning", "other_system", "repeated_rule", "variants"]
ASSUMPTIONS = ["an interrupt while a rule with optional parts is being learned is left out", "rules are learned by one request at a time"]
SHRINK_LISTS = ["steps", "base", "pool"]

BAD = [{}, {"sem": None}, {"syn": "np(E1) 'x'"}, {"syn": "-> 'x'"}, {"syn": "np(E1) -> 'star' -> 'x'"}, {"syn": "np(E1 -> 'star'"}, {"syn": "np E1 -> 'star'"}, None, "np(E1) -> 'star'", {"syn": 5}, {"syn": None},
       {"syn": ""}, {"syn": "np(E1) -> np(E1"}, {"syn": "'star' -> np(E1)"}, ["syn"]]


def gen(rng, tier, index):
    base = gen_base(rng, rng.randrange(1, 7))
    pool = []
    for k in range(rng.randrange(1, 7)):
        if rng.random() < 0.22:
            pool.append({"raw": rng.choice(BAD)})
        elif rng.random() < 0.1:
            pool.append({**rng.choice(base), "k": 100 + k})
        else:
            pool.append(gen_rule(rng, 100 + k))
    every = base + [p for p in pool if "raw" not in p]
    sentences = []
    for _ in range(rng.randrange(2, 6)):
        s = gen_sentence(rng, base if rng.random() < 0.3 else every)
        sentences.append(noise(rng, s) if rng.random() < 0.2 else s)
    sentences = [s for s in sentences if len(s) < 45] or ["star"]
    steps = []
    for _ in range(rng.randrange(3, 14)):
        x = rng.random()
        if x < 0.55:
            steps.append({"do": "ask", "text": rng.choice(sentences + ([gen_sentence(rng, every)[:45]] if rng.random() < 0.3 else []))})
        else:
            how = rng.choice(["learn", "learn", "learn", "two", "then_crash", "crash_first", "after_fail", "either", "now"])
            step = {"do": "learn", "how": how, "n": rng.randrange(len(pool)), "m": rng.randrange(len(pool))}
            if rng.random() < 0.25:
                step["line"] = rng.choice([rng.randrange(0, 30), rng.randrange(0, 400), rng.randrange(0, 6000)])
            steps.append(step)
        if rng.random() < 0.08:
            steps.append({"do": "ask", "text": rng.choice(sentences), "line": rng.randrange(0, 3000)})
    for s in sentences:
        steps.append({"do": "ask", "text": s})
    return {"base": base, "pool": pool, "steps": steps, "blocks": rng.choice([["all", "first", "first"], ["all", "all", "all"], ["one", "first", "first"]]), "optimizer": rng.random() < 0.2,
            "two": rng.random() < 0.3}


def text_of(step):
    n, m = step["n"], step["m"]
    return {"learn": f"learn {n}", "two": f"learn {n} {m}", "then_crash": f"learn {n} crash", "crash_first": f"crash learn {n}", "after_fail": f"no learn {n}", "either": f"either learn {n}",
            "now": f"now learn {n}"}[step["how"]]


def short(outcome):
    return {k: (v if len(str(v)) < 900 else str(v)[:900] + "...") for k, v in outcome.items()}


def run(plan, ctx):
    from richard.entity.SentenceRequest import SentenceRequest
    import richard
    base, pool = plan["base"], plan["pool"]
    prefix = list(richard.__path__)[0]

    def good(n):
        return n < len(pool) and "raw" not in pool[n]

    def system(learned=()):
        return GramSystem(base, pool, [pool[n] for n in learned], plan["blocks"], plan["optimizer"])

    live = system()
    other = system() if plan["two"] else None
    candidates = [()]
    said = {}
    kinds = []
    references = {}

    def reference(learned, text):
        if (learned, text) not in references:
            references[learned, text] = system(learned).outcome(text)
        return references[learned, text]

    def interrupted(text, line):
        """True if the interrupt came before the end of the request."""
        try:
            with LineTracer(Interrupter(line), prefix):
                live.system.enter(SentenceRequest(text))
        except SimInterrupt:
            ctx.probe("interrupted")
            ctx.fault("interrupt")
            return True
        except Exception:
            return False
        return False

    for step in plan["steps"]:
        if step["do"] == "ask":
            text = step["text"]
            if "line" in step:
                interrupted(text, step["line"])
                continue
            got = live.outcome(text)
            fits = [c for c in candidates if reference(c, text) == got]
            ctx.event("ask", len(got["trees"]), got["error"], got["output"])
            ctx.state(sorted(set(kinds)), len(got["trees"]), got["error"], (got["output"] or "")[:9])
            if not fits:
                raise Violation("as-if-always-there", f"'{text}' after learning {[pool[n] for n in candidates[0]]}:\n  {short(got)}\n  with these rules from the start\n  {short(reference(candidates[0], text))}\n  base {base}")
            candidates = fits
            if said.get(text, got) != got:
                ctx.probe("changed_meaning")
            said[text] = got
            continue
        n, m, how = step["n"], step["m"], step["how"]
        if n >= len(pool) or m >= len(pool):
            continue
        wanted = [n, m] if how == "two" else [n]
        kinds.append(how)
        if how in ("crash_first", "after_fail"):
            wanted = []
        done = []
        refused = False
        for w in wanted:
            if not good(w):
                refused = True
                break
            done.append(w)
        text = text_of(step)
        if how == "two":
            ctx.probe("two_rules")
        if "line" in step and not any("?" in pool[w]["syn"].split("'?'")[0] or "~" in pool[w]["syn"] for w in done):
            cut = interrupted(text, step["line"])
            ctx.event("learn", how, "interrupted", cut)
            grown = []
            for c in candidates:
                options = [c + tuple(done[:i]) for i in range(len(done) + 1)] if cut else [c + tuple(done)]
                grown.extend(o for o in options if o not in grown)
            candidates = grown
            continue
        # which sentences of this form the learned rules add is not known here, so the learning sentence must be unambiguous
        error = None
        try:
            live.system.enter(SentenceRequest(text))
        except Exception as e:
            error = e
        ctx.event("learn", how, n, type(error).__name__)
        fails = refused or how in ("then_crash", "crash_first")
        if fails and error is None:
            raise Violation("failure-hidden", f"'{text}' with rules {[pool[w] for w in ([n, m] if how == 'two' else [n])]} ended normally")
        if not fails and error is not None:
            raise Violation("refused", f"'{text}' with rules {[pool[w] for w in wanted]} failed with {error!r}")
        if fails:
            ctx.fault("request." + ("refused_rule" if refused else how))
        if refused:
            ctx.probe("refused")
        elif how == "then_crash":
            ctx.probe("failed_after")
        elif how == "crash_first":
            ctx.probe("failed_before")
        if done:
            ctx.probe("learned")
            if any(pool[w]["syn"].startswith("s(") for w in done):
                ctx.probe("new_root")
            if any("?" in pool[w]["syn"] or "~" in pool[w]["syn"] for w in done):
                ctx.probe("variants")
            if any(w in c for c in candidates for w in done):
                ctx.probe("repeated_rule")
        candidates = [c + tuple(done) for c in candidates]
    if other is not None:
        ctx.probe("other_system")
        for text in list(said)[:4]:
            got, want = other.outcome(text), system().outcome(text)
            if got != want:
                raise Violation("other-system", f"'{text}' in a system that learned nothing, after another one learned {[pool[n] for n in candidates[0]]}:\n  {short(got)}\n  expected\n  {short(want)}")


def simplify(plan):
    import copy
    for key, value in (("blocks", ["all", "first", "first"]), ("optimizer", False), ("two", False)):
        if plan[key] != value:
            yield {**copy.deepcopy(plan), key: value}
    for i, step in enumerate(plan["steps"]):
        if "line" in step:
            p = copy.deepcopy(plan)
            del p["steps"][i]["line"]
            yield p


def warm():
    GramSystem([{"syn": "s(E1) -> np(E1)", "k": 1}, {"syn": "np(E1) -> 'star'", "k": 2}]).outcome("star")
