"""C13: importing a file of rules adds all of its rules or none."""
import os
import random
import re
import shutil
import sqlite3

from sim.ctx import SimInterrupt, Violation
from sim.fs import SimDisk, gen_disk_faults
from sim.gengoal import ALL, SIGNATURES, GoalGen, gen_fact, gen_rule, has, sibling
from sim.props.c05 import uses_undefined
from sim.refeval import Facts, Reference, Skip, atoms_to_real, norm_binding, text_atom, text_rule, text_term, top_variables
from sim.sched import Seams, SimClock

ID = "C13"
LEVEL = "exploration"
RUNS = {"quick": 12000, "thorough": 120000}
RUN_TIMEOUT = 60
RULE = ("one case = a history of 1-5 imports of files with random rules, facts, comments and layout into one application, in which files are cut off at any byte, damaged, missing, "
        "unreadable, or read in pieces from a failing disk, and failed imports are repeated with the complete file; after each import goals over all relations are compared with the "
        "reference; non-trivial = an import failed; distinct = distinct event logs")
STATE_MEASURE = "distinct (kind of damage, kind of disk fault, number of rules in the file, outcome)"
REAL = ["InferenceModule", "SimpleInferenceRuleParser", "Solver", "Model", "CoreModule", "Sqlite3DataSource", "text decoding"]
STUBS = ["disk seam below the buffered file (errors, short reads, small buffers)", "module with the facts"]
REQUIRED_PROBES = ["imported", "refused", "cut_inside_rule", "cut_between_rules", "damaged", "read_failed", "retried", "comments", "negative", "empty_text", "double_quotes", "grouped_body"]
ASSUMPTIONS = ["rules are safe and end", "damage is of a kind that no rule file allows", "the file is in the encoding of the locale"]
SHRINK_LISTS = ["files", "rules", "faults", "goals", "body"]
KEEP_ONE = ["files"]

NOTES = ["names", "p(X) :- q(X).", "it's \"quoted", "(", "", "# again", "a, b; c :- .", "\u00e9"]
TEXTS = ["x y", "it's", "", "a, b", "Mary", "# no comment", ". :-", "\u00e9\u6f22", 'say "hi"', "p(X)", "l\nm", "0", "_"]
QUOTES = ["'", "'", "'", '"']
EXTRA = {"w1": ["any"], "w2": ["any", "any"]}


def gen_value(rng):
    x = rng.random()
    if x < 0.5:
        return rng.choice(TEXTS)
    if x < 0.8:
        return rng.choice([0, 7, -3, -12, 1000000, 1])
    return rng.choice([0.5, -2.25, 10.0])


def gen_rules(rng, n):
    out = []
    while len(out) < n:
        x = rng.random()
        if x < 0.25:
            name = rng.choice(list(EXTRA))
            out.append([[name] + [gen_value(rng) for _ in EXTRA[name]], []])
            continue
        if x < 0.33:
            out.append([["w2", {"v": "X"}, {"v": "Y"}], [["w1", {"v": "X"}], ["w1", {"v": "Y"}]]])
            continue
        head, body = gen_rule(rng)
        if out and rng.random() < 0.2:
            head, body = sibling(rng, out[-1]) or (head, body)
        if not has(body, ("find_all", "find_one")):
            out.append([head, body])
    return out


def gen_goals(rng, n):
    goals = []
    for _ in range(n):
        x = rng.random()
        if x < 0.25:
            goals.append([rng.choice([["w1", {"v": "Q1"}], ["w2", {"v": "Q1"}, {"v": "Q2"}], ["w2", {"v": "Q1"}, gen_value(rng)], ["w1", gen_value(rng)]])])
        elif x < 0.8:
            name = rng.choice(list(ALL))
            goals.append([[name] + [{"v": f"Q{i}"} for i in range(len(ALL[name]))]])
        else:
            goals.append(GoalGen(rng, rng.sample(list(ALL), rng.randrange(2, len(ALL))), "Q").goal())
    return goals


def gen(rng, tier, index):
    files = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 5])):
        rules = gen_rules(rng, rng.choice([0, 1, 2, 3, 5, 8]))
        if rng.random() < 0.01:
            # a large file
            rules += [[["w2", rng.choice(TEXTS), rng.randrange(1000)], []] for _ in range(rng.choice([30, 120, 300]))]
        x = rng.random()
        damage = None
        if x < 0.35:
            damage = {"kind": "cut", "at": rng.random()}
        elif x < 0.6:
            damage = {"kind": rng.choice(["paren", "paren", "comma", "implies", "dot", "head", "word", "sign", "quote", "stray", "stray", "name"]), "pick": rng.randrange(1 << 16)}
        elif x < 0.65:
            damage = {"kind": rng.choice(["missing", "directory", "bytes"])}
        faults = gen_disk_faults(rng, rng.choice([1, 1, 2]), rng.choice([2, 6, 20]), ["EIO", "EIO", "EMFILE", "EACCES", "short", "short"]) if rng.random() < 0.35 else []
        files.append({"rules": rules, "style": rng.randrange(1 << 30), "damage": damage, "faults": faults, "retry": rng.random() < 0.7, "goals": gen_goals(rng, rng.randrange(1, 5))})
    return {"files": files, "facts": [gen_fact(rng) for _ in range(rng.randrange(3, 20))], "bufsize": rng.choice([1, 3, 16, 100, 8192])}


def rule_tokens(head, body):
    """The text of a rule, and where tokens can be taken out of it: [(kind, start, end)]"""
    text = text_rule(head, body)
    marks = []
    quoted = None
    i = 0
    while i < len(text):
        c = text[i]
        if quoted:
            if c == "\\":
                i += 1
            elif c == quoted:
                quoted = None
        elif c == "'":
            quoted = c
            marks.append(("quote", i, i + 1))
        elif c in "()":
            marks.append(("paren", i, i + 1))
        elif c == ",":
            marks.append(("comma", i, i + 1))
        elif text.startswith(":-", i):
            marks.append(("implies", i, i + 2))
            i += 1
        i += 1
    marks.append(("dot", len(text) - 1, len(text)))
    marks.append(("head", 0, len(head[0])))
    return text, marks


def damaged(rule, damage):
    """None if this kind of damage cannot be done to this rule."""
    text, marks = rule_tokens(*rule)
    kind = damage["kind"]
    if kind == "word":
        return "oops " + text
    if kind == "stray":
        # something between two rules
        token = [".", ",", ";", ")", "(", ":-", "''", "p", "X", "0", "p(X)", "p(X) , .", ":- p(X)."][damage["pick"] % 13]
        return f"{token} {text}" if damage["pick"] & 256 else f"{text} {token}\n"
    if kind == "sign":
        places = [m for m in marks if m[0] in ("paren", "comma", "implies")]
        at = places[damage["pick"] % len(places)][2]
        return text[:at] + "@&!~`"[damage["pick"] % 5] + text[at:]
    if kind == "name":
        # in place of the name of a relation
        names = [m for m in re.finditer(r"'(?:\\.|[^'])*'|(\w+)\(", text) if m.group(1)]
        name = names[damage["pick"] % len(names)]
        other = ["'%s'", '"%s"', "1.5", "-3", ":-", ".", "(%s)", "%s %s", "%s, %s"][(damage["pick"] >> 5) % 9].replace("%s", name.group(1))
        return text[:name.start(1)] + other + text[name.end(1):]
    places = [m for m in marks if m[0] == kind]
    if kind == "quote" and "'" in "".join(str(t) for t in text.split("'")[1::2]):
        return None
    if not places or (kind == "quote" and (len(places) != 1 or rule[1] or "#" in text)):
        return None
    _, a, b = places[damage["pick"] % len(places)]
    return text[:a] + text[b:]


def render(file, ctx):
    """(bytes of the file, rules of it that it holds or None if it is ill-formed)"""
    rng = random.Random(file["style"])
    eol = rng.choice(["\n", "\n", "\r\n", " ", ""])
    damage = file["damage"]
    parts, ends = [], []
    victim = None
    if damage and damage["kind"] not in ("cut", "missing", "directory", "bytes"):
        fit = [i for i, r in enumerate(file["rules"]) if damaged(r, damage) is not None]
        victim = fit[damage["pick"] % len(fit)] if fit else None
    position = 0

    def add(s):
        nonlocal position
        parts.append(s)
        position += len(s.encode())

    notes = rng.choice([0, 0.2, 0.5])
    for i, rule in enumerate(file["rules"]):
        while rng.random() < notes:
            ctx.probe("comments")
            add("#" + rng.choice(NOTES) + "\n")
        quote, group = rng.choice(QUOTES), rng.random() < 0.15
        if i == victim:
            text = damaged(rule, damage)
        else:
            text = text_rule(*rule, quote, group)
            if quote in text and quote == '"':
                ctx.probe("double_quotes")
            if group and rule[1]:
                ctx.probe("grouped_body")
        if rng.random() < 0.3 and "'" not in text and '"' not in text:
            text = text.replace(" ", rng.choice(["  ", "\n", "\t", " # why\n "]))
        add(text)
        ends.append(position)
        add(eol if rng.random() < 0.9 else "\n\n")
    if rng.random() < notes:
        add("#" + rng.choice(NOTES))
    data = "".join(parts).encode()
    rules = file["rules"]
    if victim is not None:
        ctx.probe("damaged")
        return data, None
    if damage and damage["kind"] == "bytes" and data:
        return data + b"\n\xff\xfe\x80", None
    if damage and damage["kind"] == "cut":
        cut = int(damage["at"] * (len(data) + 1))
        data = data[:cut]
        done = [e for e in ends if e <= cut]
        try:
            rest = data[done[-1] if done else 0:].decode()
        except UnicodeDecodeError:
            return data, None
        if any(line.strip() for line in strip_comments(rest)):
            ctx.probe("cut_inside_rule")
            return data, None
        ctx.probe("cut_between_rules")
        return data, rules[:len(done)]
    return data, rules


def strip_comments(text):
    """Text after the last complete rule, of which only lines that start with a comment sign are surely comments."""
    return ["" if line.strip().startswith("#") else line for line in text.replace("\r", "\n").split("\n")]


def build(plan):
    from richard.core.Model import Model
    from richard.data_source.Sqlite3DataSource import Sqlite3DataSource
    from richard.entity.Relation import Relation
    from richard.interface.SomeModule import SomeModule
    from richard.module.InferenceModule import InferenceModule

    def columns(name):
        return [f"c{i}" for i in range(len(SIGNATURES[name]))]

    connection = sqlite3.connect(":memory:", isolation_level=None)
    for name in SIGNATURES:
        connection.execute(f"CREATE TABLE {name} ({', '.join(columns(name))})")
    source = Sqlite3DataSource(connection)

    class FactModule(SomeModule):
        def __init__(self):
            super().__init__()
            for name in SIGNATURES:
                self.add_relation(Relation(name, arguments=columns(name), query_function=self.query))

        def query(self, values, context):
            return source.select(context.relation.predicate, context.relation.arguments, values)

    for name, *args in plan["facts"]:
        source.insert(name, columns(name), args)
    inference = InferenceModule()
    return Model([FactModule(), inference]), inference


def run(plan, ctx):
    from richard.core.Solver import Solver
    root = os.path.join(os.environ["SIM_SCRATCH"], f"c13-{os.getpid()}")
    os.makedirs(root)
    try:
        model, inference = build(plan)
        facts = Facts()
        for name, *args in plan["facts"]:
            facts.add(name, args)
        with Seams(ctx, SimClock(), 1) as seams:
            for n, file in enumerate(plan["files"]):
                for attempt in range(2):
                    path = os.path.join(root, f"rules{n}.pl")
                    data, rules = render(file if attempt == 0 else {**file, "damage": None}, ctx)
                    if any(isinstance(t, (int, float)) and t < 0 for r in file["rules"] for t in r[0][1:]):
                        ctx.probe("negative")
                    if any(t == "" for r in file["rules"] for t in r[0][1:]):
                        ctx.probe("empty_text")
                    kind = file["damage"]["kind"] if file["damage"] and attempt == 0 else None
                    if kind == "directory":
                        os.makedirs(path)
                        rules = None
                    elif kind == "missing":
                        rules = None
                    else:
                        if os.path.isdir(path):
                            os.rmdir(path)
                        with open(path, "wb") as f:
                            f.write(data)
                    disk = SimDisk(ctx, root, file["faults"] if attempt == 0 else [], None, plan["bufsize"])
                    disk.install(seams)
                    error = None
                    try:
                        inference.import_rules(path)
                    except (Exception, SimInterrupt) as e:
                        error = e
                    disk.enabled = False
                    hard = [f for f in disk.fired_by if f[3] != "short" and f[2] in ("open", "read")]
                    soft = [f for f in disk.fired_by if f[3] != "short"]
                    ctx.event("import", n, attempt, kind, type(error).__name__)
                    ctx.state(kind, sorted({f[3] for f in disk.fired_by}), len(file["rules"]), type(error).__name__)
                    if hard:
                        ctx.probe("read_failed")
                        if error is None:
                            raise Violation("failure-hidden", f"{hard} failed while importing {data!r}, but the import ended normally")
                    if error is None:
                        if rules is None:
                            raise Violation("ill-formed-accepted", f"import of the file {data!r} ({file['damage']}) ended normally")
                        facts.rules.extend([h, b] for h, b in rules)
                        ctx.probe("imported")
                        if attempt:
                            ctx.probe("retried")
                    else:
                        if rules is not None and not soft:
                            raise Violation("refused", f"import of the file {data!r} failed with {error!r}")
                        ctx.probe("refused")
                        ctx.nontrivial = True
                    compare(file, model, facts, ctx, f"after the import of {data!r}, which " + ("ended normally" if error is None else f"failed with {error!r}"), Solver)
                    if error is None or not file["retry"]:
                        break
    finally:
        shutil.rmtree(root, ignore_errors=True)


def compare(file, model, facts, ctx, when, Solver):
    names_in_file = sorted({r[0][0] for r in file["rules"]})
    known = set(SIGNATURES) | {h[0] for h, _ in facts.rules}
    goals = list(file["goals"]) + [[[name] + [{"v": f"Q{i}"} for i in range(len({**ALL, **EXTRA}[name]))]] for name in names_in_file]
    for goal in goals:
        try:
            want = Reference(facts).solve(goal, {})
        except Skip as e:
            ctx.event("skip", e)
            continue
        undefined = uses_undefined(goal, facts, known) or any(a[0] in EXTRA and (a[0] not in known or "w1" not in known) for a in goal)
        try:
            result = [dict(b) for b in Solver(model).solve(atoms_to_real(goal))]
        except Exception as e:
            if undefined:
                continue
            raise Violation("unexpected-error", f"{when}: goal {goal} raised {e!r}; rules {facts.rules}")
        if undefined and want:
            continue
        names, bags = top_variables(goal)
        got = {norm_binding(b, names, bags) for b in result}
        expect = {norm_binding(b, names, bags) for b in want}
        ctx.event("query", len(got))
        if got != expect:
            raise Violation("wrong-rules", f"{when}: goal {goal}\n  answered {sorted(got, key=repr)[:12]}\n  follows  {sorted(expect, key=repr)[:12]}\n  rules {facts.rules}")


def simplify(plan):
    import copy
    if plan["bufsize"] != 8192:
        yield {**copy.deepcopy(plan), "bufsize": 8192}
    for i, file in enumerate(plan["files"]):
        for key, value in (("damage", None), ("retry", False), ("style", 1), ("style", 2)):
            if file[key] != value and file[key] != 1:
                p = copy.deepcopy(plan)
                p["files"][i][key] = value
                yield p


def warm():
    import richard.core.Solver, richard.core.Model, richard.module.InferenceModule, richard.data_source.Sqlite3DataSource  # noqa
