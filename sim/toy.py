"""
A small natural language application built from the real parts (parser, composer, optimizer, executor, inference rules, dialog
context, output buffer, generator, data sources), and an independent executable model of what it should answer.

A request is a JSON operation, for example ["tell", "John", "doctor"]; `render` gives its text, `Oracle.answer` the right answer.
"""
import os
import sqlite3

from sim.faultds import FaultDS, Faults

NAMES = ["John", "Mary", "Pete", "Anna", "Bob", "Clara", "Dirk", "Eve"]
NOUNS = ["nurse", "surgeon", "cook", "pilot", "teacher", "worker", "person"]
WORDS = ["medic", "chef", "flyer", "tutor", "human", "zork", "blip"]
ROOMS = ["kitchen", "garden", "hall"]

RULES = """
# intents
intent_tell(Atoms) :- store(Atoms), store(output_type('ok')).
intent_learn(Head, Body) :- learn_rule(Head, Body), store(output_type('ok')).
intent_yn(Body) :- (
    scoped(Body), store(output_type('yes'))
;   store(output_type('no'))
).
intent_list(V, Body) :- find_all(V, Body, Elements), store(output_type('list'), output_list(Elements)).
intent_count(Body) :- count(C, Body), store(output_type('value'), output_value(C)).
intent_start(Name) :- start_context(Name), store(output_type('ok')).
intent_end(Name) :- end_context(Name), store(output_type('ok')).
intent_ok() :- store(output_type('ok')).

# domain
ancestor(A, B) :- parent(A, B).
ancestor(A, C) :- parent(A, B), ancestor(B, C).
forever(A) :- forever(A).
busy(E) :- context('kitchen'), cook(E).
busy(E) :- context('garden'), pilot(E).
"""


def read_grammar(world):
    from richard.core.constants import E1, E2, E3, e1, e2
    from richard.entity.Variable import Variable
    from richard.core.constants import DISJUNCTION
    a1 = e1
    rules = [
        {"syn": "s(E1) -> proper_noun(E1) 'is' 'a' noun(E1)", "sem": lambda np, noun: np + [('intent_tell', noun)]},
        {"syn": "s(E1) -> 'is' proper_noun(E1) 'a' noun(E1)+'?'", "sem": lambda np, noun: np + [('intent_yn', noun)]},
        {"syn": "s(E1) -> proper_noun(E1) 'is' 'the' 'parent' 'of' proper_noun(E2)", "sem": lambda np1, np2: np1 + np2 + [('intent_tell', [('parent', E1, E2)])]},
        {"syn": "s(E1) -> 'is' proper_noun(E1) 'an' 'ancestor' 'of' proper_noun(E2)+'?'", "sem": lambda np1, np2: np1 + np2 + [('intent_yn', [('ancestor', E1, E2)])]},
        {"syn": "s(E1) -> 'who' 'are' 'the' 'children' 'of' proper_noun(E2)+'?'", "sem": lambda np: np + [('intent_list', a1, [('parent', E2, E1)])]},
        {"syn": "s(E1) -> 'who' 'are' 'the' 'descendants' 'of' proper_noun(E2)+'?'", "sem": lambda np: np + [('intent_list', a1, [('ancestor', E2, E1)])]},
        {"syn": "s(E1) -> 'how' 'many' noun(E1)+'s' 'are' 'there'+'?'", "sem": lambda noun: [('intent_count', noun)]},
        {"syn": "s(E1) -> 'which' noun(E1)+'s' 'are' 'there'+'?'", "sem": lambda noun: [('intent_list', a1, noun)]},
        {"syn": "s(E1) -> proper_noun(E1) 'is' number(E1) 'years' 'old'", "sem": lambda np, number: np + [('intent_tell', [('age', E1, number)])]},
        {"syn": "s(E1) -> 'how' 'old' 'is' proper_noun(E2)+'?'", "sem": lambda np: np + [('intent_list', a1, [('age', E2, E1)])]},
        {"syn": "s(E1, E2) -> 'which' noun(E1) 'is' 'the' 'oldest'+'?'", "sem": lambda noun: [(DISJUNCTION, [
            [('arg_max', E1, E2, noun + [('age', E1, E2)]), ('store', [('output_type', 'value'), ('output_value', E1)])],
            [('store', [('output_type', 'unknown')])]])]},
        {"syn": "s(E1, E2) -> 'what' 'is' 'the' 'total' 'age' 'of' 'the' noun(E1)+'s'+'?'", "sem": lambda noun: [
            ('sum', E3, E2, noun + [('age', E1, E2)]), ('store', [('output_type', 'value'), ('output_value', E3)])]},
        {"syn": "s(E1, E2) -> 'what' 'are' 'the' 'ages'+'?'", "sem": lambda: [
            ('find_all', [e1, e2], [('age', E1, E2)], E3), ('store', [('output_type', 'table'), ('output_table', E3, ['', 'years'])])]},
        {"syn": "s(E1) -> 'is' 'every' noun(E1) 'a' noun(E1)+'?'", "sem": lambda n1, n2: [('intent_yn', [('all', E1, n1, n2)])]},
        {"syn": "s(E1) -> 'is' 'no' noun(E1) 'a' noun(E1)+'?'", "sem": lambda n1, n2: [('intent_yn', [('none', n1 + n2)])]},
        {"syn": "s(E1) -> 'every' noun(E1) 'is' 'a' noun(E1)", "sem": lambda n1, n2: [('intent_learn', n2[0], n1)]},
        {"syn": "s() -> 'enter' room()", "sem": lambda room: [('intent_start', room)]},
        {"syn": "s() -> 'leave' room()", "sem": lambda room: [('intent_end', room)]},
        {"syn": "s(E1) -> 'where' 'are' 'we'+'?'", "sem": lambda: [('intent_list', a1, [('context', E1)])]},
        {"syn": "s(E1) -> 'is' proper_noun(E1) 'busy'+'?'", "sem": lambda np: np + [('intent_yn', [('busy', E1)])]},
        {"syn": "s(E1) -> 'in' 'the' room() 'is' proper_noun(E1) 'busy'+'?'", "sem": lambda room, np: np + [('with_context', room, [('intent_yn', [('busy', E1)])])]},
        {"syn": "s(E1) -> 'in' 'the' room() 'and' 'the' room() 'is' proper_noun(E1) 'busy'+'?'",
         "sem": lambda room1, room2, np: np + [('with_context', room1, [('with_context', room2, [('intent_yn', [('busy', E1)])])])]},
        {"syn": "s(E1) -> 'in' 'the' room() 'where' 'are' 'we'+'?'", "sem": lambda room: [('with_context', room, [('intent_list', a1, [('context', E1)])])]},
        {"syn": "s(E1) -> 'the' 'word' word() 'means' noun(E1)", "sem": lambda word, noun: [('learn_grammar_rule', world.word_rule(word, noun[0][0])), ('intent_ok',)]},
        {"syn": "s(E1) -> 'the' 'name' name()", "sem": lambda name: [('intent_tell', [('has_name', name, name)])]},
        {"syn": "s(E1, E2) -> 'what' 'did' 'we' 'talk' 'about'+'?'", "sem": lambda: [('intent_list', a1, [('dialog_isa', E2, E1)])]},
        {"syn": "s(E1) -> 'describe' proper_noun(E1)", "sem": lambda np: np + [('store', [('output_type', 'describe'), ('output_value', E1)])]},
        {"syn": "s() -> 'crash'", "sem": lambda: [('boom',)]},
        {"syn": "s() -> 'quiet'", "sem": lambda: [('quiet',)]},
        {"syn": "s() -> 'loop'", "sem": lambda: [('forever', 1)]},
        {"syn": "proper_noun(E1) -> /[A-Z]\\w+/", "sem": lambda token: [('resolve_name', token, E1)]},
        {"syn": "name() -> /[A-Z]\\w+/", "sem": lambda token: token.lower()},
        {"syn": "word() -> /[a-z]+/", "sem": lambda token: token},
        {"syn": "number(E1) -> /\\d+/", "sem": lambda token: int(token)},
    ]
    for room in ROOMS:
        rules.append({"syn": f"room() -> '{room}'", "sem": lambda room=room: room})
    for noun in NOUNS:
        rules.append({"syn": f"noun(E1) -> '{noun}'", "sem": lambda noun=noun: [(noun, E1)], "dialog": [('dialog_isa', e1, noun)]})
    return rules


def dutch_grammar(world):
    from richard.core.constants import E1, e1
    rules = [
        {"syn": "s(E1) -> proper_noun(E1) 'is' 'een' noun(E1)", "sem": lambda np, noun: np + [('intent_tell', noun)]},
        {"syn": "s(E1) -> 'is' proper_noun(E1) 'een' noun(E1)+'?'", "sem": lambda np, noun: np + [('intent_yn', noun)]},
        {"syn": "proper_noun(E1) -> /[A-Z]\\w+/", "sem": lambda token: [('resolve_name', token, E1)]},
    ]
    for dutch, noun in DUTCH.items():
        rules.append({"syn": f"noun(E1) -> '{dutch}'", "sem": lambda noun=noun: [(noun, E1)], "dialog": [('dialog_isa', e1, noun)]})
    return rules


DUTCH = {"zuster": "nurse", "chirurg": "surgeon", "kok": "cook", "piloot": "pilot", "leraar": "teacher"}


def write_grammar():
    from richard.core.constants import E1, E2
    return [
        {"syn": "s() -> 'OK'", "if": [('output_type', 'ok')]},
        {"syn": "s() -> 'yes'", "if": [('output_type', 'yes')]},
        {"syn": "s() -> 'no'", "if": [('output_type', 'no')]},
        {"syn": "s() -> 'unknown'", "if": [('output_type', 'unknown')]},
        {"syn": "s() -> text(E1)", "if": [('output_type', 'value'), ('output_value', E1)]},
        {"syn": "s() -> format(E1)", "if": [('output_type', 'list'), ('output_list', E1)], "format": lambda elements: format_list(elements)},
        {"syn": "s() -> format(E1, E2)", "if": [('output_type', 'table'), ('output_table', E1, E2)], "format": lambda rows, units: format_table(rows, units)},
        {"syn": "s() -> person(E1)+'.'", "if": [('output_type', 'describe'), ('output_value', E1)]},
        {"syn": "person(E1) -> text(E1) 'with' person(E2)", "if": [('parent', E1, E2)]},
        {"syn": "person(E1) -> text(E1)+age(E1)?"},
        {"syn": "age(E1) -> ',' text(E2)", "if": [('age', E1, E2)]},
        {"syn": "s() -> 'I do not know' text(E1)+'!'", "if": [('output_type', 'name_not_found'), ('output_name_not_found', E1)]},
    ]


def format_list(elements):
    return ", ".join(sorted(str(e) for e in elements)) or "nothing"


def format_table(rows, units):
    return [[f"{v} {u}".strip() for v, u in zip(row, units)] for row in sorted(rows, key=str)]


COLUMNS = {"has_name": ["name", "id"], "parent": ["parent", "child"], "age": ["person", "years"], **{n: ["id"] for n in NOUNS}}


class Boom(Exception):
    pass


class Toy:
    """cfg: layout sqlite|simple|split|mirror|archive, plain (no faults in the output buffer and the dialog context), optimizer bool, multilingual bool, names: known names, logging None|all|products, blocks"""

    def __init__(self, cfg, scratch, faults=None, shared=None, connection=None):
        from richard.block.FindAll import FindAll
        from richard.block.FindOne import FindOne
        from richard.block.TryFirst import TryFirst
        from richard.core.BasicGenerator import BasicGenerator
        from richard.core.Logger import Logger
        from richard.core.Model import Model
        from richard.core.System import System
        from richard.data_source.SimpleDataSource import SimpleDataSource
        from richard.data_source.Sqlite3DataSource import Sqlite3DataSource
        from richard.entity.Relation import Relation
        from richard.grammar.en_us_write import get_en_us_write_grammar
        from richard.interface.SomeModule import SomeModule
        from richard.module.BasicDialogContext import BasicDialogContext
        from richard.module.BasicOutputBuffer import BasicOutputBuffer
        from richard.module.GrammarModule import GrammarModule
        from richard.module.InferenceModule import InferenceModule
        from richard.processor.language_selector.LanguageSelector import LanguageSelector
        from richard.processor.language_selector.Multilingual import Multilingual
        from richard.processor.parser.BasicParser import BasicParser
        from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser
        from richard.processor.semantic_composer.SemanticComposer import SemanticComposer
        from richard.processor.semantic_composer.optimizer.BasicQueryOptimizer import BasicQueryOptimizer
        from richard.processor.semantic_executor.AtomExecutor import AtomExecutor

        self.cfg = cfg
        self.faults = faults
        toy = self

        def wrap(source):
            return FaultDS(source, faults) if faults else source

        def sqlite_source(names):
            if connection is not None:
                return Sqlite3DataSource(connection)
            return new_source(names)

        def new_source(names):
            connection = sqlite3.connect(":memory:", isolation_level=None)
            for name in names:
                connection.execute(f"CREATE TABLE {name} ({', '.join(COLUMNS[name])})")
            return Sqlite3DataSource(connection)

        class WorldModule(SomeModule):
            def __init__(self, source, names, main, writable=True):
                super().__init__()
                self.source = source
                for i, name in enumerate(names):
                    size = {"parent": 40, "age": 20}.get(name, 10)
                    self.add_relation(Relation(name, arguments=COLUMNS[name], query_function=self.query, write_function=self.write if writable else None,
                                               relation_size=size, argument_sizes=[10] * len(COLUMNS[name])))
                if main:
                    self.add_relation(Relation("resolve_name", query_function=self.resolve_name))
                    self.add_relation(Relation("boom", query_function=self.boom))
                    self.add_relation(Relation("quiet", query_function=self.quiet))

            def query(self, values, context):
                return self.source.select(context.relation.predicate, context.relation.arguments, values)

            def write(self, values, context):
                self.source.insert(context.relation.predicate, context.relation.arguments, list(values))

            def resolve_name(self, values, context):
                name = values[0].lower()
                rows = toy.names_source.select("has_name", ["name", "id"], [name, None])
                if rows:
                    return [[None, row[1]] for row in rows]
                context.solver.solve([('store', [('output_type', 'name_not_found'), ('output_name_not_found', name)])])
                return []

            def boom(self, values, context):
                context.solver.solve([('store', [('output_type', 'yes')])])
                raise Boom("boom")

            def quiet(self, values, context):
                return [[]]

        if shared is not None:
            self.worlds, self.sources, self.names_source = shared.worlds, shared.sources, shared.names_source
        else:
            names = list(COLUMNS)
            if cfg["layout"] == "sqlite":
                parts = [(sqlite_source(names), names)]
            elif cfg["layout"] == "simple":
                parts = [(SimpleDataSource(), names)]
            elif cfg["layout"] in ("mirror", "archive"):
                # two sources that know the same relations
                parts = [(sqlite_source(names), names), (SimpleDataSource(), names)]
                if cfg.get("swap"):
                    parts.reverse()
                for name, *values in cfg.get("archive", []) if cfg["layout"] == "archive" else []:
                    parts[1][0].insert(name, COLUMNS[name], values)
            else:
                a, b = names[::2], names[1::2]
                parts = [(sqlite_source(a), a), (SimpleDataSource(), b)]
            self.sources = [(wrap(source), part) for source, part in parts]
            self.names_source = [s for s, part in self.sources if "has_name" in part][0]
            for name in cfg["names"] if connection is None else []:
                for source, part in parts:
                    if "has_name" in part:
                        source.insert("has_name", ["name", "id"], [name.lower(), name.lower()])
            self.worlds = [WorldModule(source, part, i == 0, i == 0 or cfg["layout"] != "archive") for i, (source, part) in enumerate(self.sources)]

        class Output(BasicOutputBuffer):
            def clear(self):
                super().clear()
                self.data_source = wrap(self.data_source)

        class Dialog(BasicDialogContext):
            def clear(self):
                super().clear()
                self.data_source = wrap(self.data_source)

        self.inferences = InferenceModule()
        path = os.path.join(scratch, "toy-rules.pl")
        if not os.path.exists(path):
            with open(path, "w") as f:
                f.write(RULES)
        self.inferences.import_rules(path)
        self.output = BasicOutputBuffer() if cfg.get("plain") else Output()
        self.dialog = BasicDialogContext() if cfg.get("plain") else Dialog()
        self.read = SimpleGrammarRulesParser().parse_read_grammar(read_grammar(self) + [self.word_rule(w, n) for w, n in cfg.get("static_words", [])])
        self.model = Model(self.worlds + [self.inferences, self.output, self.dialog, GrammarModule(self.read)])

        blocks = []
        self.parser = BasicParser(self.read)
        if cfg["multilingual"]:
            locales = cfg["multilingual"]
            selector = LanguageSelector(locales)
            dutch = BasicParser(SimpleGrammarRulesParser().parse_read_grammar(dutch_grammar(self)))
            self.parser = Multilingual({"en": self.parser, "nl": dutch}, selector)
            blocks.append(FindOne(selector))
        self.composer = SemanticComposer(self.parser, query_optimizer=BasicQueryOptimizer(self.model) if cfg["optimizer"] else None)
        self.executor = AtomExecutor(self.composer, self.model)
        blocks += [FindOne(self.parser), TryFirst(self.composer), TryFirst(self.executor)]
        self.write = SimpleGrammarRulesParser().parse_write_grammar(get_en_us_write_grammar() + write_grammar())
        self.generator = BasicGenerator(self.write, self.model, self.output)
        self.system = System(model=self.model, input_pipeline=blocks, output_generator=self.generator)
        self.logger = None
        if cfg.get("logging"):
            self.logger = Logger()
            self.logger.log_all_tests()
            if cfg["logging"] == "products":
                self.logger.log_products()
                self.logger.log_stats()

    def word_rule(self, word, noun):
        from richard.core.constants import E1, e1
        return {"syn": f"noun(E1) -> '{word}'", "sem": lambda: [(noun, E1)], "dialog": [('dialog_isa', e1, noun)]}

    def request(self, text):
        from richard.entity.SentenceRequest import SentenceRequest
        return SentenceRequest(text, logger=self.logger) if self.logger else SentenceRequest(text)

    def ask(self, text):
        self.system.enter(self.request(text))
        return self.system.read_output()

    def raw(self):
        """What the data sources really hold, as sets."""
        enabled = self.faults.enabled if self.faults else None
        if self.faults:
            self.faults.enabled = False
        try:
            rows = {}
            for source, part in self.sources:
                inner = source.inner if isinstance(source, FaultDS) else source
                for name in part:
                    rows.setdefault(name, set()).update(tuple(r) for r in inner.select(name, COLUMNS[name], [None] * len(COLUMNS[name])))
            return {name: sorted(found, key=repr) for name, found in rows.items()}
        finally:
            if self.faults:
                self.faults.enabled = enabled

    def contexts(self):
        source = self.dialog.data_source
        inner = source.inner if isinstance(source, FaultDS) else source
        return sorted({r[0] for r in inner.select("context", ["name"], [None])})

    def grammar_size(self):
        """0 if the grammar is not organized as it is now (containers are counted anyway)."""
        try:
            return sum(len(rules) for by_count in self.read.index.values() for rules in by_count.values())
        except (AttributeError, TypeError):
            return 0


# --- requests

def gen_config(rng, multilingual=0.25):
    known = rng.sample(NAMES, rng.randrange(2, len(NAMES) + 1))
    cfg = {"layout": rng.choice(["sqlite", "simple", "split", "mirror", "archive", "archive"]), "optimizer": rng.random() < 0.5,
           "multilingual": rng.choice([["en", "nl"], ["nl", "en"]]) if rng.random() < multilingual else None,
           "names": known, "logging": rng.choice([None, None, None, "all", "products"]), "plain": rng.random() < 0.3, "swap": rng.random() < 0.3}
    if cfg["layout"] == "archive":
        facts = []
        for _ in range(rng.choice([2, 5, 10, 20])):
            i = rng.randrange(len(NAMES) - 1)
            facts.append(rng.choice([[rng.choice(NOUNS), NAMES[i].lower()], [rng.choice(NOUNS), NAMES[i].lower()], ["parent", NAMES[i].lower(), NAMES[rng.randrange(i + 1, len(NAMES))].lower()],
                                     ["age", NAMES[i].lower(), 10 + i + 8 * rng.randrange(0, 3)]]))
        cfg["archive"] = facts
    return cfg


KINDS = {"tell": 6, "isa": 6, "parent": 4, "ancestor": 2, "children": 2, "descendants": 2, "count": 3, "which": 3, "age": 3, "howold": 1, "oldest": 2, "total": 1,
         "ages": 1, "every": 2, "no": 1, "learn": 2, "enter": 2, "leave": 1, "where": 1, "busy": 2, "inbusy": 2, "in2busy": 1, "inwhere": 1, "word": 2,
         "name": 2, "talk": 1, "describe": 2, "crash": 1, "quiet": 1, "loop": 0, "garbage": 2, "dutch_tell": 1, "dutch_isa": 1}


def gen_op(rng, kinds=None, words=()):
    weights = {**KINDS, **(kinds or {})}
    kind = rng.choices(list(weights), list(weights.values()))[0]

    def name():
        return rng.choice(NAMES)

    def noun():
        if words and rng.random() < 0.3:
            return rng.choice(list(words))
        if rng.random() < 0.08:
            return rng.choice(WORDS)
        return rng.choice(NOUNS)

    if kind in ("tell", "isa"):
        return [kind, name(), noun()]
    if kind == "parent":
        i = rng.randrange(len(NAMES) - 1)
        return [kind, NAMES[i], NAMES[rng.randrange(i + 1, len(NAMES))]]
    if kind == "ancestor":
        return [kind, name(), name()]
    if kind in ("children", "descendants", "howold", "busy", "name", "describe"):
        return [kind, name()]
    if kind in ("count", "which", "oldest", "total"):
        return [kind, noun()]
    if kind == "age":
        i = rng.randrange(len(NAMES))
        return [kind, NAMES[i], 10 + i + 8 * rng.randrange(0, 3)]
    if kind in ("every", "no"):
        return [kind, noun(), noun()]
    if kind == "learn":
        i = rng.randrange(len(NOUNS) - 1)
        return [kind, NOUNS[i], NOUNS[rng.randrange(i + 1, len(NOUNS))]]
    if kind in ("enter", "leave", "inwhere"):
        return [kind, rng.choice(ROOMS)]
    if kind == "inbusy":
        return [kind, rng.choice(ROOMS), name()]
    if kind == "in2busy":
        return [kind, rng.choice(ROOMS), rng.choice(ROOMS), name()]
    if kind == "word":
        return [kind, rng.choice(WORDS), rng.choice(NOUNS)]
    if kind == "garbage":
        return [kind, rng.choice(["", "xyzzy", "John", "is John a", "what is the meaning of life?", "John is a doctr", "is john a cook?", "  ", "how many",
                                  "who are the children of", "John is the parent of mary", "\u00e9\u00e9n", "enter", "?", "John is a cook."])]
    if kind in ("dutch_tell", "dutch_isa"):
        return [kind, name(), rng.choice(list(DUTCH))]
    return [kind]


def render(op):
    kind, a = op[0], op[1:]
    return {
        "tell": lambda: f"{a[0]} is a {a[1]}",
        "isa": lambda: f"is {a[0]} a {a[1]}?",
        "parent": lambda: f"{a[0]} is the parent of {a[1]}",
        "ancestor": lambda: f"is {a[0]} an ancestor of {a[1]}?",
        "children": lambda: f"who are the children of {a[0]}?",
        "descendants": lambda: f"who are the descendants of {a[0]}?",
        "count": lambda: f"how many {a[0]}s are there?",
        "which": lambda: f"which {a[0]}s are there?",
        "age": lambda: f"{a[0]} is {a[1]} years old",
        "howold": lambda: f"how old is {a[0]}?",
        "oldest": lambda: f"which {a[0]} is the oldest?",
        "total": lambda: f"what is the total age of the {a[0]}s?",
        "ages": lambda: "what are the ages?",
        "every": lambda: f"is every {a[0]} a {a[1]}?",
        "no": lambda: f"is no {a[0]} a {a[1]}?",
        "learn": lambda: f"every {a[0]} is a {a[1]}",
        "enter": lambda: f"enter {a[0]}",
        "leave": lambda: f"leave {a[0]}",
        "where": lambda: "where are we?",
        "busy": lambda: f"is {a[0]} busy?",
        "inbusy": lambda: f"in the {a[0]} is {a[1]} busy?",
        "in2busy": lambda: f"in the {a[0]} and the {a[1]} is {a[2]} busy?",
        "inwhere": lambda: f"in the {a[0]} where are we?",
        "word": lambda: f"the word {a[0]} means {a[1]}",
        "name": lambda: f"the name {a[0]}",
        "describe": lambda: f"describe {a[0]}",
        "talk": lambda: "what did we talk about?",
        "crash": lambda: "crash",
        "quiet": lambda: "quiet",
        "loop": lambda: "loop",
        "garbage": lambda: a[0],
        "dutch_tell": lambda: f"{a[0]} is een {a[1]}",
        "dutch_isa": lambda: f"is {a[0]} een {a[1]}?",
    }[kind]()


class Raises:
    """The request fails (with this kind of exception) and is reported to the caller."""

    def __init__(self, text):
        self.text = text

    def __repr__(self):
        return f"raises {self.text}"


class CannotParse:
    def __repr__(self):
        return "a message that the text was not understood"


class OneOf:
    def __init__(self, options):
        self.options = options

    def __repr__(self):
        return f"one of {sorted(self.options)}"


def matches(expected, got, error):
    if isinstance(expected, Raises):
        return error is not None and not isinstance(error, (KeyError, IndexError, AttributeError, TypeError, UnboundLocalError))
    if error is not None:
        return False
    if isinstance(expected, CannotParse):
        return got in ("Sorry, I don't understand", "No sentence given") or (isinstance(got, str) and got.startswith("Could not understand:"))
    if isinstance(expected, OneOf):
        return got in expected.options
    return got == expected


class Oracle:
    def __init__(self, cfg):
        self.multilingual = bool(cfg["multilingual"])
        self.names = {n.lower() for n in cfg["names"]}
        self.facts = {n: set() for n in NOUNS}
        self.parents = set()
        self.ages = set()
        self.rules = set()
        self.contexts = set()
        self.words = {n: n for n in NOUNS}
        for word, noun in cfg.get("static_words", []):
            self.words[word] = noun
        self.talked = set()
        for name, *values in cfg.get("archive", []) if cfg["layout"] == "archive" else []:
            if name == "parent":
                self.parents.add(tuple(values))
            elif name == "age":
                self.ages.add(tuple(values))
            else:
                self.facts[name].add(values[0])

    def copy(self):
        import copy
        return copy.deepcopy(self)

    # what follows from the facts and rules
    def members(self, noun):
        out = set(self.facts[noun])
        for sub, sup in self.rules:
            if sup == noun:
                out |= self.members(sub)
        return out

    def descendants(self, name):
        out = set()
        for p, c in self.parents:
            if p == name:
                out |= {c} | self.descendants(c)
        return out

    def busy(self, name, contexts):
        return ("kitchen" in contexts and name in self.members("cook")) or ("garden" in contexts and name in self.members("pilot"))

    def answer(self, op):
        """Applies the request and returns the right answer."""
        kind, a = op[0], list(op[1:])

        def yn(value):
            return "yes" if value else "no"

        if kind == "garbage":
            return CannotParse()
        if kind in ("dutch_tell", "dutch_isa"):
            if not self.multilingual:
                return CannotParse()
            a[1] = DUTCH[a[1]]
            kind = kind[6:]
        elif kind in ("tell", "isa", "count", "which", "oldest", "total", "every", "no", "learn", "word"):
            # translate nouns
            positions = {"tell": [1], "isa": [1], "count": [0], "which": [0], "oldest": [0], "total": [0], "every": [0, 1], "no": [0, 1], "learn": [0, 1], "word": [1]}[kind]
            for p in positions:
                if a[p] not in self.words:
                    return CannotParse()
                a[p] = self.words[a[p]]
        # the nouns that occur are remembered in the dialog, also when a name turns out to be unknown
        for p in {"tell": [1], "isa": [1], "count": [0], "which": [0], "oldest": [0], "total": [0], "every": [0, 1], "no": [0, 1], "learn": [0, 1], "word": [1]}.get(kind, []):
            self.talked.add(a[p])
        # resolve names in order
        for p in {"tell": [0], "isa": [0], "parent": [0, 1], "ancestor": [0, 1], "children": [0], "descendants": [0], "age": [0], "howold": [0], "busy": [0], "describe": [0],
                  "inbusy": [1], "in2busy": [2]}.get(kind, []):
            a[p] = a[p].lower()
            if a[p] not in self.names:
                return f"I do not know {a[p]}!"

        if kind == "tell":
            self.facts[a[1]].add(a[0])
            return "OK"
        if kind == "isa":
            return yn(a[0] in self.members(a[1]))
        if kind == "parent":
            self.parents.add((a[0], a[1]))
            return "OK"
        if kind == "ancestor":
            return yn(a[1] in self.descendants(a[0]))
        if kind == "children":
            return format_list({c for p, c in self.parents if p == a[0]})
        if kind == "descendants":
            return format_list(self.descendants(a[0]))
        if kind == "count":
            return str(len(self.members(a[0])))
        if kind == "which":
            return format_list(self.members(a[0]))
        if kind == "age":
            self.ages.add((a[0], a[1]))
            return "OK"
        if kind == "howold":
            return format_list({y for p, y in self.ages if p == a[0]})
        if kind in ("oldest", "total"):
            candidates = [(y, p) for p, y in self.ages if p in self.members(a[0])]
            if kind == "total":
                return str(sum(y for y, _ in candidates))
            return max(candidates)[1] if candidates else "unknown"
        if kind == "ages":
            return format_table(list(self.ages), ["", "years"])
        if kind == "every":
            return yn(self.members(a[0]) and self.members(a[0]) <= self.members(a[1]))
        if kind == "no":
            return yn(not self.members(a[0]) & self.members(a[1]))
        if kind == "learn":
            self.rules.add((a[0], a[1]))
            return "OK"
        if kind == "enter":
            self.contexts.add(a[0])
            return "OK"
        if kind == "leave":
            self.contexts.discard(a[0])
            return "OK"
        if kind == "where":
            return format_list(self.contexts)
        if kind == "busy":
            return yn(self.busy(a[0], self.contexts))
        if kind == "inbusy":
            return yn(self.busy(a[1], self.contexts | {a[0]}))
        if kind == "in2busy":
            return yn(self.busy(a[2], self.contexts | {a[0], a[1]}))
        if kind == "inwhere":
            return format_list(self.contexts | {a[0]})
        if kind == "word":
            if a[0] in self.words and self.words[a[0]] != a[1]:
                return None
            self.words[a[0]] = a[1]
            return "OK"
        if kind == "name":
            self.names.add(a[0].lower())
            return "OK"
        if kind == "talk":
            return format_list(self.talked)
        if kind == "describe":
            def with_age(p):
                return {f"{p}, {y}." for q, y in self.ages if q == p} or {f"{p}."}
            children = {c for p, c in self.parents if p == a[0]}
            return OneOf({f"{a[0]} with {t}" for c in children for t in with_age(c)} or with_age(a[0]))
        if kind == "crash":
            return Raises("boom")
        if kind == "loop":
            return Raises("recursion")
        if kind == "quiet":
            return Raises("no answer")
        raise ValueError(kind)

    def rows(self):
        out = {n: sorted({(i,) for i in ids}, key=repr) for n, ids in self.facts.items()}
        out["parent"] = sorted(self.parents, key=repr)
        out["age"] = sorted(self.ages, key=repr)
        out["has_name"] = sorted({(n, n) for n in self.names}, key=repr)
        return out


# --- requests that fail half way

ASPECTS = ["names", "facts", "parents", "ages", "rules", "words"]


def subsets(items):
    items = sorted(items)
    for n in range(1 << len(items)):
        yield {x for i, x in enumerate(items) if n >> i & 1}


def partials(before, after, may_remain=()):
    """All knowledge that a request may leave behind when it fails: any part of what it does when it succeeds."""
    changed = [x for x in ASPECTS if getattr(before, x) != getattr(after, x)]
    talked = after.talked - before.talked
    maybe_contexts = (before.contexts ^ after.contexts) | (set(may_remain) - before.contexts)
    for chosen in subsets(changed):
        for extra in subsets(talked):
            for flips in subsets(maybe_contexts):
                o = before.copy()
                for x in chosen:
                    setattr(o, x, getattr(after.copy(), x))
                o.talked = before.talked | extra
                o.contexts = before.contexts ^ flips
                yield o


def key_of(o):
    return repr((sorted(o.names), sorted((k, sorted(v)) for k, v in o.facts.items()), sorted(o.parents), sorted(o.ages), sorted(o.rules),
                 sorted(o.words.items()), sorted(o.contexts), sorted(o.talked)))


class Belief:
    """What the application may know: one oracle, or several after a request that failed half way."""

    def __init__(self, oracle):
        self.worlds = [oracle]

    def set(self, worlds):
        seen, out = set(), []
        for o in worlds:
            k = key_of(o)
            if k not in seen:
                seen.add(k)
                out.append(o)
        self.worlds = out

    def failed(self, op, may_remain=()):
        new = []
        for o in self.worlds:
            after = o.copy()
            after.answer(op)
            new.extend(partials(o, after, may_remain))
        self.set(new)

    def narrow_rows(self, rows):
        fit = [o for o in self.worlds if o.rows() == rows]
        if fit:
            self.set(fit)
        return bool(fit)

    def narrow_contexts(self, contexts):
        fit = [o for o in self.worlds if sorted(o.contexts) == contexts]
        if fit:
            self.set(fit)
        return bool(fit)

    def expect(self, op, got, error):
        """The answers that would have been right; empty when the given answer was."""
        fit, wanted = [], []
        for o in self.worlds:
            after = o.copy()
            want = after.answer(op)
            if want is None or matches(want, got, error):
                fit.append(after)
            else:
                wanted.append(want)
        if fit:
            self.set(fit)
            return []
        return wanted


def allowed(op, belief):
    """Operations of which the outcome is not a matter of taste."""
    if op[0] == "word":
        # a word with two meanings is ambiguous
        return all(op[1] not in o.words for o in belief.worlds)
    return True
