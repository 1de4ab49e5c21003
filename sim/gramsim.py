"""Random grammars and a small complete system on them, used by C15, C16 and C17."""
import random

WORDS = ["red", "old", "star", "dog", "sees", "x1"]

# category -> numbers of arguments
CATEGORIES = {"np": 1, "adj": 1, "vp": 2, "adv": 0}


def gen_rule(rng, k):
    """{"syn", "tag": variables that the tag atom gets, "boost"}; k identifies the rule in semantics."""
    w = rng.choice(WORDS)
    w2 = rng.choice(WORDS)
    syn = rng.choice([
        f"s(E1) -> np(E1)", f"s(E1) -> np(E1)+'?'", f"s(E1) -> 'the' np(E1)", f"s(E1, E2) -> np(E1) vp(E1, E2)", f"s(E1) -> adv() np(E1)", f"s() -> adv()", f"s(E1, E2) -> np(E1) '{w}' np(E2)",
        f"s(E1, E2, E3) -> np(E1) np(E2) np(E3)", f"s(E1) -> np(E1) adv()",
        f"np(E1) -> '{w}'", f"np(E1) -> '{w}'", f"np(E1) -> '{w}'", f"np(E1) -> adj(E1) np(E1)", f"np(E1) -> np(E1) 'with' np(E2)", f"np(E1) -> '{w}' '{w2}'", f"np(E1) -> /[a-z]\\d/", f"np(E1) -> /\\d+/",
        f"np(E1) -> adj(E1)", f"np(E1) -> 'the'? '{w}'", f"np(E1) -> adj(E1)+'s'", f"np(E1) -> np(E1) adv()",
        f"adj(E1) -> '{w}'", f"adj(E1) -> '{w}'", f"adj(E1) -> 'very' adj(E1)", f"adj(E1) -> '{w}'~'{w2}'",
        f"vp(E1, E2) -> '{w}' np(E2)", f"vp(E1, E2) -> 'sees' np(E2)", f"vp(E1, E2) -> vp(E1, E2) adv()",
        f"adv() -> '{w}'", f"adv() -> '{w}' adv()",
        f"np(E1) -> adj(E1) 'old'? np(E1)", f"np(E1) -> \"{w}\"", f"s(E1) -> \"the\" np(E1) '{w}'?", f"np(E1) -> '{w}'? adj(E1) 'x1'?"])
    return {"syn": syn, "k": k, "boost": rng.choice([0, 0, 0, 0, 1, 5]), "dialog": rng.choice([True, "function"]) if rng.random() < 0.15 else False}


CORE = ["s(E1) -> np(E1)", "s(E1) -> np(E1)", "s(E1, E2) -> np(E1) vp(E1, E2)", "np(E1) -> 'star'", "np(E1) -> adj(E1) np(E1)", "adj(E1) -> 'red'", "vp(E1, E2) -> 'sees' np(E2)", "np(E1) -> np(E1) 'with' np(E2)"]


def gen_base(rng, n):
    """Rules of which most can be used."""
    rules = [gen_rule(rng, k) for k in range(n)]
    if rng.random() < 0.85:
        core = rng.sample(CORE, rng.randrange(3, len(CORE) + 1))
        rules += [{"syn": syn, "k": 50 + i, "boost": 0, "dialog": False} for i, syn in enumerate(dict.fromkeys(core))]
        rng.shuffle(rules)
    return rules


def gen_sentence(rng, rules, depth=0, category="s"):
    """Words that the rules derive for a category, or random ones."""
    import re
    options = [r for r in rules if isinstance(r.get("syn"), str) and r["syn"].startswith(category + "(") and "->" in r["syn"]]
    if depth > 4 or not options:
        return rng.choice(WORDS)
    syn = rng.choice(options)["syn"].split("->", 1)[1].replace('"', "'")
    out = ""
    for m in re.finditer(r"'([^']*)'(\??)|/([^/]*)/|(\w+)\([^)]*\)|(\+|~)|(\s+)", syn):
        if m.group(1) is not None:
            if m.group(2) and rng.random() < 0.5:
                continue
            out += m.group(1)
        elif m.group(3) is not None:
            out += str(rng.randrange(1, 99)) if m.group(3).startswith("\\d") else rng.choice(["x1", "y2"])
        elif m.group(4):
            out += gen_sentence(rng, rules, depth + 1, m.group(4))
        elif m.group(5) == "+":
            pass
        elif m.group(5) == "~":
            out += rng.choice([" ", ""])
        else:
            out += " "
    return re.sub(r"\s+", " ", out).strip()


def noise(rng, sentence):
    words = sentence.split(" ")
    x = rng.random()
    if x < 0.3 and words:
        del words[rng.randrange(len(words))]
    elif x < 0.6:
        words.insert(rng.randrange(len(words) + 1), rng.choice(WORDS + ["zz", "the", "with"]))
    elif words:
        words[rng.randrange(len(words))] = rng.choice(WORDS)
    return " ".join(words)


def real_rule(rule):
    """The rule as an application writes it."""
    if "raw" in rule:
        return rule["raw"]
    from richard.core.constants import E1, e1
    k = rule["k"]
    has_variable = "(E1" in rule["syn"].split("->")[0]

    def sem(*parts):
        atoms = []
        for p in parts:
            atoms.extend(p if isinstance(p, list) else [('heard', p)])
        return atoms + [('tag', k, E1) if has_variable else ('ran', k)]

    out = {"syn": rule["syn"], "sem": sem}
    if rule.get("boost"):
        out["boost"] = rule["boost"]
    if rule.get("dialog") and has_variable:
        out["dialog"] = (lambda *parts: [('seen', k)]) if rule["dialog"] == "function" else [('seen', k)]
    return out


class Boom(Exception):
    pass


class GramSystem:
    """A complete system with the given read grammar. pool: rules that can be learned by their number."""

    def __init__(self, base, pool=(), extra=(), blocks=("all", "first", "first"), optimizer=False, second=None):
        from richard.block.FindAll import FindAll
        from richard.block.FindOne import FindOne
        from richard.block.TryFirst import TryFirst
        from richard.core.BasicGenerator import BasicGenerator
        from richard.core.Model import Model
        from richard.core.System import System
        from richard.core.constants import DISJUNCTION
        from richard.entity.Relation import Relation
        from richard.grammar.en_us_write import get_en_us_write_grammar
        from richard.interface.SomeModule import SomeModule
        from richard.module.BasicOutputBuffer import BasicOutputBuffer
        from richard.module.GrammarModule import GrammarModule
        from richard.processor.language_selector.LanguageSelector import LanguageSelector
        from richard.processor.language_selector.Multilingual import Multilingual
        from richard.processor.parser.BasicParser import BasicParser
        from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser
        from richard.processor.semantic_composer.SemanticComposer import SemanticComposer
        from richard.processor.semantic_composer.optimizer.BasicQueryOptimizer import BasicQueryOptimizer
        from richard.processor.semantic_executor.AtomExecutor import AtomExecutor

        kinds = {"all": FindAll, "one": FindOne, "first": TryFirst}
        self.noted = []
        self.inside = None
        me = self

        class World(SomeModule):
            def __init__(self):
                super().__init__()
                self.add_relation(Relation("tag", query_function=self.tag))
                for name in ("heard", "ran"):
                    self.add_relation(Relation(name, query_function=self.note))
                self.add_relation(Relation("boom", query_function=self.boom))
                self.add_relation(Relation("fails", query_function=self.fails))
                self.add_relation(Relation("seen", query_function=self.note, write_function=self.write))

            def tag(self, values, context):
                return [[None, f"e{values[0]}" if values[1] is None else None]]

            def note(self, values, context):
                return [[None for _ in values]]

            def write(self, values, context):
                pass

            def boom(self, values, context):
                raise Boom("boom")

            def fails(self, values, context):
                return []

        def real(n):
            return real_rule(pool[n]) if n < len(pool) else {}

        learn = [
            {"syn": "s() -> 'learn' /\\d+/", "sem": lambda n: [('learn_grammar_rule', real(int(n)))]},
            {"syn": "s() -> 'learn' /\\d+/ /\\d+/", "sem": lambda n, m: [('learn_grammar_rule', real(int(n))), ('learn_grammar_rule', real(int(m)))]},
            {"syn": "s() -> 'learn' /\\d+/ 'crash'", "sem": lambda n: [('learn_grammar_rule', real(int(n))), ('boom',)]},
            {"syn": "s() -> 'crash' 'learn' /\\d+/", "sem": lambda n: [('boom',), ('learn_grammar_rule', real(int(n)))]},
            {"syn": "s() -> 'no' 'learn' /\\d+/", "sem": lambda n: [('fails',), ('learn_grammar_rule', real(int(n)))]},
            {"syn": "s() -> 'either' 'learn' /\\d+/", "sem": lambda n: [(DISJUNCTION, [[('fails',)], [('learn_grammar_rule', real(int(n)))]])]},
            {"syn": "s() -> 'now' 'learn' /\\d+/", "sem": lambda n: [], "exec": lambda n: [('learn_grammar_rule', real(int(n)))]},
        ]
        self.read = SimpleGrammarRulesParser().parse_read_grammar(learn + [real_rule(r) for r in base] + [real_rule(r) for r in extra])
        self.output = BasicOutputBuffer()
        self.model = Model([World(), self.output, GrammarModule(self.read)])
        self.parser = BasicParser(self.read)
        selector = None
        if second is not None:
            # sentences of a second language
            other = SimpleGrammarRulesParser().parse_read_grammar(learn + [real_rule(r) for r in second])
            selector = LanguageSelector(["en", "nl"])
            self.parser = Multilingual({"en": self.parser, "nl": BasicParser(other)}, selector)
        self.composer = SemanticComposer(self.parser, query_optimizer=BasicQueryOptimizer(self.model) if optimizer else None)
        self.executor = AtomExecutor(self.composer, self.model)
        self.blocks = [kinds[b](p) for b, p in zip(blocks, (self.parser, self.composer, self.executor))]
        if selector:
            self.blocks.insert(0, FindOne(selector))
        write = SimpleGrammarRulesParser().parse_write_grammar(get_en_us_write_grammar())
        self.generator = BasicGenerator(write, self.model, self.output)
        self.system = System(model=self.model, input_pipeline=self.blocks, output_generator=self.generator)

    def outcome(self, text, read=True):
        """What a request comes down to, without names of variables."""
        from richard.entity.SentenceRequest import SentenceRequest
        request = SentenceRequest(text)
        error = None
        result = None
        try:
            result = self.system.enter(request)
        except Exception as e:
            error = f"{type(e).__name__}: {e}"
        text = None
        if read and error is None and result is None:
            try:
                text = self.system.read_output()
            except Exception as e:
                text = f"read: {type(e).__name__}: {e}"
        return describe(request, self, result, error, text)


def renamer():
    names = {}

    def rename(x):
        from richard.entity.Variable import Variable
        if isinstance(x, Variable):
            return "?" + rename(x.name)
        if isinstance(x, str):
            if x.startswith("$"):
                return names.setdefault(x, f"v{len(names)}")
            return x
        if isinstance(x, (list, tuple)):
            return [rename(i) for i in x]
        if isinstance(x, dict):
            return sorted([rename(k), rename(v)] for k, v in x.items())
        if callable(x):
            return "<function>"
        return x
    return rename


def describe(request, system, result, error, text):
    trees = [str(p.parse_tree) for p in request.get_alternative_products(system.parser)]
    products = request.get_alternative_products(system.composer)
    sems = []
    for p in products:
        rename = renamer()
        sems.append([rename([v for v in p.semantics_iterations.values()]), rename(p.inferences), rename(p.executable)])
    rename = renamer()
    return {"trees": trees, "semantics": sems, "result": rename(result) if result is not None else None, "error": error, "output": text}
