"""
A small executable reference model of what a goal means, independent of the code under test.

JSON terms: {"v": name} a variable, {"l": [atoms]} a list of atoms, {"n": name} a variable name, anything else a constant.
JSON atoms: [predicate, term...]; a disjunction is ["$or", [[atoms], [atoms]...]].
"""


class Skip(Exception):
    """The meaning depends on something the property leaves open (ties, order)."""


class Facts:
    def __init__(self):
        self.rows = {}       # predicate -> list of distinct tuples, in order of arrival
        self.rules = []      # (head, body) in JSON form

    def copy(self):
        other = Facts()
        other.rows = {k: list(v) for k, v in self.rows.items()}
        other.rules = list(self.rules)
        return other

    def add(self, predicate, row):
        rows = self.rows.setdefault(predicate, [])
        if tuple(row) not in rows:
            rows.append(tuple(row))


def is_var(term):
    return isinstance(term, dict) and "v" in term


def value_of(term, binding):
    if is_var(term):
        return binding.get(term["v"], UNBOUND)
    return freeze(term)


class _Unbound:
    def __repr__(self):
        return "?"


UNBOUND = _Unbound()


def freeze(value):
    return tuple(freeze(v) for v in value) if isinstance(value, list) else value


def distinct(bindings):
    seen, out = set(), []
    for b in bindings:
        key = tuple(sorted((k, repr(v)) for k, v in b.items()))
        if key not in seen:
            seen.add(key)
            out.append(b)
    return out


class Reference:
    def __init__(self, facts, limit=200000):
        self.facts = facts
        self.steps = 0
        self.limit = limit
        self.used_rules = 0
        self.used = set()

    def solve(self, atoms, binding):
        if not atoms:
            return [dict(binding)]
        out = []
        for b in self.atom(atoms[0], binding):
            out.extend(self.solve(atoms[1:], b))
        return distinct(out)

    def extend(self, binding, terms, row):
        b = dict(binding)
        for term, value in zip(terms, row):
            if is_var(term):
                if term["v"] in b:
                    if b[term["v"]] != value:
                        return None
                else:
                    b[term["v"]] = value
            elif freeze(term) != value:
                return None
        return b

    def atom(self, atom, binding):
        self.steps += 1
        if self.steps > self.limit:
            raise Skip("too large")
        name, terms = atom[0], atom[1:]
        self.used.add(name)
        core = getattr(self, "core_" + name.replace("$", ""), None)
        if core is not None:
            if name in ("all", "arg_min", "arg_max") and not is_var(terms[0]) or name in ("arg_min", "arg_max") and not is_var(terms[1]):
                raise Skip("not a variable")
            return core(terms, binding)
        out = []
        for row in self.facts.rows.get(name, []):
            if len(row) == len(terms):
                b = self.extend(binding, terms, row)
                if b is not None:
                    out.append(b)
        for head, body in self.facts.rules:
            if head[0] == name and len(head) == len(atom):
                out.extend(self.call(head, body, terms, binding))
        return distinct(out)

    def call(self, head, body, terms, binding):
        self.used_rules += 1
        inner = {}
        for formal, term in zip(head[1:], terms):
            actual = value_of(term, binding)
            if actual is UNBOUND:
                continue
            if is_var(formal):
                if inner.get(formal["v"], actual) != actual:
                    return []
                inner[formal["v"]] = actual
            elif freeze(formal) != actual:
                return []
        out = []
        for solution in self.solve(body, inner):
            row = [value_of(formal, solution) for formal in head[1:]]
            if any(v is UNBOUND for v in row):
                raise Skip("unsafe rule")
            b = self.extend(binding, terms, row)
            if b is not None:
                out.append(b)
        return out

    def bound(self, term, binding):
        value = value_of(term, binding)
        if value is UNBOUND:
            raise Skip("unbound argument")
        return value

    def fresh(self, term, binding, value):
        if not is_var(term):
            return [dict(binding)] if freeze(term) == value else []
        if term["v"] in binding:
            raise Skip("result variable is bound")
        return [{**binding, term["v"]: value}]

    def core_or(self, terms, binding):
        for branch in terms[0]:
            result = self.solve(branch, binding)
            if result:
                return result
        return []

    def core_equals(self, terms, binding):
        a, b = value_of(terms[0], binding), value_of(terms[1], binding)
        if a is UNBOUND and b is UNBOUND:
            raise Skip("two unbound")
        if a is UNBOUND:
            return [{**binding, terms[0]["v"]: b}]
        if b is UNBOUND:
            return [{**binding, terms[1]["v"]: a}]
        return [dict(binding)] if a == b else []

    def core_greater_than(self, terms, binding):
        return [dict(binding)] if self.bound(terms[0], binding) > self.bound(terms[1], binding) else []

    def core_less_than(self, terms, binding):
        return [dict(binding)] if self.bound(terms[0], binding) < self.bound(terms[1], binding) else []

    def core_multiply(self, terms, binding):
        return self.fresh(terms[2], binding, self.bound(terms[0], binding) * self.bound(terms[1], binding))

    def core_let(self, terms, binding):
        return self.fresh(terms[0], binding, self.bound(terms[1], binding))

    def core_count(self, terms, binding):
        return self.fresh(terms[0], binding, len(self.solve(terms[1]["l"], binding)))

    def elements(self, term, body, binding):
        return [self.bound(term, b) for b in self.solve(body["l"], binding)]

    def core_sum(self, terms, binding):
        return self.fresh(terms[0], binding, sum(self.elements(terms[1], terms[2], binding)))

    def core_avg(self, terms, binding):
        values = self.elements(terms[1], terms[2], binding)
        return self.fresh(terms[0], binding, sum(values) / len(values)) if values else []

    def extreme(self, terms, binding, pick):
        solutions = self.solve(terms[2]["l"], binding)
        if not solutions:
            return []
        best = pick(self.bound(terms[1], b) for b in solutions)
        entities = {self.bound(terms[0], b) for b in solutions if self.bound(terms[1], b) == best}
        if len(entities) != 1:
            raise Skip("tie")
        if terms[0]["v"] in binding or terms[1]["v"] in binding:
            raise Skip("result variable is bound")
        return [{**binding, terms[0]["v"]: entities.pop(), terms[1]["v"]: best}]

    def core_arg_min(self, terms, binding):
        return self.extreme(terms, binding, min)

    def core_arg_max(self, terms, binding):
        return self.extreme(terms, binding, max)

    def core_percentage(self, terms, binding):
        part, whole = len(self.solve(terms[1]["l"], binding)), len(self.solve(terms[2]["l"], binding))
        return self.fresh(terms[0], binding, part / whole * 100.0) if whole else []

    def core_not(self, terms, binding):
        return [] if self.solve(terms[0]["l"], binding) else [dict(binding)]

    core_none = core_not

    def core_scoped(self, terms, binding):
        return [dict(binding)] if self.solve(terms[0]["l"], binding) else []

    def core_det_equals(self, terms, binding):
        return [dict(binding)] if len(self.solve(terms[0]["l"], binding)) == self.bound(terms[1], binding) else []

    def core_det_greater_than(self, terms, binding):
        return [dict(binding)] if len(self.solve(terms[0]["l"], binding)) > self.bound(terms[1], binding) else []

    def core_det_less_than(self, terms, binding):
        return [dict(binding)] if len(self.solve(terms[0]["l"], binding)) < self.bound(terms[1], binding) else []

    def core_all(self, terms, binding):
        name = terms[0]["v"]
        if name in binding:
            raise Skip("quantified variable is bound")
        entities = []
        for b in self.solve(terms[1]["l"], binding):
            if b[name] not in entities:
                entities.append(b[name])
        for e in entities:
            if not self.solve(terms[2]["l"], {**binding, name: e}):
                return []
        return [{**binding, name: e} for e in entities]

    def collected(self, terms, binding):
        names = terms[0]
        out = []
        for b in self.solve(terms[1]["l"], binding):
            if isinstance(names, list):
                item = tuple(b.get(n["n"]) for n in names)
            else:
                if names["n"] not in b:
                    raise Skip("not a variable")
                item = b[names["n"]]
            if isinstance(item, Bag) or isinstance(item, tuple) and any(isinstance(x, Bag) for x in item):
                raise Skip("the order of a list within a list")
            if item not in out:
                out.append(item)
        return out

    def core_find_all(self, terms, binding):
        return self.fresh(terms[2], binding, Bag(self.collected(terms, binding)))

    def core_find_one(self, terms, binding):
        items = self.collected(terms, binding)
        if not items:
            return []
        if len(items) > 1:
            raise Skip("any of several")
        return self.fresh(terms[2], binding, items[0])


class Bag(tuple):
    """A list of which the order is left open."""
    def __new__(cls, items):
        return super().__new__(cls, sorted(items, key=repr))


# --- to and from the code under test

def to_real(term):
    from richard.entity.Variable import Variable
    if isinstance(term, dict):
        if "v" in term:
            return Variable(term["v"])
        if "l" in term:
            return atoms_to_real(term["l"])
        if "n" in term:
            return term["n"]
    if isinstance(term, list):
        return [to_real(t) for t in term]
    return term


def atom_to_real(atom):
    from richard.core.constants import DISJUNCTION
    if atom[0] == "$or":
        return (DISJUNCTION, [atoms_to_real(branch) for branch in atom[1]])
    return tuple([atom[0]] + [to_real(t) for t in atom[1:]])


def atoms_to_real(atoms):
    return [atom_to_real(a) for a in atoms]


def text_term(term, last=True, quote="'"):
    if isinstance(term, dict):
        if "v" in term:
            return term["v"]
        if "l" in term:
            atoms = ", ".join(text_atom(a, quote) for a in term["l"])
            return atoms if last else f"({atoms})"
    if isinstance(term, str):
        return quote + term.replace(quote, "\\" + quote) + quote
    return repr(term)


def text_atom(atom, quote="'"):
    if atom[0] == "$or":
        return "( " + " ; ".join(", ".join(text_atom(a, quote) for a in branch) for branch in atom[1]) + " )"
    return f"{atom[0]}({', '.join(text_term(t, i == len(atom) - 1, quote) for i, t in enumerate(atom) if i > 0)})"


def text_rule(head, body, quote="'", group=False):
    atoms = ", ".join(text_atom(a, quote) for a in body)
    return text_atom(head, quote) + (" :- " + (f"({atoms})" if group else atoms) if body else "") + "."


def norm_value(value):
    if isinstance(value, Bag):
        return ("bag", tuple(repr(norm_value(v)) for v in value))
    if isinstance(value, (list, tuple)):
        return tuple(norm_value(v) for v in value)
    if isinstance(value, float):
        return round(value, 9)
    return value


def norm_binding(binding, names, bags=()):
    out = []
    for name in sorted(names):
        value = binding.get(name)
        if value is None:
            value = "<unbound>"
        if name in bags and isinstance(value, list):
            value = Bag([tuple(v) if isinstance(v, list) else v for v in value])
        out.append((name, norm_value(value)))
    return tuple(out)


def top_variables(atoms):
    """Variables that a solution of the goal binds."""
    names, bags = set(), set()
    for atom in atoms:
        if atom[0] == "$or":
            continue
        for term in atom[1:]:
            if is_var(term):
                names.add(term["v"])
        if atom[0] == "find_all":
            bags.add(atom[3]["v"])
    return names, bags
