"""Generator of goals and rules for the reference model (JSON form, see refeval)."""
import json

ENT = [f"a{i}" for i in range(7)]
# predicate -> argument types; binary relations only lead from a lower to a higher entity (so recursion ends)
SIGNATURES = {"e1": ["ent"], "e2": ["ent"], "m1": ["ent"], "r1": ["ent", "ent"], "r2": ["ent", "ent"], "n1": ["ent", "num"], "n2": ["ent", "num"],
              "x1": ["ent", "any"], "x2": ["any", "any"]}
# values of any type, many of which are printed in the same way, alone or next to each other
ODD = [0, 1, "0", "1", "", "a", "b", "a|b", "b|c", "c", "a,b", "a, b", "b, c", "'a', 'b'", "a', 'b", "1.0", 2.5, "2.5", "None", "[]", "a1", "A1", "a 1", " a1", "Q1", "é", "-", "1\n"]
TWINS = {"x1": [["a0", 1], ["a0", "1"], ["a0", 0], ["a0", "0"], ["a0", "a"], ["a0", " a"], ["a0", "A"], ["a0", ""]],
         "x2": [["a|b", "c"], ["a", "b|c"], ["a, b", "c"], ["a", "b, c"], ["a,b", "c"], ["a", "b,c"], ["1", 1], [1, "1"], [1, 1], ["1", "1"], ["ab", "c"], ["a", "bc"], ["a b", "c"], ["a", "b c"]]}
PLAIN = [0, 1, "0", "1", "a", "b", "a b", 2.5, "2.5", "A1", "Q1"]
DERIVED = {"d1": ["ent"], "d2": ["ent", "ent"], "d3": ["ent"], "t1": ["ent", "ent"], "t2": ["ent", "ent"], "k1": ["ent", "num"]}
ALL = {**SIGNATURES, **DERIVED}


class GoalGen:
    def __init__(self, rng, predicates, prefix="Q", names=None):
        self.rng = rng
        self.predicates = predicates
        self.n = 0
        self.prefix = prefix
        self.names = names

    def var(self):
        self.n += 1
        if self.names and self.n <= len(self.names):
            return self.names[self.n - 1]
        return f"{self.prefix}{self.n}"

    def const(self, kind):
        if kind == "any":
            return self.rng.choice(PLAIN if self.prefix == "V" else ODD)
        return self.rng.choice(ENT) if kind == "ent" else self.rng.randrange(0, 30)

    def fact(self, env, new_bias=0.5):
        rng = self.rng
        name = rng.choice(self.predicates)
        terms = []
        added = {}
        for kind in ALL[name]:
            known = [v for v, k in env.items() if k == kind or kind == "any" and k == "ent" and rng.random() < 0.3]
            x = rng.random()
            if x < 0.12:
                terms.append(self.const(kind))
            elif known and x > new_bias:
                terms.append({"v": rng.choice(known)})
            elif added and rng.random() < 0.05 and kind in added.values():
                terms.append({"v": [v for v, k in added.items() if k == kind][0]})
            else:
                v = self.var()
                added[v] = kind
                terms.append({"v": v})
        env.update(added)
        return [name] + terms

    def body(self, env, depth):
        inner = dict(env)
        atoms = [self.fact(inner, 0.4)]
        for _ in range(self.rng.choice([0, 0, 0, 1, 1, 2])):
            atoms.append(self.step(inner, depth + 1))
        return atoms, inner

    def step(self, env, depth):
        rng = self.rng
        nums = [v for v, k in env.items() if k == "num"]
        ents = [v for v, k in env.items() if k == "ent"]
        odd = [v for v, k in env.items() if k == "any"]
        if odd and rng.random() < 0.08:
            return ["equals", {"v": rng.choice(odd)}, {"v": rng.choice(odd)} if rng.random() < 0.5 else self.const("any")]
        x = rng.random()
        if x < 0.45 or depth >= 2:
            return self.fact(env, 0.45)
        if x < 0.55 and nums:
            other = {"v": rng.choice(nums)} if rng.random() < 0.4 else rng.randrange(0, 30)
            return [rng.choice(["greater_than", "less_than"]), {"v": rng.choice(nums)}, other]
        if x < 0.60 and ents:
            return ["equals", {"v": rng.choice(ents)}, {"v": rng.choice(ents)} if rng.random() < 0.5 else rng.choice(ENT)]
        if x < 0.63 and nums:
            v = self.var()
            atom = ["multiply", {"v": rng.choice(nums)}, rng.choice([0, 2, 3, {"v": rng.choice(nums)}]), {"v": v}]
            env[v] = "num"
            return atom
        if x < 0.65:
            v = self.var()
            env[v] = "ent"
            return ["let", {"v": v}, rng.choice(ENT)]
        if x < 0.75:
            return [rng.choice(["not", "none", "scoped", "scoped"]), {"l": self.body(env, depth)[0]}]
        if x < 0.80:
            return [rng.choice(["det_equals", "det_greater_than", "det_less_than"]), {"l": self.body(env, depth)[0]}, rng.randrange(0, 4)]
        if x < 0.84:
            atoms, _ = self.body(env, depth)
            v = self.var()
            env[v] = "num"
            return ["count", {"v": v}, {"l": atoms}]
        if x < 0.90:
            inner = dict(env)
            num_preds = [p for p in self.predicates if ALL[p][-1] == "num"]
            if not num_preds:
                return self.fact(env)
            e, n = self.var(), self.var()
            inner[e], inner[n] = "ent", "num"
            atoms = [[rng.choice(num_preds), {"v": e}, {"v": n}]]
            for _ in range(rng.choice([0, 0, 1])):
                atoms.append(self.fact(inner, 0.2))
            kind = rng.choice(["sum", "avg", "arg_min", "arg_max"])
            if kind in ("sum", "avg"):
                v = self.var()
                env[v] = "num"
                return [kind, {"v": v}, {"v": n}, {"l": atoms}]
            env[e], env[n] = "ent", "num"
            return [kind, {"v": e}, {"v": n}, {"l": atoms}]
        if x < 0.92:
            a, _ = self.body(env, depth)
            b, _ = self.body(env, depth)
            v = self.var()
            env[v] = "num"
            return ["percentage", {"v": v}, {"l": a}, {"l": b}]
        if x < 0.95:
            v = self.var()
            rest = {**env, v: "ent"}
            unary = [p for p in self.predicates if ALL[p] == ["ent"]]
            if not unary:
                return self.fact(env)
            range_atoms = [[rng.choice(unary), {"v": v}]]
            if rng.random() < 0.3:
                range_atoms.append(self.fact(dict(rest), 0.2))
            atom = ["all", {"v": v}, {"l": range_atoms}, {"l": self.body(rest, depth)[0]}]
            env[v] = "ent"
            return atom
        if x < 0.98:
            atoms, inner = self.body(env, depth)
            fresh = [v for v in inner if v not in env]
            if not fresh:
                return self.fact(env)
            v = self.var()
            if rng.random() < 0.3 and len(fresh) > 1:
                names = [{"n": fresh[0]}, {"n": fresh[1]}]
            else:
                names = {"n": rng.choice(fresh)}
            env[v] = "list"
            return [rng.choice(["find_all", "find_all", "find_one"]), names, {"l": atoms}, {"v": v}]
        branches = [self.body(env, depth)[0] for _ in range(rng.choice([2, 2, 3]))]
        return ["$or", branches]

    def goal(self, size=None):
        env = {}
        atoms = [self.fact(env, 0.7)] if self.rng.random() < 0.85 else []
        for _ in range(size if size is not None else self.rng.choice([0, 0, 1, 1, 2, 3])):
            atoms.append(self.step(env, 0))
        return atoms or [self.fact(env, 0.7)]


def gen_rule(rng):
    """A safe, terminating rule."""
    shape = rng.random()
    if shape < 0.2:
        t, r = rng.choice([("t1", "r1"), ("t2", "r2")])
        if rng.random() < 0.5:
            return [[t, {"v": "X"}, {"v": "Y"}], [[r, {"v": "X"}, {"v": "Y"}]]]
        return [[t, {"v": "X"}, {"v": "Z"}], [[r, {"v": "X"}, {"v": "Y"}], [t, {"v": "Y"}, {"v": "Z"}]]]
    if shape < 0.3:
        # a fact of the rule base
        name = rng.choice(["d1", "d2", "k1", "d3"])
        return [[name] + [rng.choice(ENT) if k == "ent" else rng.randrange(0, 30) for k in DERIVED[name]], []]
    if shape < 0.4:
        # more instances of a relation that has facts
        name, frm = rng.choice([("e1", "e2"), ("e1", "m1"), ("r1", "r2")])
        args = [{"v": v} for v in ["X", "Y"][:len(SIGNATURES[name])]]
        return [[name] + args, [[frm] + args]]
    # levels keep the rules free of loops
    head, allowed = rng.choice([
        ("d1", ["e2", "m1", "r1", "r2", "n1", "n2", "x1"]),
        ("d2", ["e1", "e2", "r1", "r2", "t1", "d1", "m1", "x1"]),
        ("d3", ["e1", "r1", "d1", "d2", "t1", "t2", "n1", "k1"]),
        ("k1", ["n1", "n2", "e1", "e2"]),
    ])
    gen = GoalGen(rng, allowed, "V", ["X", "Y", "Z", "W"])
    env = {}
    body = [gen.fact(env, 0.9)]
    for _ in range(rng.choice([0, 1, 1, 2])):
        atom = gen.step(env, 1 if rng.random() < 0.5 else 0)
        body.append(atom)
    terms = []
    for kind in DERIVED[head]:
        known = [v for v, k in env.items() if k == kind]
        if known and rng.random() < 0.9:
            terms.append({"v": rng.choice(known)})
        else:
            terms.append(rng.choice(ENT) if kind == "ent" else rng.randrange(0, 30))
    return [[head] + terms, body]


def sibling(rng, rule):
    """A rule with the same head that differs little, or None."""
    head, body = json.loads(json.dumps(rule))
    text = json.dumps(rule)
    options = []
    for atom in body:
        kinds = ALL.get(atom[0]) if isinstance(atom[0], str) else None
        if not kinds:
            continue
        for i, (term, kind) in enumerate(zip(atom[1:], kinds), 1):
            if not isinstance(term, dict) or text.count(json.dumps(term)) == 1:
                options.append((atom, i, kind))
        if kinds == ["ent", "ent"] and atom[0] in SIGNATURES and head[0] not in SIGNATURES and head[0][0] != "t":
            options.append((atom, None, None))
    if not options:
        return None
    atom, i, kind = rng.choice(options)
    if i is None:
        atom[1], atom[2] = atom[2], atom[1]
    else:
        atom[i] = rng.choice(PLAIN) if kind == "any" else rng.choice(ENT) if kind == "ent" else rng.randrange(0, 30)
    return [head, body]


def has(atom, names):
    if isinstance(atom, list):
        if atom and isinstance(atom[0], str) and atom[0] in names:
            return True
        return any(has(a, names) for a in atom)
    if isinstance(atom, dict):
        return any(has(v, names) for v in atom.values())
    return False


def gen_fact(rng, names=None):
    name = rng.choice(names or list(SIGNATURES))
    if SIGNATURES[name] == ["ent"]:
        return [name, rng.choice(ENT)]
    if "any" in SIGNATURES[name]:
        if rng.random() < 0.4:
            return [name] + [rng.choice(ENT if k == "ent" else ODD) for k in SIGNATURES[name]]
        # facts that resemble each other
        return [name] + list(rng.choice(TWINS[name]))
    if SIGNATURES[name] == ["ent", "num"]:
        # numbers are unique for an entity, and different for every entity
        i = rng.randrange(len(ENT))
        return [name, ENT[i], (i * 11 + (5 if name == "n2" else 0)) % 29]
    i = rng.randrange(len(ENT) - 1)
    return [name, ENT[i], ENT[rng.randrange(i + 1, len(ENT))]]
