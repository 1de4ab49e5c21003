"""Shared by C01-C03: worlds behind a stub SPARQL endpoint, queries, and what each query must answer."""
from collections import Counter

HOST = "endpoint.example"
URL = "https://endpoint.example/sparql"

CHARS = ["a", "b", "Z", " ", "é", "漢", "'", '"', "\\", "\n", "\r", "@", "{", "}", "0", "<", "😀", "\t", "#", "%s", "?x", ".", "-"]


def gen_text(rng, plain=False):
    r = rng.random()
    if not plain and r < 0.05:
        # texts that look like something else
        return rng.choice(["None", "null", "True", "0", "1", "[]", "''", "?b", "nan", "1.0"])
    if plain or r < 0.35:
        return rng.choice(["Mia", "John", "Anna Bell", "Richard", "Kim", "Zoë"]) + str(rng.randrange(4))
    text = "".join(rng.choice(CHARS) for _ in range(rng.randrange(1, 12)))
    if r < 0.45:
        # long texts that differ only near their end, or only near their start
        filler = rng.choice(["lorem ipsum ", "é漢", "x"]) * rng.choice([10, 30, 100, 400])
        text = filler + text if rng.random() < 0.7 else text + filler
    return text


def gen_world(rng, size=None):
    """predicates: {name: [subject kind, object kind]}; triples are JSON lists [subject, predicate, [kind, value, lang?]]"""
    langs = ["en", "nl", "de"]
    size = size if size is not None else rng.choice([1, 3, 6, 12, 12, 30])
    ids = [f"http://www.wikidata.org/entity/Q{i}" for i in range(1, max(3, size // 2) + 1)]
    if rng.random() < 0.1:
        # identifiers with a long part in common
        ids = [f"http://www.wikidata.org/entity/{'statement/' * 30}Q{i}" for i in range(1, len(ids) + 1)]
    predicates = {"rdfs:label": "text", "wdt:P40": "id", "wdt:P22": "id", "wdt:P31": "constant", "wdt:P1082": "num", "sim:translation": "text text"}
    triples = []
    seen = set()
    texts = [gen_text(rng) for _ in range(max(2, size // 3))]
    for _ in range(size):
        p = rng.choice(["rdfs:label"] * 3 + list(predicates))
        s = ["id", rng.choice(ids)]
        if p == "rdfs:label":
            o = ["text", rng.choice(texts), rng.choice(langs)]
        elif p == "sim:translation":
            s = ["text", rng.choice(texts), rng.choice(langs)]
            o = ["text", rng.choice(texts), rng.choice(langs)]
        elif p == "wdt:P31":
            o = ["id", rng.choice(["wd:Q5", "wd:Q515"])]
        elif p == "wdt:P1082":
            o = ["num", rng.choice(NUMBERS)]
        else:
            o = ["id", rng.choice(ids)]
        key = (tuple(s), p, tuple(o))
        if key not in seen:
            seen.add(key)
            triples.append([s, p, o])
    return {"predicates": predicates, "triples": triples, "ids": ids, "texts": texts}


def grow(rng, plan):
    """A world with very many labels, and a question after them."""
    plan["world"]["bulk"] = rng.choice([300, 1200, 2600])
    plan["queries"].insert(0, {"table": "rdfs:label", "columns": ["id", "text"], "values": [None, None]})
    plan["chunk"] = 1 << 16
    if "bufsize" in plan:
        plan["bufsize"] = 8192


def grown(world):
    if not world.get("bulk"):
        return world
    return {**world, "triples": world["triples"] + [[["id", f"http://www.wikidata.org/entity/Q{1000 + i}"], "rdfs:label", ["text", f"Name {i}", ["en", "nl"][i % 10 == 9]]] for i in range(world["bulk"])]}


NUMBERS = [0, 1, 5, 17, 50, 500, 1000, 12.5, -3]


def gen_query(rng, world):
    p = rng.choice(["rdfs:label"] + list(world["predicates"]))
    subjects = world["ids"]
    if p == "rdfs:label":
        columns = ["id", "text"]
        known = world["texts"] + [gen_text(rng)]
    elif p == "sim:translation":
        columns = ["text", "text"]
        subjects = known = world["texts"] + [gen_text(rng)]
    elif p == "wdt:P31":
        columns = ["id", "constant"]
        known = ["wd:Q5", "wd:Q515"]
    elif p == "wdt:P1082":
        columns = ["id", "number"]
        known = NUMBERS
    else:
        columns = ["id", "id"]
        known = world["ids"]
    values = [rng.choice([None, None, rng.choice(subjects)]), rng.choice([None, rng.choice(known), rng.choice(known)])]
    if p == "wdt:P31" and values[1] is None:
        columns = ["id", "id"]
    return {"table": p, "columns": columns, "values": values}


def neighbour(rng, query):
    """A query that is nearly the same."""
    query = {"table": query["table"], "columns": list(query["columns"]), "values": list(query["values"])}
    for i in range(2):
        if query["columns"][i] == "text" and rng.random() < 0.3:
            # unknown, or a text that looks like it
            query["values"][i] = None if query["values"][i] == "None" else "None"
            return query
    if query["columns"] == ["text", "text"] and None not in query["values"] and rng.random() < 0.5:
        # the same characters, divided differently
        both = rng.choice(["", " ", ", ", "', '"]).join(query["values"])
        at = rng.randrange(len(both) + 1)
        query["values"] = [both[:at], both[at:]]
        return query
    for i in range(2):
        value = query["values"][i]
        if isinstance(value, str) and query["columns"][i] == "text" and rng.random() < 0.7:
            query["values"][i] = rng.choice([value + "x", value + " ", value[:-1] or "x", value.upper(), value.swapcase(), " " + value, value[: len(value) // 2] or "y"])
            return query
    if rng.random() < 0.5:
        query["values"] = [query["values"][0], None] if rng.random() < 0.5 else [None, query["values"][1]]
    return query


def expected(world, query, lang):
    """The answer, computed from the facts without any query language."""
    rows = []
    for s, p, o in world["triples"]:
        if p != query["table"]:
            continue
        row = []
        for term, kind, value in zip((s, o), query["columns"], query["values"]):
            if kind == "text" and (term[0] != "text" or term[2] != lang):
                break
            if value is None:
                row.append(str(term[1]))
            elif term[1] != value:
                break
            else:
                row.append(value)
        if len(row) == 2:
            rows.append(row)
    return Counter(map(tuple, rows))


def as_counter(result):
    if not isinstance(result, list) or not all(isinstance(row, list) for row in result):
        return None
    try:
        return Counter(map(tuple, result))
    except TypeError:
        return None


def to_store(world):
    from sim.net import SparqlStore
    return SparqlStore([(term(s), p, term(o)) for s, p, o in world["triples"]])


def term(t):
    return ("num", str(t[1])) if t[0] == "num" else tuple(t)


def key_of(query):
    return repr((query["table"], query["columns"], query["values"]))


def short(counter):
    text = repr(sorted(counter.items())) if counter is not None else "not a list of rows"
    return text if len(text) < 300 else text[:300] + "..."


def spoil(result):
    """A caller may do what it likes with the rows it received."""
    for row in result:
        row.append("spoiled by the caller")
    result.append(["spoiled", "by the caller"])
