"""Minimisation of plans: delta debugging on the list-valued parts, then simplification of scalars."""
import copy
import json


def get(plan, path):
    for key in path:
        plan = plan[key]
    return plan


def put(plan, path, value):
    plan = copy.deepcopy(plan)
    target = plan
    for key in path[:-1]:
        target = target[key]
    target[path[-1]] = value
    return plan


def lists_in(plan, keys, path=()):
    """Paths of the lists that may be shortened: the values of keys named in `keys`, at any depth."""
    found = []
    if isinstance(plan, dict):
        for k, v in plan.items():
            if isinstance(v, list) and k in keys:
                found.append(path + (k,))
            found.extend(lists_in(v, keys, path + (k,)))
    elif isinstance(plan, list):
        for i, v in enumerate(plan):
            if isinstance(v, (dict, list)):
                found.extend(lists_in(v, keys, path + (i,)))
    return found


def ddmin_list(plan, path, fails, stop, keep_one=()):
    items = get(plan, path)
    if not items:
        return plan
    # try the empty list first
    least = 1 if path[-1] in keep_one else 0
    if least == 0:
        candidate = put(plan, path, [])
        if fails(candidate):
            return candidate
    n = 2
    while len(items) >= 2 and not stop():
        size = max(1, len(items) // n)
        reduced = False
        start = 0
        while start < len(items):
            rest = items[:start] + items[start + size:]
            candidate = put(plan, path, rest)
            if rest != items and len(rest) >= least and fails(candidate):
                plan, items = candidate, rest
                n = max(n - 1, 2)
                reduced = True
                break
            start += size
        if not reduced:
            if size == 1:
                break
            n = min(n * 2, len(items))
    return plan


def minimise(plan, mod, fails, stop):
    keys = getattr(mod, "SHRINK_LISTS", ["ops", "faults", "switches"])
    simplify = getattr(mod, "simplify", None)
    for _ in range(4):
        before = json.dumps(plan, sort_keys=True)
        for path in sorted(lists_in(plan, keys), key=len):
            if stop():
                return plan
            try:
                get(plan, path)
            except (KeyError, IndexError):
                continue
            plan = ddmin_list(plan, path, fails, stop, getattr(mod, "KEEP_ONE", ()))
        if simplify:
            progress = True
            while progress and not stop():
                progress = False
                for candidate in simplify(copy.deepcopy(plan)):
                    if json.dumps(candidate, sort_keys=True) != json.dumps(plan, sort_keys=True) and fails(candidate):
                        plan = candidate
                        progress = True
                        break
        if json.dumps(plan, sort_keys=True) == before:
            break
    return plan
