"""Bins and FloorDict behave as their models in every history of operations"""
import copy
import pickle
import random
from decimal import Decimal
from fractions import Fraction

import numpy as np

from rv.calls import need_all

from coinflip.collections import Bins, FloorDict

PID = "P17"
LEVEL = "exploration"
RULE = (
    "Seeded histories of 40 operations (count, read, set, delete, pop, update, iterate, copy, refuse...) on bins of 1 to 12 (some of up to 300) intervals "
    "of 7 kinds of numbers, in step with a model which searches all intervals, the whole state compared after each; all keys on "
    "a grid around all small sets of intervals exhaustively; likewise look-ups in floor mappings; non-trivial after the first "
    "operation which changes a bin, distinct by history."
)
ASSUMPTIONS = [
    "keys are numbers whose distances to the intervals are exact, and not NaN; a key at equal distance belongs to the upper interval",
    "bins have at least one interval while used, and floor mappings at least one key",
]
KINDS = ["int", "neg", "float", "big", "fraction", "mixed", "decimal", "tiny", "huge", "dense", "numpy"]


def plan(rng, tier):
    quick = tier == "quick"
    cases = []
    for _ in range(64 if quick else 2000):
        cases.append({"k": "bins", "seeds": [rng.randrange(1 << 40) for _ in range(20)]})
    for _ in range(16 if quick else 500):
        cases.append({"k": "floor", "seeds": [rng.randrange(1 << 40) for _ in range(20)]})
    for _ in range(16 if quick else 400):
        cases.append({"k": rng.choice(["bins", "floor"]), "seeds": [rng.randrange(1 << 40) for _ in range(2)], "large": True})
    for mask in range(1, 1 << (7 if quick else 9)):
        cases.append({"k": "grid", "mask": mask})
    return cases


def numbers(rng, kind, n):
    out = set()
    spread = max(20, 2 * n)
    while len(out) < n:
        x = rng.randrange(-spread, spread + 1)
        if kind == "int":
            v = x
        elif kind == "neg":
            v = -abs(x) - 1
        elif kind == "float":
            v = x / 4
        elif kind == "big":
            v = 10 ** 18 + x
        elif kind == "fraction":
            v = Fraction(x, 3)
        elif kind == "decimal":
            v = Decimal(x) / 8
        elif kind == "tiny":
            v = x * 2.0 ** -40
        elif kind == "huge":
            v = x * 2.0 ** 80
        elif kind == "dense":  # neighbouring floats
            v = 1 + (x + spread) * 2.0 ** -52
        elif kind == "numpy":
            v = rng.choice([np.int64, np.float64])(x)
        else:
            v = rng.choice([x, x / 2, float(x)])
        out.add(v)
    return list(out)


def keys_for(rng, kind, intervals):
    x = rng.random()
    if x < 0.35:
        return rng.choice(intervals)
    if x < 0.55 and len(intervals) > 1:  # halfway
        s = sorted(intervals)
        i = rng.randrange(len(s) - 1)
        if kind == "big":
            return (s[i] + s[i + 1]) // 2
        return (s[i] + s[i + 1]) / 2
    if x < 0.62:
        # not so far that distances cannot be told apart in the arithmetic of the numbers
        low, high = {"big": (-(10 ** 30), 10 ** 30), "huge": (-1e30, 1e30), "dense": (-0.5, 3.0), "tiny": (-1.0, 1.0)}.get(kind, (-(10 ** 6), 10 ** 6))
        return rng.choice([low, high])
    return numbers(rng, kind, 1)[0]


def exact(x):
    return Fraction(x.item() if isinstance(x, np.generic) else x)


def nearest(intervals, key):
    """By looking at every interval; the upper one of two which are equally near"""
    if key in (float("inf"), float("-inf")):
        return max(intervals) if key > 0 else min(intervals)
    best = None
    for i in sorted(intervals):
        gap = abs(exact(i) - exact(key))
        if best is None or gap <= best[0]:
            best = (gap, i)
    return best[1]


class Mismatch(Exception):
    pass


def check(what, got, want):
    if got != want or (isinstance(want, list) and list(map(type, got)) != list(map(type, want)) and got != want):
        raise Mismatch(f"{what}: got {got!r:.200}, expected {want!r:.200}")


def state(b, model):
    order = sorted(model)
    check("intervals in order", list(b), order)
    check("intervals", tuple(b.intervals), tuple(order))
    check("number of bins", len(b), len(model))
    check("values", list(b.values()), [model[k] for k in order])
    check("items", list(b.items()), [(k, model[k]) for k in order])
    check("repr", repr(b), repr({k: model[k] for k in order}))
    check("equality", b == {k: model[k] for k in order}, True)


def some(rng, large):
    """How many intervals or keys"""
    if large:
        return rng.choice([50, 64, 100, 127, 128, 129, 200, 255, 256, 257, 300])
    return rng.choice([1, 1, 2, 2, 3, 4, 6, 7, 9, 12])


def bins_history(seed, obs, large=False):
    rng = random.Random(seed)
    kind = rng.choice(KINDS)
    intervals = numbers(rng, kind, some(rng, large))
    rng.shuffle(intervals)
    trace = [("new", kind, [str(i) for i in intervals])]
    changed = False
    try:
        how = rng.randrange(4)
        if rng.random() < 0.3 and len(intervals) > 1:
            try:
                Bins(intervals + [intervals[0]])
                raise Mismatch("duplicate intervals were accepted")
            except ValueError:
                obs.count("refusals of duplicate intervals")
        twins = [np.int64(i) if isinstance(i, (int, Decimal)) and i == int(i) and abs(i) < 2 ** 62 else np.float64(i) for i in intervals]
        ends = (-(10 ** 6), 10 ** 6)
        if rng.random() < 0.4 and len(set(twins)) == len(intervals):  # equal numbers of another type
            twin = Bins(twins)
            check("counts of a twin", [twin[k] for k in ends], [0, 0])
        b = Bins([list, tuple, iter, lambda x: (i for i in x)][how](intervals))
        check("counts of bins with a twin", [b[k] for k in ends], [0, 0])
        other = Bins(intervals)  # has to stay as it is
        model = {i: 0 for i in intervals}
        state(b, model)
        for _ in range(15 if large else 40):
            op = rng.choice(["count"] * 8 + ["get"] * 3 + ["set"] * 3 + ["del", "missing", "pop", "update", "in", "method", "many", "setdefault", "popitem", "copy"])
            live = list(model)
            key = keys_for(rng, kind, live)
            trace.append((op, str(key)))
            target = nearest(live, key)
            if op == "count":
                by = rng.choice([1, 1, 1, 2, 5])
                b[key] += by
                model[target] += by
                changed = True
            elif op == "many":
                total = sum(b.values())
                counted = [keys_for(rng, kind, live) for _ in range(20)]
                for k in counted:
                    b[k] += 1
                    model[nearest(live, k)] += 1
                check("total after counting 20", sum(b.values()), total + 20)
            elif op == "get":
                check(f"b[{key!r}]", b[key], model[target])
                check(f"b.get({key!r})", b.get(key, "none"), model[target])
            elif op == "set":
                v = rng.randrange(-5, 50)
                b[key] = v
                model[target] = v
                changed = True
            elif op == "setdefault":
                check("setdefault", b.setdefault(key, 7), model[target])
            elif op == "del" and len(model) > 1:
                total = sum(b.values())
                k = rng.choice(live)
                del b[k]
                v = model.pop(k)
                model[nearest(list(model), k)] += v
                check("total after a deletion", sum(b.values()), total)
                obs.count("deletions of intervals")
            elif op == "popitem" and len(model) > 1:
                k, v = b.popitem()
                check("popped value", v, model[k])
                model.pop(k)
                model[nearest(list(model), k)] += v
            elif op == "pop" and len(model) > 1:
                k = rng.choice(live)
                check("popped value", b.pop(k), model[k])
                v = model.pop(k)
                model[nearest(list(model), k)] += v
            elif op == "missing":
                if key not in model:
                    try:
                        del b[key]
                        raise Mismatch("an interval which is not there was deleted")
                    except KeyError:
                        obs.count("refused deletions")
            elif op == "update":
                new = {keys_for(rng, kind, live): rng.randrange(9) for _ in range(3)}
                b.update(new)
                for k, v in new.items():
                    model[nearest(live, k)] = v
            elif op == "copy":
                copies = [copy.deepcopy(b), pickle.loads(pickle.dumps(b, rng.randrange(2, 6)))]
                for c in copies:
                    check("type of a copy", type(c) is type(b), True)
                    state(c, model)
                c = rng.choice(copies)
                c[key] += 1000
                c[key] -= 1000
                if rng.random() < 0.5:
                    b, c = c, b
                c[key] += 1000  # of no concern to the other
                obs.count("copies of bins")
                check("equality of copies", (b == dict(model), b != dict(model), c == b), (True, False, False))
            elif op == "in":
                check("contains an interval", rng.choice(live) in b, True)
            elif op == "method":
                check("closest interval", Bins.find_closest_interval(tuple(sorted(live)), key), target)
            state(b, model)
            obs.count("operations on bins")
        state(other, {i: 0 for i in intervals})
        if rng.random() < 0.3:
            for k in rng.sample(list(model), len(model)) if not large else list(model):
                del b[k]
            check("bins after all were deleted", list(b), [])
        elif rng.random() < 0.3:
            b.clear()
            check("bins after they were cleared", (list(b), len(b), dict(b)), ([], 0, {}))
            obs.count("bins cleared")
    except Mismatch as e:
        obs.fail(f"bins: {e} after {trace[-6:]}"[:500], replay={"k": "bins", "seeds": [seed], "large": large}, trace=trace)
    except Exception as e:
        obs.fail(f"bins: {type(e).__name__}: {e} after {trace[-4:]}"[:500], replay={"k": "bins", "seeds": [seed], "large": large}, trace=trace)
    obs.count(f"histories with intervals: {kind}")
    obs.seen(("bins", seed), nontrivial=changed, sample=trace[:6])


def floor_history(seed, obs, large=False):
    rng = random.Random(seed)
    kind = rng.choice(KINDS)
    keys = numbers(rng, kind, some(rng, large))
    rng.shuffle(keys)
    source = {k: f"v{i}" for i, k in enumerate(keys)}
    model = dict(source)
    case = {"k": "floor", "seeds": [seed], "large": large}
    try:
        d = FloorDict(source)
        order = sorted(model)
        for step in range(40):
            key = keys_for(rng, kind, keys)
            below = [k for k in order if k <= key]
            if below:
                want = model[below[-1]]
                check(f"d[{key!r}] of {order}", d[key], want)
                check("get", d.get(key, "none"), want)
                check("in", key in d, True)
                obs.count("look-ups of floors")
            else:
                try:
                    got = d[key]
                    raise Mismatch(f"d[{key!r}] of {order}: got {got!r}, expected a KeyError")
                except KeyError:
                    pass
                check("get below", d.get(key, "none"), "none")
                check("in below", key in d, False)
                obs.count("look-ups below the smallest key")
            check("keys in order", list(d), order)
            check("values", list(d.values()), [model[k] for k in order])
            check("len", len(d), len(model))
        check("source", source, model)
        for c in (copy.deepcopy(d), pickle.loads(pickle.dumps(d))):
            check("copy", dict(c.items()), model)
            check("lowest of a copy", c[order[0]], model[order[0]])
    except Mismatch as e:
        obs.fail(f"floor mapping: {e}"[:500], replay=case)
    except Exception as e:
        obs.fail(f"floor mapping: {type(e).__name__}: {e}"[:500], replay=case)
    obs.seen(("floor", seed))


def grid(case, obs):
    """All keys around a set of intervals"""
    width = 9
    intervals = [i for i in range(width) if case["mask"] >> i & 1]
    offset = -4
    intervals = [2 * i + offset for i in intervals]
    try:
        b = Bins(intervals)
        f = FloorDict({i: i for i in intervals})
        model = {i: 0 for i in intervals}
        for k4 in range(-40, 80):
            key = k4 / 4 if k4 % 4 else k4 // 4
            b[key] += 1
            model[nearest(intervals, key)] += 1
            below = [i for i in intervals if i <= key]
            check(f"floor of {key} in {intervals}", f.get(key), below[-1] if below else None)
            obs.count("keys of the grid")
        state(b, model)
        obs.seen(("grid", case["mask"]))
    except Mismatch as e:
        obs.fail(f"intervals {intervals}: {e}", replay=case)
    except Exception as e:
        obs.fail(f"intervals {intervals}: {type(e).__name__}: {e}", replay=case)


def run(case, obs):
    if case["k"] == "grid":
        grid(case, obs)
        return
    for seed in case["seeds"]:
        (bins_history if case["k"] == "bins" else floor_history)(seed, obs, case.get("large", False))
        obs.count("histories of 50 intervals or more", bool(case.get("large")))
        if obs.failed:
            return


def goals(counters, tier):
    return need_all(
        counters,
        {
            "operations on bins": 40000,
            "copies of bins": 500,
            "histories of 50 intervals or more": 30,
            "deletions of intervals": 500,
            "refused deletions": 300,
            "refusals of duplicate intervals": 100,
            "look-ups of floors": 5000,
            "look-ups below the smallest key": 1000,
            "keys of the grid": 15000,
        },
    )
