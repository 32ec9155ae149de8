"""defaultlist behaves as its model in every history of operations"""
import copy
import itertools
import pickle
import random

from rv.calls import need_all

from coinflip.collections import defaultlist

PID = "P18"
LEVEL = "exploration"
RULE = (
    "Seeded histories of 50 operations (some on lists of up to 1000 elements; read, write, insert, delete, slices of all signs and steps, sequence methods, refused "
    "operations) on default lists with 4 kinds of defaults, in step with a sparse model, elements and length compared; all pairs "
    "of slices and lengths in a small range exhaustively; non-trivial when elements were written, distinct by history."
)
ASSUMPTIONS = [
    "reading a missing element creates it; elements never created at the end do not count towards the length",
    "assigning a different number of elements to a slice with a step other than 1 is not specified",
]


class Mismatch(Exception):
    pass


class Model:
    """Elements by position; the length is that of the last one created"""

    def __init__(self, factory):
        self.factory = factory
        self.cells = {}

    def __len__(self):
        return max(self.cells) + 1 if self.cells else 0

    def at(self, i):
        if i < 0:
            i += len(self)
            if i < 0:
                raise IndexError
        return i

    def get(self, i):
        i = self.at(i)
        if i not in self.cells:
            self.cells[i] = self.factory()
        return self.cells[i]

    def set(self, i, v):
        self.cells[self.at(i)] = v

    def positions(self, s):
        step = 1 if s.step is None else s.step
        n = len(self)
        if s.start is None:
            start = 0 if step > 0 else n - 1
        else:
            start = self.at(s.start)
        if s.stop is None:
            stop = n if step > 0 else -1
        else:
            stop = self.at(s.stop)
        out = []
        i = start
        while (i < stop) if step > 0 else (i > stop):
            out.append(i)
            i += step
        return start, out

    def get_slice(self, s):
        return [self.get(i) for i in self.positions(s)[1]]

    def remove(self, gone):
        gone = set(gone)
        kept = {}
        for k, v in self.cells.items():
            if k not in gone:
                kept[k - sum(1 for g in gone if g < k)] = v
        self.cells = kept

    def open(self, i, n):
        self.cells = {(k + n if k >= i else k): v for k, v in self.cells.items()}

    def set_slice(self, s, values):
        start, where = self.positions(s)
        if len(where) == len(values):
            for i, v in zip(where, values):
                self.cells[i] = v
        else:
            start = min(where, default=start)
            self.remove(where)
            self.open(start, len(values))
            for i, v in enumerate(values):
                self.cells[start + i] = v

    def insert(self, i, v):
        i = self.at(i)
        self.open(i, 1)
        self.cells[i] = v

    def everything(self):
        return [self.get(i) for i in range(len(self))]


def factories(rng):
    which = rng.choice(["none", "int", "list", "text", "counter"])
    if which == "none":
        return which, None, lambda: None
    if which == "int":
        return which, int, int
    if which == "list":
        return which, list, list
    if which == "text":
        return which, (lambda: "default"), (lambda: "default")
    a, b = itertools.count(100), itertools.count(100)
    return which, (lambda: next(a)), (lambda: next(b))


def plan(rng, tier):
    quick = tier == "quick"
    cases = [
        {"k": "history", "seeds": [rng.randrange(1 << 40) for _ in range(25)]} for _ in range(80 if quick else 3000)
    ]
    cases += [{"k": "history", "seeds": [rng.randrange(1 << 40) for _ in range(2)], "large": True} for _ in range(16 if quick else 400)]
    for n in range(0, 5 if quick else 7):
        for step in (None, 1, 2, 3, -1, -2, -3):
            cases.append({"k": "slices", "n": n, "step": step})
    return cases


def check(what, got, want):
    if got != want:
        raise Mismatch(f"{what}: got {got!r:.200}, expected {want!r:.200}")


def both(what, real, model, obs):
    """The same operation on both, which have to agree on refusals, too"""
    try:
        want = ("value", model())
    except IndexError:
        want = ("IndexError", None)
    except ValueError:
        want = ("ValueError", None)
    try:
        got = ("value", real())
    except IndexError:
        got = ("IndexError", None)
    except ValueError:
        got = ("ValueError", None)
    if want[0] != "value":
        obs.count("refused operations")
    check(what, got, want)
    return want


def rand_slice(rng, n):
    def end():
        x = rng.random()
        if x < 0.35:
            return None
        if x < 0.9:
            return rng.randrange(-n - 1, n + 3)
        return rng.randrange(-n - 4, n + 8)

    step = rng.choice([None, None, 1, 1, 2, 3, -1, -1, -2, -3])
    return slice(end(), end(), step)


def history(seed, obs, large=False):
    rng = random.Random(seed)
    which, factory, twin = factories(rng)
    d = defaultlist(factory) if factory or rng.random() < 0.5 else defaultlist()
    m = Model(twin)
    trace = [which]
    fresh = itertools.count(1)
    wrote = False

    def value():
        return rng.choice([next(fresh), next(fresh), rng.randrange(4), "x", None])

    replay = {"k": "history", "seeds": [seed], "large": large}
    try:
        if large:
            for v in range(rng.choice([100, 127, 128, 255, 256, 257, 300, 511, 1000, 1025])):
                if rng.random() < 0.9:
                    d[v] = m.cells[v] = v
        for _ in range(30 if large else 50):
            n = len(m)
            i = rng.choice([rng.randrange(-n - 2, n + 3), rng.randrange(-n, n) if n else 0, n, n + rng.randrange(5)])
            op = rng.choice(
                ["get", "set", "set", "del", "insert", "insert", "append", "append", "extend", "slice", "slice", "set slice",
                 "set slice", "del slice", "del slice", "pop", "pop at", "reverse", "index", "remove", "count", "iterate", "equal",
                 "type", "reversed", "in", "iadd", "mutate", "clear", "scalar slice", "factory", "unpack", "alias", "of itself", "copy"]
            )
            trace.append(op)
            if which == "counter" and op in ("reverse", "reversed"):
                list(d), m.everything()  # in which order defaults are made is not specified
            if op == "clear" and large and rng.random() < 0.8:
                continue
            if n > (2500 if large else 60):
                op = "clear"
            if op == "get":
                both(f"d[{i}]", lambda: d[i], lambda: m.get(i), obs)
            elif op == "set":
                v = value()
                wrote = True

                def put():
                    d[i] = v

                both(f"d[{i}] = {v!r}", put, lambda: m.set(i, v), obs)
            elif op == "del":

                def drop():
                    del d[i]

                both(f"del d[{i}]", drop, lambda: m.remove([m.at(i)]), obs)
            elif op == "insert":
                v = value()
                wrote = True
                both(f"insert({i}, {v!r})", lambda: d.insert(i, v), lambda: m.insert(i, v), obs)
            elif op == "append":
                v = value()
                wrote = True
                d.append(v)
                m.insert(len(m), v)
            elif op in ("extend", "iadd"):
                vs = [value() for _ in range(rng.randrange(4))]
                if op == "extend":
                    d.extend(rng.choice([list, tuple, iter])(vs))
                else:
                    d += vs
                for v in vs:
                    m.insert(len(m), v)
            elif op in ("slice", "alias"):
                s = rand_slice(rng, n)
                if which == "counter" and (s.step or 1) < 0:
                    continue

                def part():
                    p = d[s]
                    check("slices are default lists", type(p) is defaultlist, True)
                    check("factory of a slice", p.default_factory is d.default_factory, True)
                    return p

                want = None
                try:
                    want = m.get_slice(s)
                except IndexError:
                    both(f"d[{s}]", lambda: d[s], lambda: m.get_slice(s), obs)
                if want is not None:
                    p = part()
                    check(f"d[{s}]", list(p), want)
                    obs.count("slices read")
                    p.append("not in the original")
                    if len(p) > 1:
                        p[0] = "nor this"
            elif op == "set slice":
                s = rand_slice(rng, n)
                vs = [value() for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]
                try:
                    _, where = m.positions(s)
                except IndexError:
                    where = None
                if where is not None and rng.random() < 0.5:
                    vs = [value() for _ in where]
                if where is not None and len(where) != len(vs) and s.step not in (None, 1):
                    continue
                given = rng.choice([list, tuple, iter, lambda x: (v for v in x)])(vs)
                wrote = True

                def put():
                    d[s] = given

                both(f"d[{s}] = {vs!r}", put, lambda: m.set_slice(s, vs), obs)
                obs.count("slices written")
            elif op == "of itself":
                vs, way = m.everything(), rng.choice(["slice", "slice", "part", "generator", "extend", "iadd"])
                s = rand_slice(rng, n)
                s = slice(s.start, s.stop, rng.choice([None, 1]))
                t = slice(*sorted(rng.randrange(n + 1) for _ in range(2)))
                trace.append(way)
                if way == "extend":
                    d.extend(d)
                elif way == "iadd":
                    d += d
                else:

                    def put():
                        d[s] = d if way == "slice" else d[t] if way == "part" else (v for v in d)

                    part = vs[t] if way == "part" else vs
                    list(d)
                    both(f"d[{s}] = {way} of d", put, lambda: m.set_slice(s, part), obs)
                if way in ("extend", "iadd"):
                    for v in vs:
                        m.insert(len(m), v)
                obs.count("elements taken from the list itself")
            elif op == "scalar slice":
                s = slice(rng.randrange(0, n + 1), None)
                d[s] = 5
                m.set_slice(s, [5])
            elif op == "del slice":
                s = rand_slice(rng, n)

                def drop():
                    del d[s]

                both(f"del d[{s}]", drop, lambda: m.remove(m.positions(s)[1]), obs)
                obs.count("slices deleted")
            elif op == "pop":

                def pop():
                    i = m.at(-1)
                    v = m.get(i)
                    m.remove([i])
                    return v

                both("pop()", lambda: d.pop(), pop, obs)
            elif op == "pop at":

                def pop():
                    v = m.get(i)
                    m.remove([m.at(i)])
                    return v

                both(f"pop({i})", lambda: d.pop(i), pop, obs)
            elif op == "reverse":
                d.reverse()
                vs = m.everything()[::-1]
                m.cells = dict(enumerate(vs))
                trace.append("iterate")
                check("elements", list(d), m.everything())
            elif op in ("index", "remove", "count", "in"):
                vs = m.everything()
                v = rng.choice(vs + ["missing"])
                if op == "index":
                    both(f"index({v!r})", lambda: d.index(v), lambda: vs.index(v), obs)
                elif op == "count":
                    check(f"count({v!r})", d.count(v), vs.count(v))
                elif op == "in":
                    check(f"{v!r} in d", v in d, v in vs)
                else:
                    both(f"remove({v!r})", lambda: d.remove(v), lambda: m.remove([vs.index(v)]), obs)
                list(d)
                m.everything()
            elif op == "iterate":
                check("elements", list(d), m.everything())
            elif op == "reversed":
                check("reversed", list(reversed(d)), m.everything()[::-1])
            elif op == "unpack":
                check("repr", repr(d), repr(m.everything()))
            elif op == "equal":
                if which != "counter":  # lists of which other defaults have been made
                    for changed in (False, True):
                        e = defaultlist(m.factory)
                        for i, v in m.cells.items():
                            if v != m.factory() or i == len(m) - 1 or rng.random() < 0.5:
                                e[i] = v
                        if changed and len(m):
                            i = rng.randrange(len(m))
                            e[i] = "changed"
                            same = m.cells.get(i) == "changed"
                        else:
                            same = True
                        if rng.random() < 0.5:
                            check("== another default list", d == e, same)
                        else:
                            check("== another default list, reversed", e == d, same)
                        obs.count("comparisons of default lists")
                vs = m.everything()
                check("== list", d == list(vs), True)
                check("== tuple", d == tuple(vs), True)
                check("== longer", d == vs + [1], False)
                if vs:
                    check("== changed", d == vs[:-1] + ["changed"], False)
                check("== another type", d == 5, False)
                e = defaultlist(factory)
                e.extend(vs)
                check("== default list", d == e, True)
            elif op == "type":
                for key in ("1", 1.0, None, (1, 2)):
                    for what in ("get", "set", "del"):
                        try:
                            if what == "get":
                                d[key]
                            elif what == "set":
                                d[key] = 1
                            else:
                                del d[key]
                            raise Mismatch(f"{what} with index {key!r} was accepted")
                        except TypeError:
                            pass
            elif op == "mutate" and which == "list":
                i = rng.randrange(n + 3)
                if isinstance(m.get(i), list):
                    d[i].append(len(trace))
                    m.get(i).append(len(trace))
                else:
                    d[i]
            elif op == "copy":
                if which in ("text", "counter"):
                    continue  # defaults made by functions of this module
                for c in (copy.deepcopy(d), pickle.loads(pickle.dumps(d, rng.randrange(2, 6)))):
                    check("type of a copy", type(c) is defaultlist, True)
                    check("elements of a copy", list(c), m.everything())
                    check("default of a copy", c[n + 2], m.factory())
                    c[0] = "of the copy"
                    if rng.random() < 0.5:
                        del c[:1]
                list(d)
                if rng.random() < 0.5:
                    d = copy.deepcopy(d)
                obs.count("copies")
            elif op == "clear":
                d.clear()
                m.cells = {}
            elif op == "factory":
                if which == "text" and rng.random() < 0.3:
                    d.default_factory = None
                    m.factory = lambda: None
                    which = "none"
            check("length", len(d), len(m))
            obs.count("operations")
        check("elements", list(d), m.everything())
    except Mismatch as e:
        obs.fail(f"default list: {e} after {trace[-6:]}"[:500], replay=replay, trace=trace)
    except Exception as e:
        obs.fail(f"default list: {type(e).__name__}: {e} after {trace[-6:]}"[:500], replay=replay, trace=trace)
    obs.count(f"histories with defaults: {which}")
    obs.seen(seed, nontrivial=wrote, sample=trace[:8])


def slices(case, obs):
    """All slices of short lists, some with missing elements"""
    n, step = case["n"], case["step"]
    ends = [None] + list(range(-n - 1, n + 3))
    for holes in (False, True):
        for start in ends:
            for stop in ends:
                s = slice(start, stop, step)
                for op in ("get", "del", "set same", "set 0", "set 1", "set 2", "set 4"):
                    d, m = defaultlist(lambda: "default"), Model(lambda: "default")
                    for i in range(n):
                        if not holes or i % 2 or i == n - 1:
                            d[i] = m.cells[i] = i
                    try:
                        _, where = m.positions(s)
                    except IndexError:
                        where = None
                    try:
                        if where is None:
                            try:
                                d[s]
                                raise Mismatch("accepted, expected an IndexError")
                            except IndexError:
                                obs.count("refused slices")
                        elif op == "get":
                            check("slice", list(d[s]), m.get_slice(s))
                        elif op == "del":
                            del d[s]
                            m.remove(where)
                        else:
                            k = len(where) if op == "set same" else int(op[-1])
                            if k != len(where) and step not in (None, 1):
                                continue
                            vs = [f"new{j}" for j in range(k)]
                            d[s] = vs
                            m.set_slice(s, vs)
                        check("length afterwards", len(d), len(m))
                        check("elements afterwards", list(d), m.everything())
                    except Mismatch as e:
                        obs.fail(f"{op} of d[{s}] of {n} elements{' with holes' if holes else ''}: {e}", replay=case)
                        return
                    except Exception as e:
                        obs.fail(f"{op} of d[{s}] of {n} elements{' with holes' if holes else ''}: {type(e).__name__}: {e}", replay=case)
                        return
                    obs.count("slices of short lists")
                obs.seen((n, holes, str(s)))


def run(case, obs):
    if case["k"] == "slices":
        slices(case, obs)
        return
    for seed in case["seeds"]:
        history(seed, obs, case.get("large", False))
        obs.count("histories of 100 elements or more", bool(case.get("large")))
        if obs.failed:
            return


def goals(counters, tier):
    return need_all(
        counters,
        {
            "histories of 100 elements or more": 30,
            "operations": 60000,
            "copies": 500,
            "comparisons of default lists": 500,
            "slices read": 3000,
            "slices written": 2000,
            "slices deleted": 2000,
            "refused operations": 2000,
            "slices of short lists": 8000,
        },
    )
