"""Sequences which cannot be tested are refused"""
import datetime as dt
import re
from decimal import Decimal

import numpy as np
import pandas as pd

from rv import bits as B
from rv import oracle, reps
from rv.calls import need_all
from rv.monitor import call, is_refusal

from coinflip import randtests

PID = "P12"
LEVEL = "exploration"
RULE = (
    "Sequences with one value, three or more values, missing values of 6 kinds, no values, or too few values, of 18 kinds of "
    "values and in 12 kinds of containers, at lengths 0 to 5000, given to all 15 tests; every length below each minimum "
    "exhaustively (all binary sequences); every evaluation is non-trivial, distinct by test, values, container and positions."
)
ASSUMPTIONS = []

NON_BINARY = ["NonBinarySequenceError"]
PAIRS = {
    "01": (0, 1, 2),
    "neg": (-1, 0, 1),
    "large": (10 ** 18, 10 ** 18 + 1, 10 ** 18 + 2),
    "huge": (2 ** 70, 2 ** 70 + 1, 2 ** 70 + 2),
    "floats": (0.0, 1.0, 0.5),
    "floats near": (1.0, 1.0000000000000002, 1.0000000000000004),
    "floats inf": (0.0, 1.0, float("inf")),
    "text": ("a", "b", "c"),
    "text case": ("a", "b", "A"),
    "text space": ("a", "b", "b "),
    "text empty": ("a", "b", ""),
    "digits": ("0", "1", "01"),
    "mixed": (0, 1, "1"),
    "mixed none": ("a", "b", "nan"),
    "decimal": (Decimal(0), Decimal(1), Decimal("1.0000000001")),
    "bytes": (b"0", b"1", b"2"),
    "dates": (dt.date(2020, 1, 1), dt.date(2020, 1, 2), dt.date(2020, 1, 3)),
    "times": (dt.datetime(2020, 1, 1), dt.datetime(2020, 1, 2), dt.datetime(2020, 1, 1, 0, 0, 0, 1)),
    "tuples": ((0, 1), (1, 0), (1, 1)),
}
MISSING = {"None": None, "nan": float("nan"), "NaT": pd.NaT, "NA": pd.NA, "np nan": np.float32("nan"), "Decimal nan": Decimal("nan")}
CONTAINERS = {
    k: reps.ANY[k]
    for k in ["list", "tuple", "generator", "object array", "series", "series constant index", "series shifted index",
              "categorical", "series multi index", "series filtered", "deque"]
}
MISSING_CONTAINERS = {
    k: CONTAINERS[k] for k in ["list", "tuple", "generator", "object array", "series", "series constant index", "deque"]
}
EXTENSION = {  # arrays which represent missing values in their own way
    "Int64": lambda v: pd.Series(v, dtype="Int64"),
    "boolean": lambda v: pd.Series([None if x is None else bool(x) for x in v], dtype="boolean"),
    "string": lambda v: pd.Series([None if x is None else str(x) for x in v], dtype="string"),
    "float": lambda v: np.array(v, dtype=float),
    "float series": lambda v: pd.Series(v, dtype=float),
    "category": lambda v: pd.Series(v, dtype="category"),
    "Categorical": lambda v: pd.Categorical(v),
    "datetime": lambda v: pd.to_datetime(pd.Series([None if x is None else f"200{x}-01-01" for x in v])),
    "Float64": lambda v: pd.Series(v, dtype="Float64"),
    "filtered": lambda v: pd.Series([0.0, *v, 1.0])[1:-1],
}
EMPTY = {
    "list": lambda: [],
    "tuple": lambda: (),
    "array": lambda: np.array([]),
    "int array": lambda: np.array([], dtype=int),
    "series": lambda: pd.Series([], dtype=object),
    "int series": lambda: pd.Series([], dtype="int64"),
    "category": lambda: pd.Series([], dtype="category"),
    "two categories": lambda: pd.Series(pd.Categorical([], categories=[0, 1])),
    "generator": lambda: iter(()),
}


def plan(rng, tier):
    quick = tier == "quick"
    sizes = [1, 2, 3, 4, 5, 7, 8, 9, 16, 100, 128, 150, 1000] + ([] if quick else [5000, 20000])
    cases = [{"k": "empty", "name": k} for k in EMPTY]
    for values in PAIRS:
        for container in CONTAINERS:
            if container == "categorical" and values == "mixed":
                continue  # not ordered
            for _ in range(1 if quick else 8):
                case = {"k": "values", "values": values, "container": container, "todo": []}
                for nvalues in (1, 3, 1, 3, 4):
                    n = rng.choice([s for s in sizes if s >= nvalues])
                    at = rng.choice(["anywhere", "first", "last", "middle"])
                    case["todo"].append([nvalues, n, at, rng.randrange(1 << 30)])
                cases.append(case)
    for missing in MISSING:
        for container in MISSING_CONTAINERS:
            todo = []
            for values in ["01", "floats", "text", "dates", "large"]:
                for _ in range(1 if quick else 5):
                    n = rng.choice(sizes[1:])
                    todo.append([values, rng.choice([0, 1, 2, 2, 2]), n, rng.choice([1, 1, 2, n // 2 + 1]), rng.randrange(1 << 30)])
            cases.append({"k": "missing", "missing": missing, "container": container, "todo": todo})
    for values in ("01", "floats", "text") if quick else PAIRS:  # long ones
        for container in ("list", "series"):
            for n in (4097, 10000, 32769, 65536, 100000, 131073, 300000):
                todo = [[rng.choice([1, 3, 3]), n, rng.choice(["first", "last", "anywhere"]), rng.randrange(1 << 30)]]
                cases.append({"k": "values", "values": values, "container": container, "todo": todo})
                if container in MISSING_CONTAINERS and values in ("01", "floats", "text"):
                    cases.append({"k": "missing", "missing": rng.choice(list(MISSING)), "container": container,
                                  "todo": [[values, rng.choice([1, 2, 2]), n, 1, rng.randrange(1 << 30)]]})
    for name in EXTENSION:
        todo = [[rng.choice([1, 2, 2]), rng.choice(sizes[2:]), rng.choice([1, 2]), rng.randrange(1 << 30)]
                for _ in range(4 if quick else 40)]
        cases.append({"k": "extension", "name": name, "todo": todo})
    for test in oracle.TESTS:
        for n in range(2, oracle.MIN_N[test]):
            for values in ["01", "floats", "text", "large", "mixed none", "dates"]:
                cases.append({"k": "short", "test": test, "n": n, "values": values})
    for n in list(range(2, 128)) if not quick else [2, 3, 16, 64, 100, 126, 127]:
        cases.append({"k": "longest", "spec": B.rand_spec(rng, n)})
    for b in [17, 18, 20, 32, 64, 1000] if quick else range(17, 120):
        for n in (16, 100, 1000, 5000):
            cases.append({"k": "maurer", "spec": B.rand_spec(rng, n), "blocksize": b})
    return cases


def refused(test, sequence, names, obs, case, what, kwargs={}):
    out = call(test, sequence, kwargs)
    ok = out.exc is not None and is_refusal(out.exc, names)
    if ok and not isinstance(out.exc, randtests.exceptions.TestError):
        ok = False
    if ok and not str(out.exc).strip() and "TestNotImplementedError" not in names:
        ok = False  # refusals say why
    if not ok:
        obs.fail(f"{test} given {what}: {out!r}, expected {names[0]}", replay=case)
    obs.count(f"{test}: refusals judged")
    obs.seen((test, what, str(case)), sample={"test": test, "given": what, "outcome": repr(out)[:140]})


def place(n, at, rs):
    if at == "anywhere":
        return rs.randint(n)
    return {"first": 0, "last": n - 1, "middle": n // 2}[at]


def run(case, obs):
    k = case["k"]
    if k == "empty":
        for test in oracle.TESTS:
            refused(test, EMPTY[case["name"]](), NON_BINARY, obs, case, f"an empty {case['name']}")
            obs.count("empty sequences")
    elif k == "values":
        make = CONTAINERS[case["container"]]
        for t in case["todo"]:
            nvalues, n, at, seed = t
            rs = np.random.RandomState(seed)
            pool = PAIRS[case["values"]]
            if nvalues == 1:
                v = [pool[rs.randint(3)]] * n
            else:
                order = rs.permutation(3)
                v = [pool[order[i]] for i in rs.randint(0, 2, size=n)]
                if nvalues == 3:  # a single third value
                    v[place(n, at, rs)] = pool[order[2]]
                else:
                    v = [pool[i] for i in rs.randint(0, 3, size=n)]
                for i, j in enumerate(rs.permutation(n)[:3]):
                    if nvalues == 4 or len(set(v)) < 3:
                        v[j] = pool[i]
            count = len(set(v))
            for test in oracle.TESTS:
                refused(test, make(v), NON_BINARY, obs, {**case, "todo": [t]},
                        f"{count} distinct values {case['values']!r} (n={n}) in {case['container']!r}")
            obs.count("one value" if count == 1 else "three values")
            if obs.failed:
                return
    elif k == "missing":
        for t in case["todo"]:
            values, nvalues, n, nmissing, seed = t
            rs = np.random.RandomState(seed)
            pool = PAIRS[values][:2]
            v = [pool[i % max(nvalues, 1)] for i in range(n)]
            v = [v[i] for i in rs.permutation(n)]
            where = rs.permutation(n)[: nmissing if nvalues else n]
            for i in where:
                v[i] = MISSING[case["missing"]]
            for test in oracle.TESTS:
                refused(test, MISSING_CONTAINERS[case["container"]](v), NON_BINARY, obs, {**case, "todo": [t]},
                        f"{len(where)} missing values {case['missing']!r} beside {values!r} (n={n}) in {case['container']!r}")
            obs.count("missing values")
            if obs.failed:
                return
    elif k == "extension":
        for t in case["todo"]:
            nvalues, n, nmissing, seed = t
            rs = np.random.RandomState(seed)
            v = rs.randint(0, nvalues, size=n).tolist()
            for i in rs.permutation(n)[:nmissing]:
                v[i] = None
            for test in oracle.TESTS:
                refused(test, EXTENSION[case["name"]](v), NON_BINARY, obs, {**case, "todo": [t]},
                        f"{nmissing} missing values of {case['name']} (n={n})")
            obs.count("missing values in typed arrays")
            if obs.failed:
                return
    elif k == "short":
        test, n = case["test"], case["n"]
        low, high = PAIRS[case["values"]][:2]
        for code in range(1, 2 ** n - 1):
            v = [high if code >> i & 1 else low for i in range(n)]
            names = ["list", "series", "categorical", "series shifted index"]
            if code % 3 == 1:
                names += [name for name in CONTAINERS if name not in names]
            for name in names:
                try:
                    sequence = CONTAINERS[name](v)
                except (TypeError, ValueError, OverflowError):
                    continue  # not a container of these values
                refused(test, sequence, ["MinimumInputError"], obs, case, f"{v} in {name!r}")
                try:
                    sequence = CONTAINERS[name](v)  # iterators are used up
                except (TypeError, ValueError, OverflowError):
                    continue
                out = call(test, sequence, {})
                text = re.findall(r"\d+", str(out.exc))
                if str(n) not in text or str(oracle.MIN_N[test]) not in text:
                    obs.fail(f"{test} given {v} in {name!r}: the error does not name the lengths: {out.exc}", replay=case)
                obs.count("short sequences whose lengths are named")
            obs.count("too short")
    elif k == "longest":
        bits = B.make(case["spec"])
        refused("longest_runs", bits.tolist(), ["TestNotImplementedError"], obs, case, f"{len(bits)} values")
        obs.count("not implemented")
    elif k == "maurer":
        bits = B.make(case["spec"])
        refused("maurers_universal", bits.tolist(), ["TestNotImplementedError"], obs, case,
                f"blocksize {case['blocksize']}", {"blocksize": case["blocksize"]})
        obs.count("not implemented")


def goals(counters, tier):
    want = {f"{t}: refusals judged": 1000 for t in oracle.TESTS}
    want.update({"empty sequences": 100, "one value": 200, "three values": 300, "missing values": 150,
                 "missing values in typed arrays": 30, "too short": 300, "short sequences whose lengths are named": 3000, "not implemented": 30})
    return need_all(counters, want)
