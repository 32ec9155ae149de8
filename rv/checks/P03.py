"""Binary matrix rank"""
import random

import numpy as np

from rv import bits as B
from rv import calls
from rv import oracle
from rv.calls import need_all
from rv.monitor import observe

from coinflip import algorithms

PID = "P03"
LEVEL = "exploration"
RULE = (
    "The test on all sequences of up to 9 (thorough 12) bits, on seeded sequences of 16 characters and of blocks with "
    "chosen ranks, with default and explicit (also rectangular) dimensions, around the lengths where the defaults "
    "change; the rank function on all matrices of up to 12 entries and on seeded matrices of up to 100x140 of chosen "
    "ranks, given as lists, tuples, arrays of several dtypes and iterators. Non-trivial when a result is due."
)
ASSUMPTIONS = [
    "rank probabilities 0.2888, 0.5776 and 0.1336 apply to every matrix size, as the NIST paper's own example does",
    "floats agree within 1e-9 + 1e-7 relative",
]
EDGES = [2, 3, 4, 5, 8, 75, 76, 77, 151, 152, 153, 341, 342, 343, 607, 608, 609, 949, 950, 1000, 2431, 2432, 9727, 9728, 39935, 39936, 40000]
KINDS = ["list", "tuple", "iter", "bool", "int8", "uint8", "int16", "int32", "int64", "uint64", "nprows"]


def plan(rng, tier):
    quick = tier == "quick"
    todo = []
    t = "binary_matrix_rank"
    for n in EDGES:
        for _ in range(3 if quick else 10):
            todo.append((t, B.rand_spec(rng, n), {}))
    for _ in range(150 if quick else 2000):
        todo.append((t, B.rand_spec(rng, B.rand_n(rng, 4, 12000)), {}))
    for _ in range(500 if quick else 3000):
        r, c = rng.choice(
            [(3, 3), (2, 2), (1, 1), (1, 5), (5, 1), (4, 7), (7, 4), (2, 9), (8, 8), (16, 16), (32, 32), (6, 6), (5, 70), (70, 5), (64, 64), (65, 65), (33, 32), (32, 33), (1, 64), (64, 1), (40, 129), (31, 31), (rng.randrange(1, 12), rng.randrange(1, 12))]
        )
        n = r * c * rng.randrange(1, 60 if r * c < 300 else 8) + rng.randrange(0, r * c)
        n = max(n, 4)
        spec = {"g": "lowrank", "r": r, "c": c, "n": n, "seed": rng.randrange(1 << 30)} if rng.random() < 0.7 else B.rand_spec(rng, n)
        todo.append((t, spec, {"matrix_dimen": [r, c]}))
    for n in [39936, 50000, 100000, 1000000] + ([] if quick else [2000000, 3000001]):
        todo.append((t, {"g": "lowrank", "r": 32, "c": 32, "n": n, "seed": rng.randrange(1 << 30)}, {}))
    for t in ("binary_matrix_rank",):
        todo += calls.ladder(rng, t, quick)
    cases = calls.call_cases(todo) + calls.exhaustive_cases([t], 11 if quick else 12)
    for r in range(1, 5):
        for c in range(1, 5):
            if r * c <= 12:
                cases.append({"k": "mexh", "r": r, "c": c})
    for _ in range(120 if quick else 1500):
        cases.append({"k": "mrand", "seed": rng.randrange(1 << 30), "count": 12})
    return cases


def dress(rows, kind):
    if kind == "list":
        return [list(r) for r in rows]
    if kind == "tuple":
        return tuple(tuple(r) for r in rows)
    if kind == "iter":
        return iter([iter(list(r)) for r in rows])
    if kind == "bool":
        return [[bool(x) for x in r] for r in rows]
    if kind == "nprows":
        return [np.array(r, dtype=np.int64) for r in rows]
    return np.array(rows, dtype=kind)


def judge_rank(rows, kind, obs):
    want = oracle.gf2_rank([int("".join(map(str, r)) or "0", 2) for r in rows])
    matrix = dress(rows, kind)
    before = [list(map(int, r)) for r in matrix] if kind != "iter" else None
    out = observe(algorithms.matrix_rank, matrix)
    obs.count("matrix_rank: ranks judged")
    obs.count(f"matrix_rank: given as {kind}")
    ncols = len(rows[0]) if rows else 0
    if ncols > 64:
        obs.count("matrix_rank: more than 64 columns")
    if want < min(len(rows), ncols):
        obs.count("matrix_rank: rank-deficient matrices")
    obs.seen(("rank", kind, str(rows)), sample=None)
    replay = {"k": "mone", "rows": ["".join(map(str, r)) for r in rows], "kind": kind}
    if out.exc is not None or out.value != want:
        obs.fail(f"matrix_rank of a {len(rows)}x{ncols} matrix given as {kind}: {out.value if out.exc is None else out!r}, expected {want}", replay=replay)
    elif before is not None and [list(map(int, r)) for r in matrix] != before:
        obs.fail(f"matrix_rank changed its argument ({kind})", replay=replay)


def run(case, obs):
    k = case["k"]
    if k == "mexh":
        r, c = case["r"], case["c"]
        for v in range(1 << (r * c)):
            bits = [(v >> i) & 1 for i in range(r * c)]
            judge_rank([bits[i * c : (i + 1) * c] for i in range(r)], "list", obs)
            if obs.failed:
                return
    elif k == "mrand":
        rng = random.Random(case["seed"])
        rs = np.random.RandomState(case["seed"])
        for _ in range(case["count"]):
            r = rng.choice([1, 2, 3, 5, 8, 16, 31, 32, 33, 64, rng.randrange(1, 100)])
            c = rng.choice([1, 2, 3, 5, 8, 16, 31, 32, 33, 62, 63, 64, 65, 100, rng.randrange(1, 140)])
            full = min(r, c)
            q = rng.choice([full, full, max(full - 1, 0), max(full - 2, 0), rng.randrange(0, full + 1), 0])
            m = (rs.randint(0, 2, (r, q)) @ rs.randint(0, 2, (q, c)) % 2) if q < full or rng.random() < 0.5 else rs.randint(0, 2, (r, c))
            judge_rank([[int(x) for x in row] for row in m], rng.choice(KINDS), obs)
    elif k == "mone":
        judge_rank([[int(ch) for ch in r] for r in case["rows"]], case["kind"], obs)
    else:
        calls.run_case(case, obs)


def goals(counters, tier):
    return need_all(
        counters,
        {
            "binary_matrix_rank: results judged": 1200,
            "binary_matrix_rank: explicit parameters": 200,
            "matrix_rank: ranks judged": 4000,
            "matrix_rank: more than 64 columns": 100,
            "matrix_rank: rank-deficient matrices": 500,
            "sequences of 100000 bits or more": 2,
        },
    )
