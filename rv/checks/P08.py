"""Serial and approximate entropy tests"""
from rv import bits as B
from rv import calls
from rv.calls import need_all

PID = "P08"
LEVEL = "exploration"
RULE = (
    "All binary sequences of up to 9 (thorough 12) bits, then seeded sequences of 16 characters with default pattern "
    "sizes, around every power of two where those change, and explicit ones of 1 to 14; non-trivial when a result is "
    "due, distinct by test, sequence and parameters."
)
ASSUMPTIONS = [
    "patterns are at most as long as the sequence, and at most 14 bits long",
    "statistics which are differences of large sums may differ by rounding (1e-13 of the terms), and their p-values accordingly",
]
EDGES = sorted({2, 3, 4, 5, 6, 7, 9, 10, 100, 1000} | {2 ** k + d for k in range(3, 14) for d in (-1, 0, 1)})


def plan(rng, tier):
    quick = tier == "quick"
    a, b = "serial", "approximate_entropy"
    todo = []
    for n in EDGES:
        for _ in range(2 if quick else 10):
            todo.append((a, B.rand_spec(rng, n), {}))
            todo.append((b, B.rand_spec(rng, n), {}))
    for _ in range(300 if quick else 2000):
        todo.append((a, B.rand_spec(rng, B.rand_n(rng, 2, 4000)), {}))
        todo.append((b, B.rand_spec(rng, B.rand_n(rng, 2, 4000)), {}))
        for t in (a, b):
            n = B.rand_n(rng, 2, 2500)
            m = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 14, n])
            if m <= min(n, 14):
                todo.append((t, B.rand_spec(rng, n), {"blocksize": m}))
    for n in [65535, 65536, 131072, 262144] + ([] if quick else [262143, 524288, 1000000, 1048576]):
        todo.append((a, B.rand_spec(rng, n), {}))
        todo.append((b, B.rand_spec(rng, n), {}))
    for spec in B.large_extremes(rng):
        todo += [(t, spec, {}) for t in ("serial", "approximate_entropy",)]
    for t in ("serial", "approximate_entropy"):
        todo += calls.ladder(rng, t, quick)
    return calls.call_cases(todo) + calls.exhaustive_cases([a, b], 11 if quick else 12)


def run(case, obs):
    calls.run_case(case, obs)


def goals(counters, tier):
    return need_all(
        counters,
        {
            "serial: results judged": 1200,
            "approximate_entropy: results judged": 1200,
            "serial: explicit parameters": 80,
            "approximate_entropy: explicit parameters": 80,
            "sequences of 100000 bits or more": 4,
        },
    )
