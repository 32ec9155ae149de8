"""Frequency tests"""
from rv import bits as B
from rv import calls
from rv.calls import need_all

PID = "P01"
LEVEL = "exploration"
RULE = (
    "All binary sequences of up to 9 (thorough 13) bits, then seeded sequences of 16 characters (random, biased, "
    "periodic, single odd one out, runs, LFSR, walks...) at lengths around every length-dependent branch and "
    "log-uniform lengths, with default and explicit block sizes; non-trivial when the test is due to give a result, "
    "distinct by test, sequence and parameters."
)
ASSUMPTIONS = [
    "scipy's gammaincc and Python's erfc compute the special functions of the NIST paper",
    "floats agree within 1e-9 + 1e-7 relative",
]
EDGES = [2, 3, 7, 8, 9, 15, 16, 17, 63, 99, 100, 101, 107, 108, 119, 120, 199, 200, 201, 255, 256, 999, 1000, 1001,
         1999, 2000, 2001, 2099, 2100, 2101, 2950, 4900, 4999, 5000, 5001, 5049, 5050, 5051, 5099, 5100, 5101, 9999,
         10000, 10001, 12345]


def plan(rng, tier):
    quick = tier == "quick"
    todo = []
    for n in EDGES:
        for _ in range(2 if quick else 8):
            todo.append(("monobit", B.rand_spec(rng, n), {}))
            todo.append(("frequency_within_block", B.rand_spec(rng, n), {}))
    for _ in range(600 if quick else 3000):
        n = B.rand_n(rng, 2, 6000)
        todo.append(("monobit", B.rand_spec(rng, n), {}))
        n = B.rand_n(rng, 8, 12000)
        todo.append(("frequency_within_block", B.rand_spec(rng, n), {}))
        n = B.rand_n(rng, 8, 3000)
        b = rng.choice([1, 2, 3, n, n - 1, n // 2, n // 2 + 1, n // 3 or 1, rng.randrange(1, n + 1), 8, 20, 100, 128])
        todo.append(("frequency_within_block", B.rand_spec(rng, n), {"blocksize": b}))
    for n in [100000, 131072, 250001, 1000000] + ([] if quick else [999999, 2000003, 5000000]):
        todo.append(("monobit", B.rand_spec(rng, n), {}))
        todo.append(("frequency_within_block", B.rand_spec(rng, n), {}))
        todo.append(("frequency_within_block", {"g": "random", "n": n, "seed": n}, {"blocksize": n // 7}))
    for b in (1, 2, 3, 9):  # numbers of blocks beyond 16 bits
        n = 70000 * b + rng.randrange(b)
        todo.append(("frequency_within_block", B.rand_spec(rng, n), {"blocksize": b}))
    for spec in B.large_extremes(rng):
        todo += [(t, spec, {}) for t in ("monobit", "frequency_within_block",)]
    for t in ("monobit", "frequency_within_block"):
        todo += calls.ladder(rng, t, quick)
    return calls.call_cases(todo) + calls.exhaustive_cases(
        ["monobit", "frequency_within_block"], 11 if quick else 13
    )


def run(case, obs):
    calls.run_case(case, obs)


def goals(counters, tier):
    return need_all(
        counters,
        {
            "monobit: results judged": 800,
            "frequency_within_block: results judged": 800,
            "frequency_within_block: refusals judged": 50,
            "frequency_within_block: explicit parameters": 200,
            "sequences of 100000 bits or more": 6,
        },
    )
