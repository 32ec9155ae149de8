"""Runs tests"""
from rv import bits as B
from rv import calls
from rv.calls import need_all

PID = "P02"
LEVEL = "exploration"
RULE = (
    "All binary sequences of up to 9 (thorough 13) bits, then seeded sequences of 16 characters plus blocks with "
    "chosen longest runs (none, at either end, whole block, long runs right behind the last block), at lengths around "
    "128, 6272 and 750000 and log-uniform; non-trivial when a result is due, distinct by test and sequence."
)
ASSUMPTIONS = [
    "the rounded class probabilities of the NIST paper's tables are the specification of the longest runs test",
    "floats agree within 1e-9 + 1e-7 relative",
]
EDGES = [2, 3, 4, 99, 100, 101, 126, 127, 128, 129, 135, 136, 137, 255, 256, 1000, 6271, 6272, 6273, 6399, 6400, 7000, 12000]


def plan(rng, tier):
    quick = tier == "quick"
    todo = []
    for n in EDGES:
        for _ in range(3 if quick else 12):
            todo.append(("runs", B.rand_spec(rng, n), {}))
            todo.append(("longest_runs", B.rand_spec(rng, n), {}))
    for _ in range(500 if quick else 3000):
        todo.append(("runs", B.rand_spec(rng, B.rand_n(rng, 2, 5000)), {}))
        todo.append(("longest_runs", B.rand_spec(rng, B.rand_n(rng, 128, 9000)), {}))
        n = B.rand_n(rng, 128, 6271)
        todo.append(
            ("longest_runs", {"g": "maxrun", "m": 8, "n": n, "seed": rng.randrange(1 << 30), "v": rng.randrange(2), "tail": rng.choice([0, 0, 8]) if n > 160 else 0}, {})
        )
    for _ in range(80 if quick else 400):
        n = rng.choice([6272, 6273, 6300, 6400, 8192, 15000])
        todo.append(
            ("longest_runs", {"g": "maxrun", "m": 128, "n": n, "seed": rng.randrange(1 << 30), "v": rng.randrange(2), "tail": rng.choice([0, 0, 60]) if n > 6400 else 0}, {})
        )
    for n in [749999, 750000, 750001, 1000000]:
        seed = rng.randrange(1 << 30)
        todo.append(("longest_runs", {"g": "random", "n": n, "seed": seed}, {}))
        todo.append(("longest_runs", {"g": "maxrun", "m": 10000, "n": n, "seed": seed}, {}))
        if not quick or n in (749999, 1000000):
            todo.append(("runs", B.rand_spec(rng, n), {}))
    for _ in range(0 if quick else 20):
        n = rng.randrange(750000, 2000000)
        todo.append(("longest_runs", B.rand_spec(rng, n), {}))
        todo.append(("runs", B.rand_spec(rng, n), {}))
    for spec in B.large_extremes(rng):
        todo += [(t, spec, {}) for t in ("runs", "longest_runs",)]
    for t in ("runs", "longest_runs"):
        todo += calls.ladder(rng, t, quick)
    return calls.call_cases(todo) + calls.exhaustive_cases(
        ["runs", "longest_runs"], 11 if quick else 13, max_n_of={"longest_runs": 6}
    )


def run(case, obs):
    calls.run_case(case, obs)


def goals(counters, tier):
    return need_all(
        counters,
        {
            "runs: results judged": 800,
            "longest_runs: results judged": 450,
            "longest_runs: refusals judged": 50,
            "sequences of 100000 bits or more": 8,
        },
    )
