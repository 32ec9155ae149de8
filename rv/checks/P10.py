"""Random excursions tests"""
from rv import bits as B
from rv import calls
from rv.calls import need_all

PID = "P10"
LEVEL = "exploration"
RULE = (
    "All binary sequences of up to 9 (thorough 13) bits, then seeded sequences of 16 characters with an emphasis on "
    "walks which return to zero often, reach the outer states, end at zero or never return; non-trivial when a result "
    "is due, distinct by test and sequence."
)
ASSUMPTIONS = [
    "the cycles are those between returns to zero, plus the final one even when it is empty, as in the NIST paper's "
    "padded walk; the rounded visit probabilities of its tables are the specification",
]
EDGES = [2, 3, 4, 5, 10, 99, 100, 101, 128, 999, 1000, 1001, 5000]


def plan(rng, tier):
    quick = tier == "quick"
    a, b = "random_excursions", "random_excursions_variant"
    todo = []
    for n in EDGES:
        for _ in range(5 if quick else 20):
            todo.append((a, B.rand_spec(rng, n), {}))
            todo.append((b, B.rand_spec(rng, n), {}))
    for _ in range(400 if quick else 3000):
        n = B.rand_n(rng, 2, 5000)
        spec = B.rand_spec(rng, n)
        if rng.random() < 0.5:
            spec = {"g": "excursion", "n": n, "seed": rng.randrange(1 << 30), "pull": rng.choice([0.02, 0.05, 0.1, 0.2, 0.4])}
        todo.append((a, spec, {}))
        todo.append((b, spec, {}))
    for n in [100000, 250000] + ([999999, 1000000] if quick else [500000, 999999, 1000000, 2000000]):
        todo.append((a, {"g": "random", "n": n, "seed": rng.randrange(1 << 30)}, {}))
        todo.append((b, {"g": "random", "n": n, "seed": rng.randrange(1 << 30)}, {}))
        todo.append((a, {"g": "excursion", "n": n, "seed": rng.randrange(1 << 30), "pull": 0.01}, {}))
        todo.append((b, {"g": "excursion", "n": n, "seed": rng.randrange(1 << 30), "pull": 0.01}, {}))
    for spec in B.large_extremes(rng):
        todo += [(t, spec, {}) for t in ("random_excursions", "random_excursions_variant",)]
    for t in ("random_excursions", "random_excursions_variant"):
        todo += calls.ladder(rng, t, quick)
    return calls.call_cases(todo) + calls.exhaustive_cases([a, b], 11 if quick else 13)


def run(case, obs):
    calls.run_case(case, obs)


def goals(counters, tier):
    return need_all(
        counters,
        {
            "random_excursions: results judged": 1200,
            "random_excursions_variant: results judged": 1200,
            "sequences of 100000 bits or more": 12,
        },
    )
