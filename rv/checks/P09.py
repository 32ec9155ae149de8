"""Cumulative sums test"""
from rv import bits as B
from rv import calls
from rv.calls import need_all

PID = "P09"
LEVEL = "exploration"
RULE = (
    "All binary sequences of up to 9 (thorough 13) bits in both directions, then seeded sequences of 16 characters "
    "(walks reaching their extreme early, late, at either side) in both directions; non-trivial when a result is due."
)
ASSUMPTIONS = [
    "the truncated series of the NIST paper, clamped to [0, 1], is the specification of the p-value; its bounds round "
    "towards minus infinity",
]
EDGES = [2, 3, 4, 5, 99, 100, 101, 128, 500, 1000, 1001, 4000]


def plan(rng, tier):
    quick = tier == "quick"
    todo = []
    for n in EDGES:
        for _ in range(8 if quick else 30):
            spec = B.rand_spec(rng, n)
            todo.append(("cusum", spec, {}))
            todo.append(("cusum", spec, {"reverse": True}))
    for _ in range(220 if quick else 4000):
        n = B.rand_n(rng, 2, 6000)
        spec = B.rand_spec(rng, n)
        todo.append(("cusum", spec, {"reverse": False}))
        todo.append(("cusum", spec, {"reverse": True}))
    for n in [100000, 250001, 1000000] + ([] if quick else [2000000, 3000001]):
        for rev in (False, True):
            todo.append(("cusum", {"g": "random", "n": n, "seed": rng.randrange(1 << 30)}, {"reverse": rev}))
            todo.append(("cusum", {"g": "random", "n": n, "seed": rng.randrange(1 << 30), "p": 0.501}, {"reverse": rev}))
    for spec in B.large_extremes(rng):
        todo += [(t, spec, {}) for t in ("cusum",)]
        todo.append(("cusum", spec, {"reverse": True}))
    for t in ("cusum",):
        todo += calls.ladder(rng, t, quick)
    cases = calls.call_cases(todo)
    for n in range(2, 12 if quick else 14):
        for start in range(0, 1 << n, 256):
            cases.append({"k": "both", "n": n, "from": start, "to": min(start + 256, 1 << n)})
    return cases


def run(case, obs):
    if case["k"] == "both":
        n = case["n"]
        for v in range(case["from"], case["to"]):
            for rev in (False, True):
                calls.one("cusum", {"g": "int", "n": n, "v": v}, {"reverse": rev}, obs)
                obs.count("cusum: exhaustive short sequences")
            if obs.failed:
                return
    else:
        calls.run_case(case, obs)


def goals(counters, tier):
    return need_all(
        counters,
        {
            "cusum: results judged": 2000,
            "cusum: explicit parameters": 1500,
            "sequences of 100000 bits or more": 8,
        },
    )
