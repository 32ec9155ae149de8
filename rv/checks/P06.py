"""Maurer's universal test"""
from rv import bits as B
from rv import calls
from rv.calls import need_all

PID = "P06"
LEVEL = "exploration"
RULE = (
    "All binary sequences of up to 9 (thorough 12) bits, then seeded sequences of 16 characters with default "
    "parameters, with both explicit, and with only one of them, for every supported pattern size, at lengths around "
    "387840 and 904960 (and 2068480, 4654080 and 10342400, thorough also up to 49643520) where the defaults change; non-trivial when a result is due."
)
ASSUMPTIONS = [
    "the deviation is normalised by the tabulated standard deviation alone, as in the NIST paper's worked example (which "
    "the test suite pins), without the finite-sample factor",
    "a pattern which the initial segment lacks counts as last seen at position 0",
]
EDGES = [2, 3, 4, 5, 6, 7, 8, 19, 20, 21, 147, 148, 149, 402, 403, 404, 1000, 1096, 1097, 2979, 2981, 8103, 10000]


def plan(rng, tier):
    quick = tier == "quick"
    t = "maurers_universal"
    todo = []
    for n in EDGES:
        for _ in range(4 if quick else 20):
            todo.append((t, B.rand_spec(rng, n), {}))
    for _ in range(250 if quick else 3000):
        todo.append((t, B.rand_spec(rng, B.rand_n(rng, 4, 9000)), {}))
    for size in range(1, 17):
        for _ in range(22 if quick else 200):
            n = B.rand_n(rng, max(4, 3 * size), 5000)
            kw = {"blocksize": size}
            nblocks = n // size
            if rng.random() < 0.7:
                kw["init_nblocks"] = rng.choice([1, 2, nblocks - 1, nblocks // 2, rng.randrange(1, nblocks)]) or 1
            todo.append((t, B.rand_spec(rng, n), kw))
    for _ in range(250 if quick else 2500):  # only one parameter
        n = B.rand_n(rng, 8, rng.choice([300, 5000, 30000]))
        spec = rng.choice([B.rand_spec(rng, n), {"g": "random", "n": n, "seed": rng.randrange(1 << 30), "p": rng.choice([0.02, 0.1, 0.2, 0.8, 0.9, 0.98])}])
        todo.append((t, spec, {"init_nblocks": rng.choice([1, 2, 5, max(n // 20, 1)])}))
    for size in (17, 18, 64):
        todo.append((t, B.rand_spec(rng, 1000), {"blocksize": size}))
        todo.append((t, B.rand_spec(rng, 1000), {"blocksize": size, "init_nblocks": 3}))
    sizes = [387839, 387840, 387841, 904959, 904960, 1000000, 2068480, 4654080, 10342400]
    if not quick:
        sizes += [500000, 2068479, 3000000, 4654079, 10342399, 22753279, 22753280, 49643520]
    for n in sizes:
        todo.append((t, {"g": "random", "n": n, "seed": rng.randrange(1 << 30)}, {}))
    for size in (1, 2, 3):  # distances beyond 15 and 16 bits
        for kw in ({"blocksize": size}, {"blocksize": size, "init_nblocks": 2}):
            n = 70000 * size + rng.randrange(size)
            todo.append((t, {"g": "one", "n": n, "v": rng.randrange(2), "pos": size * (n // size - 1 - rng.randrange(100))}, kw))
            todo.append((t, {"g": "step", "n": n, "v": rng.randrange(2), "pos": n - 10}, kw))
    todo.append((t, {"g": "markov", "n": 400000, "seed": rng.randrange(1 << 30), "flip": 0.3}, {"blocksize": 7}))
    todo.append((t, {"g": "random", "n": 400000, "seed": rng.randrange(1 << 30), "p": 0.7}, {"init_nblocks": 1000}))
    for t in ("maurers_universal",):
        todo += calls.ladder(rng, t, quick)
    return calls.call_cases(todo) + calls.exhaustive_cases([t], 9 if quick else 12)


def run(case, obs):
    calls.run_case(case, obs)


def goals(counters, tier):
    return need_all(
        counters,
        {
            f"maurers_universal: results judged": 1200,
            f"maurers_universal: explicit parameters": 300,
            f"maurers_universal: refusals judged": 6,
            "sequences of 100000 bits or more": 6,
        },
    )
