"""Template matching tests"""
from rv import bits as B
from rv import calls, oracle
from rv.calls import need_all
from rv.monitor import call

PID = "P05"
LEVEL = "exploration"
RULE = (
    "All binary sequences of up to 8 (thorough 12) bits, then seeded sequences of 16 characters (with planted runs and "
    "periods so that templates overlap themselves and straddle blocks) with default and explicit template sizes, block "
    "sizes and tally limits, and the tallies of up to 400 matches in a block; non-trivial when a result is due, distinct by test, sequence and parameters."
)
ASSUMPTIONS = [
    "Python's str.count gives the greedy left-to-right non-overlapping matches",
    "scipy's hyp1f1 and gammaincc compute the special functions",
    "parameters leave a complete block, a template no longer than it, and positive class probabilities",
]
EDGES = [2, 3, 4, 5, 6, 7, 8, 99, 100, 101, 255, 256, 287, 288, 289, 599, 600, 601, 699, 700, 701, 1000, 1001, 2000, 4095, 4096]


def plan(rng, tier):
    quick = tier == "quick"
    a, b = "non_overlapping_template_matching", "overlapping_template_matching"
    todo = []
    for n in EDGES:
        for _ in range(2 if quick else 8):
            todo.append((a, B.rand_spec(rng, n), {}))
            todo.append((b, B.rand_spec(rng, n), {}))
    for _ in range(220 if quick else 1500):
        todo.append((a, B.rand_spec(rng, B.rand_n(rng, 2, 4000)), {}))
        todo.append((b, B.rand_spec(rng, B.rand_n(rng, 2, 8000)), {}))
        n = B.rand_n(rng, 4, 2500)
        kw = {}
        if rng.random() < 0.8:
            kw["template_size"] = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9])
        if rng.random() < 0.7:
            kw["blocksize"] = rng.choice([n, n // 2 or 1, n // 3 or 1, n // 8 or 1, rng.randrange(1, n + 1), 10, 64])
        todo.append((a, B.rand_spec(rng, n), kw))
    for _ in range(260 if quick else 4000):
        n = B.rand_n(rng, 8, 6000)
        kw = {}
        if rng.random() < 0.8:
            kw["template_size"] = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 9, 10])
        if rng.random() < 0.8:
            kw["blocksize"] = rng.choice([n, n // 2, n // 3, n // 10 or 1, rng.randrange(1, n + 1), 10, 32, 100, 1032])
        if rng.random() < 0.6:
            kw["matches_ceil"] = rng.choice([1, 2, 3, 4, 5, 6, 7, 10])
        spec = B.rand_spec(rng, n)
        if rng.random() < 0.4:
            spec = {"g": "markov", "n": n, "seed": rng.randrange(1 << 30), "flip": rng.choice([0.2, 0.35, 0.5])}
        todo.append((b, spec, kw))
    # recommendations which only particular parameters meet
    todo += [
        (b, {"g": "random", "n": 1032 * k + d, "seed": k}, {"template_size": 9, "blocksize": 1032}) for k in (1, 5, 40) for d in (0, 1)
    ]
    for n in [100000] if quick else [100000, 300001, 1000000]:
        todo.append((a, B.rand_spec(rng, n), {}))
        todo.append((b, B.rand_spec(rng, n), {}))
        todo.append((b, {"g": "random", "n": n, "seed": rng.randrange(1 << 30)}, {"template_size": 9, "blocksize": 1032}))
        todo.append((a, {"g": "random", "n": n, "seed": rng.randrange(1 << 30)}, {"template_size": 10, "blocksize": n // 8}))
    for spec in B.large_extremes(rng):
        todo += [(t, spec, {}) for t in ("non_overlapping_template_matching", "overlapping_template_matching",)]
    for t in ("non_overlapping_template_matching", "overlapping_template_matching"):
        todo += calls.ladder(rng, t, quick)
    # more matches in a block than any expectation covers: tallies alone
    tallies = []
    for i in range(160 if quick else 900):
        n = rng.choice([1000, 2000, 6000])
        spec = {"g": "markov", "n": n, "seed": rng.randrange(1 << 30), "flip": 0.1} if i % 3 == 0 else (
            {"g": "random", "n": n, "seed": rng.randrange(1 << 30), "p": rng.choice([0.5, 0.8, 0.95])} if i % 3 == 1 else B.rand_spec(rng, n))
        kw = {"template_size": rng.choice([1, 2, 3, 4]), "blocksize": rng.choice([n // 2, n // 3, 500, 257, 1000]),
              "matches_ceil": rng.choice([20, 64, 100, 128, 200, 255, 256, 257, 300, 400])}
        tallies.append([spec, kw])
    more = [{"k": "tallies", "calls": tallies[i : i + 10]} for i in range(0, len(tallies), 10)]
    return calls.call_cases(todo) + more + calls.exhaustive_cases([a, b], 8 if quick else 12)


def run(case, obs):
    if case["k"] != "tallies":
        calls.run_case(case, obs)
        return
    test = "overlapping_template_matching"
    for spec, kw in case["calls"]:
        bits = B.make(spec)
        o = call(test, bits.tolist(), kw)
        if o.exc is not None:
            # no expectation, and so no p-value
            obs.count("tallies: calls refused")
            continue
        want = oracle.tallies(bits, **kw)
        got = [int(x) for x in o.value.tallies]
        if got != want or (o.value.template_size, o.value.blocksize, o.value.matches_ceil) != tuple(kw[k] for k in ("template_size", "blocksize", "matches_ceil")):
            obs.fail(f"{test} of {spec} with {kw}: tallies {got}, expected {want}", replay={"k": "tallies", "calls": [[spec, kw]]})
            return
        obs.count("tallies compared")
        obs.count("tallies of more than 256 matches", any(256 < i for i, x in enumerate(got) if x))
        obs.seen(("tallies", str(spec), str(kw)))


def goals(counters, tier):
    return need_all(
        counters,
        {
            "non_overlapping_template_matching: results judged": 600,
            "non_overlapping_template_matching: explicit parameters": 60,
            "overlapping_template_matching: results judged": 700,
            "overlapping_template_matching: explicit parameters": 100,
            "sequences of 100000 bits or more": 4,
            "tallies compared": 60,
            "tallies of more than 256 matches": 3,
        },
    )
