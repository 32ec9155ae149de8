"""Unmet recommendations of NIST are reported, and met ones are not"""
from rv import bits as B
from rv import calls, oracle
from rv.calls import need_all

PID = "P15"
LEVEL = "exploration"
RULE = (
    "Calls on both sides of every boundary of every recommendation (lengths and parameters), then seeded lengths and "
    "parameters; the result's list, and the warning given, have to name exactly the unmet recommendations; non-trivial "
    "when the test gives a result, distinct by test, sequence and parameters."
)
ASSUMPTIONS = ["the recommendations are those which the tests state, with the words they use"]


def plan(rng, tier):
    quick = tier == "quick"
    todo = []

    def add(test, n, kwargs={}, spec=None):
        todo.append((test, spec or {"g": "random", "n": n, "seed": rng.randrange(1 << 30)}, kwargs))
        if not spec and n < 60000:  # which no recommendation looks at
            todo.append((test, {"g": "random", "n": n, "seed": rng.randrange(1 << 30), "p": rng.choice([0.1, 0.8])}, kwargs))
            todo.append((test, B.rand_spec(rng, n), kwargs))

    for n in (2, 50, 98, 99, 100, 101, 127, 128, 500):
        for test in ("monobit", "runs", "cusum"):
            add(test, n)
        add("cusum", n, {"reverse": True})
    for n in (128, 129, 6271, 6272):
        add("longest_runs", n)
    for n in (998, 999, 1000, 1001, 1002):
        add("spectral", n)
    for n in (8, 99, 100, 101, 1999, 2000, 2001, 2100, 4900, 5000, 5001, 5100, 9999, 10000):
        add("frequency_within_block", n)
        for b in (19, 20, 21, n // 100, n // 100 + 1, n // 99, n // 98, n // 101 or 1, n // 2):
            if 1 <= b <= n:
                add("frequency_within_block", n, {"blocksize": b})
    for n in (20000, 30001, 65536, 70007, 99999, 100000, 131071):
        for b in (20, 21, n // 100 - 1, n // 100, n // 100 + 1, n // 99, n // 200):
            add("frequency_within_block", n, {"blocksize": b})
    for n in (4, 36, 100, 151, 152, 153, 341, 342, 343, 39 * 1024 - 1, 39 * 1024, 38 * 1024):
        add("binary_matrix_rank", n)
        for r, c in ((1, 1), (2, 2), (1, 4), (3, 3), (2, 5), (5, 2)):
            if n // (r * c) >= 1:
                add("binary_matrix_rank", n, {"matrix_dimen": [r, c]})
    for r, c in ((2, 2), (3, 3), (2, 5), (4, 3), (6, 6)):
        for d in (-1, 0, 1):
            add("binary_matrix_rank", 38 * r * c + d, {"matrix_dimen": [r, c]})
    for n in (99, 100, 101, 600, 1000, 5000):
        add("non_overlapping_template_matching", n)
        for m, b in ((9, n // 4), (10, n // 3), (8, n // 3), (11, n // 2), (2, n // 100), (2, n // 100 + 1), (2, n // 101), (3, 20), (3, n // 99)):
            add("non_overlapping_template_matching", n, {"template_size": m, "blocksize": b})
    for n in (128, 256, 512, 1024, 4096, 20000, 30001, 65536, 99999, 100000):
        for b in (n // 100 - 1, n // 100, n // 100 + 1, n // 99, n // 101, n // 200):
            if b >= 2:
                add("non_overlapping_template_matching", n, {"template_size": 2 if b < 9 else rng.choice([9, 10, 5]), "blocksize": b}, B.rand_spec(rng, n))
    for n in (287, 288, 289, 1000, 1032, 2064, 10000):
        add("overlapping_template_matching", n)
        for m, b, k in ((2, 9, 4), (2, 9, 5), (3, 18, 4), (3, 18, 3), (4, 35, 4), (4, 35, 5), (5, 68, 4), (6, 133, 4),
                        (9, 1032, 5), (9, 1032, 4), (3, 10, 2), (2, 5, 2), (2, 17, 8), (2, 13, 6), (3, 2 + 8 * 3, 6)):
            add("overlapping_template_matching", n, {"template_size": m, "blocksize": b, "matches_ceil": k})
        for m in (2, 3, 4, 5):  # 2 ** m blocks
            for d in (-1, 0, 1):
                nblocks = 2 ** m + d
                add("overlapping_template_matching", n, {"template_size": m, "blocksize": n // nblocks})
    for n, b, q in ((387839, None, None), (387840, None, None), (387841, None, None), (1000, 5, None), (1000, 6, None),
                    (1000, 7, None), (2000, 6, 20), (130, 6, 20), (1000, 16, None), (1000, 15, None), (90, 2, 40),
                    (90, 2, 41), (100, 2, 40), (102, 6, 16), (84, 2, 40), (86, 2, 41), (88, 2, 40), (18, 1, 10),
                    (42, 2, 20), (44, 2, 20), (44, 2, 21), (43, 1, 40), (42, 1, 40), (82, 1, 80), (83, 1, 80),
                    (84, 1, 80), (15, 1, 14), (25, 1, 24), (26, 1, 25), (27, 1, 26), (16, 1, 14), (17, 1, 15),
                    (45, 1, 43), (46, 1, 44), (47, 1, 45), (48, 1, 46), (37, 1, 35), (36, 1, 34), (38, 1, 36)):
        add("maurers_universal", n, {k: v for k, v in (("blocksize", b), ("init_nblocks", q)) if v})
    for k in range(1, 10):  # initial blocks recommended by the blocks that are left
        for b in range(1, 17):
            if b * 10 * 2 ** k < 20000:
                for q in {10 * 2 ** k + rng.choice([-2, -1, 1, 2]), 10 * 2 ** k, rng.choice([20 * k, 10 * 2 ** (k - 1), 10 * 2 ** k + 2 ** k])}:
                    todo.append(("maurers_universal", B.rand_spec(rng, b * (q + k) + rng.randrange(b)), {"blocksize": b, "init_nblocks": q}))
    for n in (999999, 1000000):  # mostly zeroes, which is fast
        add("linear_complexity", n, {"blocksize": 2000}, {"g": "one", "n": n, "v": 1, "pos": n - 7})
    for n, b in ((2000, 10), (1999, 10), (1990, 10), (2010, 10), (800, 4), (796, 4), (5000, 499), (5000, 500), (5000, 501),
                 (5200, 4999 // 4), (500, None), (1000, None)):
        add("linear_complexity", n, {"blocksize": b} if b else {})
    for n, b in ((5000, 4999), (5001, 5000), (5002, 5001), (20000, 5000), (99999, 500), (100000, 500), (99500, 500), (100000, 499)):
        add("linear_complexity", n, {"blocksize": b}, {"g": "periodic", "n": n, "pat": "011"})  # which is fast
    if not quick:
        for b in (4999, 5000, 5001):
            add("linear_complexity", b + 1, {"blocksize": b})
        add("linear_complexity", 100000, {"blocksize": 500})
        add("linear_complexity", 99999, {"blocksize": 500})
    for k in range(5, 13):
        for n in (2 ** k - 1, 2 ** k, 2 ** k + 1):
            for m in range(max(1, k - 8), k + 1):
                if m <= 10:
                    add("serial", n, {"blocksize": m})
                    add("approximate_entropy", n, {"blocksize": m})
            add("serial", n)
            add("approximate_entropy", n)
    for n in (999999, 1000000):
        add("random_excursions", n)
        add("random_excursions_variant", n)
    add("random_excursions", 1000)
    for _ in range(25 if quick else 400):
        for test in oracle.TESTS:
            if test == "longest_runs":
                n = B.rand_n(rng, 128, 7000)
            else:
                n = B.rand_n(rng, 8, 3000)
            add(test, n, calls.rand_kwargs(rng, test, n), B.rand_spec(rng, n))
    for test in oracle.TESTS:
        more = calls.ladder(rng, test, True)
        todo += rng.sample(more, min(len(more), 70)) if quick else more
    return calls.call_cases(todo, 12)


def run(case, obs):
    if case["k"] == "batch":
        todo = case["calls"]
    else:
        todo = [[case["test"], case["spec"], case["kwargs"]]]
    for test, spec, kwargs in todo:
        got = calls.one(test, spec, kwargs, obs, recs=True)
        if got is None or isinstance(got[1], oracle.Refusal):
            continue
        for text, met in got[1]["recs"]:
            obs.count(f"{test}: {text}: {'met' if met else 'unmet'}")


ALWAYS_MET = ["n ≥ 128", "nblocks = ⌊n / blocksize⌋", "n ≥ nblocks * blocksize", "segment_nblocks ≈ ⌈n / blocksize⌉ - init_nblocks"]


def goals(counters, tier):
    want = {}
    for name in [k for k in counters if k.endswith((": met", ": unmet"))]:
        stem = name.rsplit(": ", 1)[0]
        if stem.split(": ", 1)[1] not in ALWAYS_MET:
            want[stem + ": met"] = 1
            want[stem + ": unmet"] = 1
    short = need_all(counters, want)
    if len(want) < 56:
        short.append(f"only {len(want) // 2} recommendations seen")
    return short
