"""Spectral test"""
from rv import bits as B
from rv import calls
from rv.calls import need_all

PID = "P04"
LEVEL = "exploration"
RULE = (
    "All binary sequences of up to 10 (thorough 14) bits, then seeded sequences of 16 characters with an emphasis on "
    "periodic and nearly periodic ones, at even and odd lengths up to a million; non-trivial when a result is due."
)
ASSUMPTIONS = [
    "numpy's real FFT is the reference for the spectrum; peaks within 1e-7 relative of the threshold may count either way",
    "for odd lengths the last bit is dropped while threshold and expectation keep the full length, as documented by the code",
]
EDGES = [2, 3, 4, 5, 6, 7, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 997, 998, 999, 1000, 1001, 1023, 1024, 1025, 4099, 8191, 9973]


def plan(rng, tier):
    quick = tier == "quick"
    todo = []
    for n in EDGES:
        for _ in range(5 if quick else 30):
            todo.append(("spectral", B.rand_spec(rng, n), {}))
        for v in (0, 1):  # binary only thanks to the last bit
            todo.append(("spectral", {"g": "one", "n": n, "v": v, "pos": n - 1}, {}))
    for _ in range(500 if quick else 6000):
        n = B.rand_n(rng, 2, 8000)
        if rng.random() < 0.4:
            pat = "".join(rng.choice("01") for _ in range(rng.randrange(2, 24)))
            spec = {"g": "noisy", "n": n, "pat": pat, "seed": rng.randrange(1 << 30), "flips": rng.choice([0, 1, 3, n // 10, n // 4])}
        else:
            spec = B.rand_spec(rng, n)
        todo.append(("spectral", spec, {}))
    for n in [100000, 131071, 250000, 999999, 1000000] + ([] if quick else [1048576, 2000001, 3000000]):
        todo.append(("spectral", {"g": "random", "n": n, "seed": rng.randrange(1 << 30)}, {}))
        todo.append(("spectral", {"g": "markov", "n": n, "seed": rng.randrange(1 << 30), "flip": 0.45}, {}))
    for spec in B.large_extremes(rng):
        todo += [(t, spec, {}) for t in ("spectral",)]
    for t in ("spectral",):
        todo += calls.ladder(rng, t, quick)
    return calls.call_cases(todo) + calls.exhaustive_cases(["spectral"], 12 if quick else 14)


def run(case, obs):
    calls.run_case(case, obs)


def goals(counters, tier):
    return need_all(
        counters,
        {
            "spectral: results judged": 2000,
            "spectral: refusals judged": 30,
            "sequences of 100000 bits or more": 8,
        },
    )
