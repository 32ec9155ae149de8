"""Linear complexity"""
import random

import numpy as np

from rv import bits as B
from rv import calls
from rv import oracle
from rv.calls import need_all
from rv.monitor import observe

from coinflip import algorithms

PID = "P07"
LEVEL = "exploration"
RULE = (
    "The register length of all bit strings of up to 9 bits against the definition (smallest recurrence), of all up to "
    "12 (thorough 16) bits and of seeded strings of up to 2600 (thorough 7000) bits (random, LFSR output with late errors, leading zeroes) "
    "against an independent algorithm, in several containers; the test on all sequences of up to 9 (thorough 12) bits and on "
    "seeded sequences with default, odd and even block sizes, around 100000 and 200000 bits. Non-trivial when a result is due."
)
ASSUMPTIONS = [
    "the rounded class probabilities of the NIST paper are the specification of the test",
    "floats agree within 1e-9 + 1e-7 relative",
]
EDGES = [2, 3, 4, 5, 8, 9, 10, 15, 16, 17, 99, 100, 101, 399, 400, 401, 1000, 2024, 2025, 4000]
KINDS = ["list", "tuple", "int8", "int64", "bool"]


def plan(rng, tier):
    quick = tier == "quick"
    t = "linear_complexity"
    todo = []
    for n in EDGES:
        for _ in range(4 if quick else 20):
            todo.append((t, B.rand_spec(rng, n), {}))
    for _ in range(150 if quick else 2000):
        todo.append((t, B.rand_spec(rng, B.rand_n(rng, 2, 4000)), {}))
    for _ in range(300 if quick else 4000):
        n = B.rand_n(rng, 2, 3000)
        b = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 32, 33, 100, 101, n, n // 2 or 1, rng.randrange(1, n + 1)])
        if b <= 700:
            todo.append((t, B.rand_spec(rng, n), {"blocksize": b}))
    for b in range(1, 10):  # where the correction of the mean is not negligible
        for _ in range(30 if quick else 300):
            todo.append((t, B.rand_spec(rng, B.rand_n(rng, 300, 3000)), {"blocksize": b}))
    todo += [(t, B.rand_spec(rng, n), {"blocksize": b}) for n, b in [(5000, 499), (5000, 500), (6000, 501), (10000, 1000), (5000, 2500), (7600, 2501)]]
    if not quick:
        todo += [(t, B.rand_spec(rng, n), {"blocksize": b}) for n, b in [(50000, 5000), (20000, 4999), (30000, 2500)]]
    big = [99999, 100000, 199999, 200000] + ([] if quick else [100001, 250000, 499999, 500000, 1000000])
    for n in big:
        todo.append((t, {"g": "random", "n": n, "seed": rng.randrange(1 << 30)}, {}))
    for low, high in [(100000, 199999), (200000, 499999)]:  # other lengths with those defaults
        for _ in range(6 if quick else 40):
            n = rng.randrange(low, high)
            todo.append((t, {"g": "periodic", "n": n, "pat": rng.choice(["011", "10", "0010111", "0000000000000001"])}, {}))
    for t in ("linear_complexity",):
        todo += calls.ladder(rng, t, quick)
    cases = calls.call_cases(todo) + calls.exhaustive_cases([t], 11 if quick else 12)
    for n in range(1, 15 if quick else 17):
        for start in range(0, 1 << n, 1024):
            cases.append({"k": "bmexh", "n": n, "from": start, "to": min(start + 1024, 1 << n)})
    for _ in range(40 if quick else 800):
        cases.append({"k": "bmrand", "seed": rng.randrange(1 << 30), "count": 12})
    for n in [1100, 1500, 2100, 2600] * (1 if quick else 8) + ([] if quick else [4500, 5000, 7000]):
        cases.append({"k": "bmrand", "seed": rng.randrange(1 << 30), "count": 1, "n": n, "kind": 0})
        cases.append({"k": "bmrand", "seed": rng.randrange(1 << 30), "count": 2, "n": n})
    for n in [4099, 8200, 20000, 66000] + ([] if quick else [100003, 140000]):  # long, but of a short register until late
        for _ in range(2 if quick else 8):
            cases.append({"k": "bmlate", "n": n + rng.randrange(50), "pat": rng.choice(["0", "01", "011", "0010111"]), "late": rng.randrange(6)})
    return cases


def dress(bits, kind):
    if kind == "list":
        return list(bits)
    if kind == "tuple":
        return tuple(bits)
    if kind == "bool":
        return [bool(b) for b in bits]
    return np.array(bits, dtype=kind)


def judge(bits, kind, obs):
    want = oracle.lfsr_length(bits)
    if len(bits) <= 9:
        brute = oracle.lfsr_length_brute(bits)
        obs.count("berlekamp_massey: judged by definition")
        if brute != want:
            raise AssertionError(f"reference model is wrong on {bits}")
    seq = dress(bits, kind)
    out = observe(algorithms.berlekamp_massey, seq)
    obs.count("berlekamp_massey: lengths judged")
    obs.seen(("bm", kind, tuple(bits)), nontrivial=any(bits))
    replay = {"k": "bmone", "bits": "".join(map(str, bits)), "kind": kind}
    if out.exc is not None or out.value != want:
        obs.fail(f"berlekamp_massey({replay['bits'][:80]}) given as {kind}: {out.value if out.exc is None else out!r}, expected {want}", replay=replay)
    elif [int(x) for x in seq] != list(bits):
        obs.fail(f"berlekamp_massey changed its argument ({kind})", replay=replay)


def run(case, obs):
    k = case["k"]
    if k == "bmexh":
        n = case["n"]
        for v in range(case["from"], case["to"]):
            judge([(v >> (n - 1 - i)) & 1 for i in range(n)], "list", obs)
            if obs.failed:
                return
    elif k == "bmrand":
        rng = random.Random(case["seed"])
        for _ in range(case["count"]):
            n = case.get("n") or rng.choice([rng.randrange(10, 120), rng.randrange(10, 600), 64, 128, 256, 500])
            kind = case.get("kind", rng.randrange(4))
            if n > 1000:
                obs.count("berlekamp_massey: strings of more than 1000 bits")
            if kind == 0:
                bits = [rng.getrandbits(1) for _ in range(n)]
            elif kind == 1:  # an LFSR, with an error late in its output
                length = rng.randrange(1, max(n // 2, 2))
                taps = [j for j in range(length) if rng.random() < 0.4] or [length - 1]
                bits = [rng.getrandbits(1) for _ in range(length)]
                while len(bits) < n:
                    bits.append(sum(bits[-1 - j] for j in taps) & 1)
                bits = bits[:n]
                if rng.random() < 0.6:
                    bits[rng.choice([n - 1, n // 2, rng.randrange(n)])] ^= 1
            elif kind == 2:  # leading zeroes, then something
                z = rng.randrange(0, n)
                bits = [0] * z + [1] + [rng.getrandbits(1) for _ in range(n - z - 1)]
            else:
                bits = B.make(B.rand_spec(rng, n)).tolist()
            judge(bits, rng.choice(KINDS), obs)
    elif k == "bmlate":
        bits = np.resize([int(c) for c in case["pat"]], case["n"]).tolist()
        if case["late"]:
            bits[-case["late"]] ^= 1
        judge(bits, "list", obs)
        obs.count("berlekamp_massey: long strings")
    elif k == "bmone":
        judge([int(c) for c in case["bits"]], case["kind"], obs)
    else:
        calls.run_case(case, obs)


def goals(counters, tier):
    return need_all(
        counters,
        {
            "linear_complexity: results judged": 1200,
            "linear_complexity: explicit parameters": 200,
            "berlekamp_massey: lengths judged": 8000,
            "berlekamp_massey: long strings": 6,
            "berlekamp_massey: judged by definition": 1000,
            "berlekamp_massey: strings of more than 1000 bits": 10,
            "sequences of 100000 bits or more": 3,
        },
    )
