"""Generators give the bits they promise"""
import math
import random

from itertools import islice

import numpy as np

from rv import cli
from rv.calls import need_all
from rv.core import HarnessError

from coinflip import generators

PID = "P19"
LEVEL = "exploration"
RULE = (
    "The Mersenne generator at edge and seeded seeds against the closed form of its state, alone and with instances of both "
    "generators drawn from in seeded interleavings; the Python generator for the kind, frequency, pairs and correlations of its "
    "bits, across instances and forked processes, and for the global random state before, between and after draws; the example "
    "run for the bits printed. Distinct by seed, interleaving or instance."
)
ASSUMPTIONS = [
    "the seeds of the Mersenne generator are integers",
    "a fair generator leaves the bounds of the statistical oracle with a probability below 1e-7",
]
M, K = 2 ** 31 - 1, 16807
SEEDS = [0, 1, 2, 42, 127773, M - 1, M, M + 1, 2 ** 31, 2 ** 32 - 1, 2 ** 63, 10 ** 30, -1, -42, -M, (M - 1) // 2, (M + 1) // 2]


def mersenne(seed, n):
    """States in closed form, i.e. not one from another"""
    return [1 if 2 * (seed * pow(K, i, M) % M) >= M else 0 for i in range(1, n + 1)]


def plan(rng, tier):
    quick = tier == "quick"
    cases = []
    seeds = SEEDS + [rng.randrange(1, 1 << rng.choice([8, 31, 31, 40, 100])) for _ in range(40 if quick else 2000)]
    seeds += [pow(K, -i, M) * x % M for i in (1, 2, 3, 7) for x in (0x3FFFFFFF, 0x40000000, 1, M - 1)]
    for i in range(0, len(seeds), 8):
        cases.append({"k": "seeds", "seeds": seeds[i : i + 8], "n": 2000})
    cases.append({"k": "seeds", "seeds": [42, 1], "n": 100000 if quick else 2000000})
    for seed in (42, rng.randrange(1, M)):
        cases.append({"k": "endless", "seed": seed, "n": 3000000 if quick else 40000000})
    cases.append({"k": "endless", "seed": None, "n": 5000000 if quick else 100000000})
    for _ in range(12 if quick else 300):
        cases.append({"k": "interleaved", "seed": rng.randrange(1 << 30)})
    for _ in range(8 if quick else 60):
        cases.append({"k": "python", "n": 200000 if quick else 2000000})
    cases.append({"k": "instances", "n": 40 if quick else 300})
    for _ in range(6 if quick else 100):
        cases.append({"k": "global", "seed": rng.randrange(1 << 30)})
    lengths = [10, 71, 72, 73, 144, 145, 200, 512, 864, 865, 937, 1000, 2500, 4096, 5000, 10000, 16385, 66000]
    for n in lengths + [rng.randrange(8, 1500) for _ in range(5 if quick else 100)]:
        for example in ("Mersenne", "Python"):
            if example == "Python" and n < 64:
                continue
            cases.append({"k": "example", "example": example, "n": n})
    cases.append({"k": "example", "example": None, "n": None})
    cases.append({"k": "example", "example": "Mersenne", "n": None})
    return cases


def run(case, obs):
    {"seeds": seeds, "interleaved": interleaved, "python": python, "instances": instances, "global": global_, "example": example,
     "endless": endless}[
        case["k"]
    ](case, obs)


def is_bit(x):
    return isinstance(x, (int, np.integer)) and x in (0, 1)


def seeds(case, obs):
    for seed in case["seeds"]:
        g = generators.Mersenne(seed)
        if iter(g) is not g:
            obs.fail("iter() of a generator is not the generator", replay=case)
        got = [next(g) for _ in range(case["n"])]
        want = mersenne(seed, case["n"])
        bad = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y or not is_bit(x)), None)
        if bad is not None:
            obs.fail(f"Mersenne({seed}): bit {bad} is {got[bad]!r}, expected {want[bad]}", replay={**case, "seeds": [seed]})
        obs.count("bits of Mersenne", len(got))
        obs.count("seeds of Mersenne")
        obs.seen(("mersenne", seed, case["n"]), sample={"seed": seed, "first bits": "".join(map(str, got[:32]))})
    g, by_keyword = generators.Mersenne(), generators.Mersenne(seed=case["seeds"][0])
    if [next(g) for _ in range(64)] != mersenne(42, 64):
        obs.fail("Mersenne(): the seed is not 42", replay=case)
    if [next(by_keyword) for _ in range(64)] != mersenne(case["seeds"][0], 64):
        obs.fail(f"Mersenne(seed={case['seeds'][0]}) is not Mersenne({case['seeds'][0]})", replay=case)


def endless(case, obs):
    """Millions of bits, which neither end nor repeat nor stick"""
    seed, n = case["seed"], case["n"]
    g = generators.Python() if seed is None else generators.Mersenne(seed)
    size, state, done, first = 1 << 16, seed, 0, None
    while done < n:
        got = list(islice(g, size))
        what = f"{'Python()' if seed is None else f'Mersenne({seed})'}, bits {done} to {done + size}"
        if len(got) != size:
            return obs.fail(f"{what}: ended after {len(got)}", replay=case)
        a = np.array(got)
        if a.dtype.kind not in "iu" or not ((a == 0) | (a == 1)).all():
            return obs.fail(f"{what}: not only zeroes and ones", replay=case)
        if seed is None:
            # 6.5 standard deviations, about 1e-10 for each
            if abs(int(a.sum()) - size / 2) > 6.5 * math.sqrt(size) / 2:
                return obs.fail(f"{what}: {int(a.sum())} ones", replay=case)
            if first is None:
                first = a
            elif abs(int((a == first).sum()) - size / 2) > 6.5 * math.sqrt(size) / 2:
                return obs.fail(f"{what}: like the first {size} bits in {int((a == first).sum())} places", replay=case)
        else:
            want = []
            for _ in range(size):
                state = state * K % M
                want.append(1 if 2 * state >= M else 0)
            if got != want:
                i = next(i for i in range(size) if got[i] != want[i])
                return obs.fail(f"Mersenne({seed}): bit {done + i} is {got[i]!r}, expected {want[i]}", replay=case)
        done += size
    if seed is not None and state != seed * pow(K, done, M) % M:
        raise AssertionError("reference model is wrong")
    obs.count("bits drawn in a row", done)
    obs.seen(("endless", seed, n))


def interleaved(case, obs):
    rng = random.Random(case["seed"])
    live = []
    for _ in range(3000):
        if len(live) < 2 or (len(live) < 8 and rng.random() < 0.01):
            if rng.random() < 0.3:
                live.append((None, generators.Python(), []))
            else:
                seed = rng.choice(SEEDS + [rng.randrange(M)])
                live.append((seed, generators.Mersenne(seed), []))
        seed, g, got = rng.choice(live)
        if rng.random() < 0.1:
            for x in g:  # for loops go on where next() stopped
                got.append(x)
                if rng.random() < 0.2:
                    break
        else:
            got.append(next(g))
    for seed, g, got in live:
        if seed is not None and got != mersenne(seed, len(got)):
            obs.fail(f"Mersenne({seed}) deviates when drawn from between other generators", replay=case)
        if not all(is_bit(x) for x in got):
            obs.fail("a generator gave something else than 0 and 1", replay=case)
        obs.count("interleaved generators")
    obs.seen(("interleaved", case["seed"]))


def python(case, obs):
    n = case["n"]
    g = generators.Python()
    if iter(g) is not g:
        obs.fail("iter() of a generator is not the generator", replay=case)
    got = [next(g) for _ in range(n)]
    if not all(is_bit(x) for x in got):
        bad = next(x for x in got if not is_bit(x))
        obs.fail(f"Python() gave {bad!r}", replay=case)
        return
    a = 2 * np.array(got, dtype=np.int64) - 1
    bound = 6.5  # standard deviations; about 8e-11 each, of about 250 statistics
    stats = {"frequency": a.sum() / math.sqrt(n)}
    for lag in list(range(1, 129)) + [256, 512, 624, 1024, 4096]:
        stats[f"correlation at lag {lag}"] = (a[lag:] * a[:-lag]).sum() / math.sqrt(n - lag)
    for width in (3, 4):
        m = n // width * width
        words = ((a[:m].reshape(-1, width) > 0) * (1 << np.arange(width))).sum(axis=1)
        counts = np.bincount(words, minlength=1 << width)
        q = 1 / (1 << width)
        for w, c in enumerate(counts):
            stats[f"words {w:0{width}b}"] = (c - len(words) * q) / math.sqrt(len(words) * q * (1 - q))
    for part in range(20):
        size = n // 20
        stats[f"frequency of part {part}"] = a[part * size : (part + 1) * size].sum() / math.sqrt(size)
    for name, z in stats.items():
        if abs(z) > bound:
            obs.fail(f"Python(): {name} is {z:.1f} standard deviations off", replay=case)
            return
    obs.count("bits of Python", n)
    obs.count("statistics of Python", len(stats))
    obs.seen(("python", tuple(got[:256])), sample={"n": n, "first bits": "".join(map(str, got[:32])), "worst": max(stats, key=lambda s: abs(stats[s]))})


def bits128(g):
    return "".join(str(next(g)) for _ in range(128))


def instances(case, obs):
    """No two instances share their bits, in one process or in several"""
    seen = {}

    def add(bits, where):
        if bits in seen:
            obs.fail(f"two instances of Python() gave the same bits: {seen[bits]} and {where}", replay=case)
        seen[bits] = where
        obs.count("instances of Python")
        obs.seen(("instance", bits))

    together = [generators.Python() for _ in range(case["n"])]
    for g in together:
        add(bits128(g), "created together")
    for i in range(case["n"]):
        random.seed(1)
        np.random.seed(1)
        add(bits128(generators.Python()), "created after seeding the global state")
    with cli.Scratch() as d:
        for i in range(8):
            def draw():
                random.seed(2)
                print("BITS " + bits128(generators.Python()))
            r = cli.call(draw, d.path)
            lines = [x[5:] for x in r.out.split("\n") if x.startswith("BITS ")]
            if len(lines) != 1:
                raise HarnessError(f"no bits: {r}")
            add(lines[0], "in another process")


def global_(case, obs):
    """Nothing is drawn from, or changed of, the global state"""
    rng = random.Random(case["seed"])
    random.seed(case["seed"])
    np.random.seed(case["seed"] % 2 ** 32)
    state, nstate = random.getstate(), np.random.get_state()
    gens = [generators.Python(), generators.Mersenne(case["seed"])]
    for _ in range(300):
        next(rng.choice(gens))
    after = np.random.get_state()
    if random.getstate() != state or not (after[2:] == nstate[2:] and (after[1] == nstate[1]).all()):
        obs.fail("a generator changed the global random state", replay=case)
    # draws do not follow the global state: re-seeding it between draws repeats nothing
    g = generators.Python()
    rows = []
    for _ in range(4):
        random.seed(case["seed"])
        np.random.seed(case["seed"] % 2 ** 32)
        rows.append(bits128(g))
    if len(set(rows)) < 4:
        obs.fail("Python() repeats its bits when the global random state is seeded again", replay=case)
    obs.count("global states watched")
    obs.seen(("global", case["seed"]))


def example(case, obs):
    cli.warm()
    args = ["example-run"]
    if case["example"]:
        args += ["-e", case["example"]]
    n = case["n"] or 512
    if case["n"]:
        args += ["-n", n]
    args += ["-t", "monobit"]
    want = mersenne(42, n) if case["example"] == "Mersenne" else None
    with cli.Scratch() as d:
        r = cli.invoke(args, d.path)
        left = d.listing()
    if want is not None and len(set(want)) < 2:
        raise HarnessError("this length is not binary")
    if r.code != 0:
        obs.fail(f"coinflip {' '.join(map(str, args))}: {r!r}", replay=case)
        return
    rows = cli.printed_rows(r.out)
    if want is not None:
        bad = cli.matches_printed(rows, "".join(str(b) for b in want))
    else:
        shown = "".join(x for x in rows if isinstance(x, str))
        width = len(rows[0]) if rows else 0
        hidden = sum(x * width for x in rows if isinstance(x, int))
        bad = None
        if set(shown) != set("01"):
            bad = f"the printed sequence is {shown[:100]!r}"
        elif len(shown) + hidden != n:
            bad = f"{len(shown)} values are printed and {hidden} omitted"
        elif len(shown) >= 500 and abs(shown.count("1") - len(shown) / 2) > 3.3 * math.sqrt(len(shown)):
            bad = f"{shown.count('1')} of {len(shown)} printed values are ones"
    if not bad and left:
        bad = f"files were written: {sorted(left)}"
    if bad:
        obs.fail(f"coinflip {' '.join(map(str, args))}: {bad}", replay=case)
    obs.count("example runs")
    obs.seen(("example", case["example"], n), sample={"args": args, "rows": rows[:1]})


def goals(counters, tier):
    return need_all(counters, {
        "bits drawn in a row": 10000000,
        "bits of Mersenne": 200000, "seeds of Mersenne": 60, "interleaved generators": 40, "bits of Python": 1000000,
        "statistics of Python": 1000, "instances of Python": 80, "global states watched": 6, "example runs": 30,
    })
