"""Binary sequences for the workloads, described by small JSON-serialisable specs"""
import random

import numpy as np


def make(spec):
    """numpy int8 array of zeroes and ones described by ``spec``"""
    g = spec["g"]
    if g == "list":
        return np.array([int(c) for c in spec["bits"]], dtype=np.int8)
    n = spec["n"]
    seed = spec.get("seed", 0)
    if g == "int":  # the n lowest bits of an integer, most significant first
        v = spec["v"]
        return np.array([(v >> (n - 1 - i)) & 1 for i in range(n)], dtype=np.int8)
    rs = np.random.RandomState(seed % 2 ** 32)
    if g == "random":
        a = (rs.random_sample(n) < spec.get("p", 0.5)).astype(np.int8)
    elif g == "markov":  # long or short runs
        flips = (rs.random_sample(n) < spec["flip"]).astype(np.int64)
        a = (np.cumsum(flips) % 2).astype(np.int8)
    elif g == "periodic":
        pat = [int(c) for c in spec["pat"]]
        a = np.resize(np.array(pat, dtype=np.int8), n)
    elif g == "noisy":  # periodic with a few flipped bits
        pat = [int(c) for c in spec["pat"]]
        a = np.resize(np.array(pat, dtype=np.int8), n)
        for i in rs.randint(0, n, size=spec["flips"]):
            a[i] ^= 1
    elif g == "one":  # a single odd one out
        a = np.full(n, 1 - spec["v"], dtype=np.int8)
        a[spec["pos"] % n] = spec["v"]
    elif g == "step":  # v repeated, then the other value
        a = np.full(n, spec["v"], dtype=np.int8)
        a[spec["pos"] % n :] = 1 - spec["v"]
    elif g == "lfsr":
        taps, length = spec["taps"], spec["len"]
        state = [1] + [0] * (length - 1)
        out = []
        for _ in range(n):
            out.append(state[-1])
            new = 0
            for t in taps:
                new ^= state[t - 1]
            state = [new] + state[:-1]
        a = np.array(out, dtype=np.int8)
    elif g == "thue":
        i = np.arange(n, dtype=np.int64)
        par = np.zeros(n, dtype=np.int64)
        while i.any():
            par ^= i & 1
            i >>= 1
        a = par.astype(np.int8)
    elif g == "balanced":  # walk which returns to zero often
        pairs = rs.randint(0, 2, size=(n + 1) // 2).astype(np.int8)
        a = np.empty(2 * len(pairs), dtype=np.int8)
        a[0::2] = pairs
        a[1::2] = 1 - pairs
        a = a[:n].copy()
        for i in rs.randint(0, max(n - 3, 1), size=n // 10):
            if n > 4 and a[i] != a[i + 2]:
                a[i], a[i + 2] = a[i + 2], a[i]
    elif g == "bursts":  # random with planted bursts of one value
        a = rs.randint(0, 2, size=n).astype(np.int8)
        for _ in range(spec["bursts"]):
            length = rs.randint(1, max(2, min(n, spec["len"]) + 1))
            pos = rs.randint(0, n)
            a[pos : pos + length] = rs.randint(0, 2)
    elif g == "maxrun":  # blocks of m bits with chosen longest runs of v
        m, v = spec["m"], spec.get("v", 1)
        parts = []
        for _ in range(-(-n // m)):
            k = int(rs.choice([0, 1, 2, 3, 4, 5, m // 2, m - 1, m])) if rs.rand() < 0.5 else int(rs.randint(0, min(m, 20) + 1))
            k = min(k, m)
            block = np.full(m, 1 - v, dtype=np.int8)
            at = int(rs.choice([0, m - k, rs.randint(0, m - k + 1)]))
            block[at : at + k] = v
            for i in range(0, m, 2):  # isolated ones elsewhere
                lonely = (i == 0 or block[i - 1] != v) and (i + 1 >= m or block[i + 1] != v)
                if k >= 1 and block[i] != v and lonely and rs.rand() < 0.5:
                    block[i] = v
            parts.append(block)
        a = np.concatenate(parts)[:n]
        if spec.get("tail"):  # a long run where no block should reach
            a[-spec["tail"] :] = v
    elif g == "special":  # blocks of b bits which are special cases of some kind
        b = spec["b"]
        parts = []
        kinds = []
        for _ in range(-(-n // b)):
            kinds = kinds or rs.permutation(12).tolist()
            k = kinds.pop()
            block = np.full(b, k % 2, dtype=np.int8)
            if k in (2, 3):
                block[-1] ^= 1
            elif k in (4, 5):
                block[0] ^= 1
            elif k in (6, 7):
                block[1::2] ^= 1
            elif k == 8:
                block[b // 2 :] ^= 1
            elif k == 9:
                block[rs.randint(0, b)] ^= 1
            elif k >= 10:
                block = rs.randint(0, 2, size=b).astype(np.int8)
            parts.append(block)
        a = np.concatenate(parts)[:n]
    elif g == "lowrank":  # matrices of chosen ranks
        r, c = spec["r"], spec["c"]
        parts = []
        for _ in range(-(-n // (r * c))):
            k = max(0, min(r, c) - int(rs.choice([0, 0, 1, 1, 2, 3, min(r, c)])))
            left = rs.randint(0, 2, size=(r, k))
            right = rs.randint(0, 2, size=(k, c))
            parts.append((left @ right % 2).astype(np.int8).reshape(-1))
        a = np.concatenate(parts)[:n]
    elif g == "mixed":  # halves of different character
        k = n // 2
        a = np.concatenate(
            [
                rs.randint(0, 2, size=k).astype(np.int8),
                (rs.random_sample(n - k) < spec.get("p", 0.9)).astype(np.int8),
            ]
        )
    elif g == "excursion":  # random walk pulled back to zero
        a = np.empty(n, dtype=np.int8)
        s = 0
        u = rs.random_sample(n)
        pull = spec.get("pull", 0.1)
        for i in range(n):
            p = 0.5 - pull * (1 if s > 0 else -1 if s < 0 else 0)
            a[i] = 1 if u[i] < p else 0
            s += 1 if a[i] else -1
    else:
        raise ValueError(g)
    if n >= 2 and (a == a[0]).all():  # keep it binary
        a = a.copy()
        a[spec.get("seed", 0) % n] ^= 1
    return a


PATS = ["01", "10", "001", "011", "0011", "0001", "0111", "00011", "0110", "010011", "00000001", "111111110"]
LFSRS = [(3, [2, 3]), (4, [3, 4]), (5, [3, 5]), (7, [6, 7]), (9, [5, 9]), (15, [14, 15]), (17, [14, 17])]


def rand_spec(rng: random.Random, n):
    """Spec of a sequence of n bits, of a random character"""
    seed = rng.randrange(1 << 30)
    k = rng.randrange(16)
    if k < 4:
        return {"g": "random", "n": n, "seed": seed}
    if k == 4:
        p = rng.choice([0.02, 0.1, 0.3, 0.45, 0.55, 0.7, 0.9, 0.98])
        return {"g": "random", "n": n, "seed": seed, "p": p}
    if k == 5:
        return {"g": "markov", "n": n, "seed": seed, "flip": rng.choice([0.02, 0.1, 0.2, 0.35, 0.65, 0.8, 0.95])}
    if k == 6:
        return {"g": "periodic", "n": n, "pat": rng.choice(PATS), "seed": seed}
    if k == 7:
        return {"g": "noisy", "n": n, "pat": rng.choice(PATS), "seed": seed, "flips": rng.choice([1, 2, 5, 20])}
    if k == 8:
        return {"g": "one", "n": n, "v": rng.randrange(2), "pos": rng.choice([0, n - 1, n // 2, rng.randrange(n)])}
    if k == 9:
        return {"g": "step", "n": n, "v": rng.randrange(2), "pos": rng.randrange(1, max(n, 2))}
    if k == 10:
        length, taps = rng.choice(LFSRS)
        return {"g": "lfsr", "n": n, "len": length, "taps": taps, "seed": seed}
    if k == 11:
        return {"g": "thue", "n": n, "seed": seed}
    if k == 12:
        return {"g": "balanced", "n": n, "seed": seed}
    if k == 13:
        return {"g": "bursts", "n": n, "seed": seed, "bursts": rng.choice([1, 3, 8]), "len": rng.choice([5, 12, 20, 40])}
    if k == 14:
        return {"g": "mixed", "n": n, "seed": seed, "p": rng.choice([0.05, 0.2, 0.8, 0.95])}
    return {"g": "excursion", "n": n, "seed": seed, "pull": rng.choice([0.05, 0.15, 0.3])}


def large_extremes(rng, n=140001):
    """Long sequences with counts, runs and walks beyond 16 bits"""
    v = rng.randrange(2)
    return [
        {"g": "one", "n": n, "v": v, "pos": rng.randrange(n)},
        {"g": "step", "n": n, "v": 1 - v, "pos": n // 2},
        {"g": "random", "n": n, "seed": rng.randrange(1 << 30), "p": rng.choice([0.01, 0.99])},
        {"g": "periodic", "n": n, "pat": rng.choice(PATS)},
    ]


# where implementations have thresholds, and buffers their ends
UNITS = [64, 100, 128, 200, 250, 256, 300, 400, 500, 512, 600, 700, 800, 900, 1000, 1024, 1500, 2000, 2048, 2500, 3000, 4000, 4096,
         5000, 6000, 8000, 8192, 10000, 12000, 16384, 20000, 30000, 32768, 40000, 50000, 60000, 65536, 80000, 100000, 131072,
         150000, 200000, 250000, 262144, 300000]


def rand_n(rng: random.Random, lo, hi):
    """Length between lo and hi, log-uniform"""
    import math

    return min(hi, max(lo, int(math.exp(rng.uniform(math.log(lo), math.log(hi + 1))))))


def text(a):
    s = "".join("1" if x else "0" for x in a)
    return s if len(s) <= 120 else f"{s[:100]}...({len(s)} bits)"
