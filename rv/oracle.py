"""Reference model of the SP800-22 tests, independent of coinflip's code.

``expect(name, bits, kwargs)`` gives what a test has to report for a sequence of
zeroes and ones, as a dict

    statistic, p        single tests
    subs                multi tests: list of (feature, statistic, p)
    fields              further information the result has to carry
    recs                list of (recommendation, whether it is met)

or ``Refusal(exception name)``. It follows the formulas of the NIST paper, on
numpy arrays and machine integers instead of pandas Series.
"""
from collections import Counter
from itertools import product
from math import ceil, erfc, exp, floor, isclose, log, log2, sqrt

import numpy as np
from scipy.special import gammaincc, hyp1f1, ndtr

TESTS = [
    "monobit",
    "frequency_within_block",
    "runs",
    "longest_runs",
    "binary_matrix_rank",
    "spectral",
    "non_overlapping_template_matching",
    "overlapping_template_matching",
    "maurers_universal",
    "linear_complexity",
    "serial",
    "approximate_entropy",
    "cusum",
    "random_excursions",
    "random_excursions_variant",
]
MULTI = [
    "non_overlapping_template_matching",
    "serial",
    "random_excursions",
    "random_excursions_variant",
]
MIN_N = {t: 2 for t in TESTS}
MIN_N.update(frequency_within_block=8, binary_matrix_rank=4, maurers_universal=4)


class Refusal:
    def __init__(self, *names):
        self.names = names

    def __repr__(self):
        return f"Refusal{self.names}"


def chi2_test(observed, expected):
    stat = float(sum((o - e) ** 2 / e for o, e in zip(observed, expected)))
    return stat, float(gammaincc((len(expected) - 1) / 2, stat / 2))


def igamc(a, x):
    return float(gammaincc(a, x))


def run_lengths(a):
    """Lengths and values of the runs of an array"""
    edges = np.flatnonzero(np.diff(a)) + 1
    bounds = np.concatenate([[0], edges, [len(a)]])
    return np.diff(bounds), a[bounds[:-1]]


def codes(a, m, cyclic):
    """Values of all overlapping m-bit windows"""
    if cyclic:
        a = np.concatenate([a, a[: m - 1]]) if m > 1 else a
    n = len(a) - m + 1
    out = np.zeros(n, dtype=np.int64)
    for i in range(m):
        out = (out << 1) | a[i : i + n]
    return out


def as_tuple(code, m):
    return tuple((code >> (m - 1 - i)) & 1 for i in range(m))


# ------------------------------------------------------------------------------


def monobit(a):
    n = len(a)
    h = int(a.sum())
    t = n - h
    diff = abs(h - t)
    stat = diff / sqrt(n)
    return dict(
        statistic=stat,
        p=erfc(stat / sqrt(2)),
        fields=dict(n=n, diff=diff, counts=(h, t)),
        recs=[("n ≥ 100", n >= 100)],
    )


def frequency_within_block(a, blocksize=None):
    n = len(a)
    if not blocksize:
        if n < 100:
            blocksize = 8
        else:
            blocksize = max(ceil(0.01 * n), 20)
            if n > 5000 and n // blocksize >= 100:
                blocksize = n // 50
    nblocks = n // blocksize
    counts = a[: nblocks * blocksize].reshape(nblocks, blocksize).sum(axis=1, dtype=np.int64)
    counts = [int(c) for c in counts]
    # 4 M sum (c/M - 1/2)^2 = sum (2c - M)^2 / M
    stat = sum((2 * c - blocksize) ** 2 for c in counts) / blocksize
    return dict(
        statistic=stat,
        p=igamc(nblocks / 2, stat / 2),
        fields=dict(blocksize=blocksize, nblocks=nblocks, counts_list=counts),
        recs=[
            ("n ≥ 100", n >= 100),
            ("blocksize ≥ 20", blocksize >= 20),
            ("blocksize > 0.01 * n", 100 * blocksize > n),
            ("nblocks < 100", nblocks < 100),
        ],
    )


def runs(a):
    n = len(a)
    h = int(a.sum())
    pi = h / n
    v = 1 + int(np.count_nonzero(np.diff(a)))
    p = erfc(abs(v - 2 * n * pi * (1 - pi)) / (2 * sqrt(2 * n) * pi * (1 - pi)))
    return dict(
        statistic=v,
        p=p,
        fields=dict(n=n, nheads=h, ntails=n - h, prop_heads=pi, prop_tails=1 - pi),
        recs=[("n ≥ 100", n >= 100)],
    )


def longest_runs(a):
    n = len(a)
    if n < 128:
        return Refusal("TestNotImplementedError")
    if n < 6272:
        m, nblocks, lo, probs = 8, 16, 1, [0.2148, 0.3672, 0.2305, 0.1875]
    elif n < 750000:
        m, nblocks, lo = 128, 49, 4
        probs = [0.1174, 0.2430, 0.2493, 0.1752, 0.1027, 0.1124]
    else:
        m, nblocks, lo = 10000, 75, 10
        probs = [0.0882, 0.2092, 0.2483, 0.1933, 0.1208, 0.0675, 0.0727]
    hi = lo + len(probs) - 1
    tally = Counter()
    for i in range(nblocks):
        block = a[i * m : (i + 1) * m]
        lengths, values = run_lengths(block)
        ones = lengths[values == 1]
        longest = int(ones.max()) if len(ones) else 0
        tally[min(max(longest, lo), hi)] += 1
    observed = [tally[k] for k in range(lo, hi + 1)]
    expected = [p * nblocks for p in probs]
    stat, p = chi2_test(observed, expected)
    return dict(
        statistic=stat,
        p=p,
        fields=dict(
            blocksize=m,
            nblocks=nblocks,
            expected_bincounts=expected,
            maxlen_bins={k: tally[k] for k in range(lo, hi + 1)},
        ),
        recs=[("n ≥ 128", n >= 128)],
    )


def gf2_rank(rows):
    """Rank over GF(2) of rows given as integers (XOR basis by highest bit)"""
    basis = {}
    for r in rows:
        while r:
            top = r.bit_length()
            if top in basis:
                r ^= basis[top]
            else:
                basis[top] = r
                break
    return len(basis)


def row_ints(block, nrows, ncols):
    pad = (-ncols) % 8
    grid = block.reshape(nrows, ncols).astype(np.uint8)
    if pad:
        grid = np.concatenate([np.zeros((nrows, pad), np.uint8), grid], axis=1)
    packed = np.packbits(grid, axis=1)
    return [int.from_bytes(row.tobytes(), "big") for row in packed]


def binary_matrix_rank(a, matrix_dimen=None):
    n = len(a)
    if matrix_dimen is None:
        if n // 1024 > 38:
            nrows = ncols = 32
        else:
            nrows = ncols = floor(sqrt(max(n // 38, 4)))
    else:
        nrows, ncols = matrix_dimen
    size = nrows * ncols
    nblocks = n // size
    full = min(nrows, ncols)
    tally = [0, 0, 0]
    for i in range(nblocks):
        rank = gf2_rank(row_ints(a[i * size : (i + 1) * size], nrows, ncols))
        tally[2 if rank == full else 1 if rank == full - 1 else 0] += 1
    expected = [0.1336 * nblocks, 0.5776 * nblocks, 0.2888 * nblocks]
    stat, p = chi2_test(tally, expected)
    return dict(
        statistic=stat,
        p=p,
        fields=dict(
            nrows=nrows,
            ncols=ncols,
            fullrank=full,
            rankcounts=tally,
            expected_rankcounts=expected,
        ),
        recs=[("n ≥ 152", n >= 152), ("n ≥ 38 * blocksize", n >= 38 * size)],
    )


def spectral(a):
    n = len(a)
    if n % 2:
        a = a[:-1]
        if (a == a[0]).all():
            return Refusal("NonBinaryTruncatedSequenceError")
    peaks = np.abs(np.fft.rfft(2.0 * a - 1.0))[: n // 2]
    threshold = sqrt(log(1 / 0.05) * n)
    eps = 1e-7 * threshold
    low = int(np.count_nonzero(peaks < threshold - eps))
    high = int(np.count_nonzero(peaks < threshold + eps))
    expected = 0.95 * n / 2

    def outcome(nbelow):
        d = (nbelow - expected) / sqrt(n * 0.95 * 0.05 / 4)
        return d, erfc(abs(d) / sqrt(2))

    return dict(
        statistic=None,
        p=None,
        nbelow_range=(low, high),
        outcome=outcome,
        fields=dict(n=n, threshold=threshold, nbelow_expect=expected, peaks=peaks),
        recs=[("n ≥ 1000", n >= 1000)],
    )


def non_overlapping_template_matching(a, template_size=None, blocksize=None):
    n = len(a)
    if not blocksize:
        blocksize = min(max(ceil(0.01 * n), 6), n)
        blocksize -= blocksize % 2
    nblocks = n // blocksize
    m = template_size or max(min(blocksize // 3, 9), 2)
    mean = (blocksize - m + 1) / 2 ** m
    var = blocksize * (1 / 2 ** m - (2 * m - 1) / 2 ** (2 * m))
    s = "".join("1" if x else "0" for x in a)
    block_strs = [s[i * blocksize : (i + 1) * blocksize] for i in range(nblocks)]
    subs, matches = [], []
    for template in product([1, 0], repeat=m):
        t = "".join(map(str, template))
        found = [b.count(t) for b in block_strs]
        stat = sum((w - mean) ** 2 for w in found) / var
        subs.append((template, stat, igamc(nblocks / 2, stat / 2)))
        matches.append(found)
    return dict(
        subs=subs,
        fields=dict(
            template_size=m,
            blocksize=blocksize,
            nblocks=nblocks,
            matches_expect=mean,
            variance=var,
        ),
        matches=matches,
        recs=[
            ("n ≥ 100", n >= 100),
            ("template_size = 9 or 10", m in (9, 10)),
            ("blocksize > 0.01 * n", 100 * blocksize > n),
            ("nblocks ≤ 100", nblocks <= 100),
            ("nblocks = ⌊n / blocksize⌋", True),
        ],
    )


def tallies(a, template_size, blocksize, matches_ceil):
    """How many blocks have how many overlapping matches of the template of ones"""
    tally = [0] * (matches_ceil + 1)
    for i in range(len(a) // blocksize):
        lengths, values = run_lengths(a[i * blocksize : (i + 1) * blocksize])
        hits = int(sum(max(0, int(k) - template_size + 1) for k in lengths[values == 1]))
        tally[min(hits, matches_ceil)] += 1
    return tally


def overlapping_template_matching(a, template_size=None, blocksize=None, matches_ceil=None):
    n = len(a)
    top = 5 if matches_ceil is None else matches_ceil
    if not blocksize:
        blocksize = max(floor(sqrt(n)), 2)
    nblocks = n // blocksize
    m = template_size or min(max(floor(sqrt(blocksize)), 2), 12)
    lam = (blocksize - m + 1) / 2 ** m
    eta = lam / 2
    probs = [exp(-eta)]
    for u in range(1, top):
        probs.append(eta * exp(-2 * eta) / 2 ** u * float(hyp1f1(u + 1, 2, eta)))
    probs.append(1 - sum(probs))
    expected = [p * nblocks for p in probs]
    tally = tallies(a, m, blocksize, top)
    stat, p = chi2_test(tally, expected)
    return dict(
        statistic=stat,
        p=p,
        fields=dict(
            template_size=m,
            blocksize=blocksize,
            matches_ceil=top,
            nblocks=nblocks,
            lambda_=lam,
            template=(1,) * m,
            expected_tallies=expected,
            tallies=tally,
        ),
        recs=[
            ("n ≥ 288", n >= 288),
            ("n ≥ nblocks * blocksize", True),
            ("min(expected_tallies) > df", min(expected) > top),
            ("λ ≈ 2", isclose(lam, 2)),
            ("len(template) ≈ log2(nblocks)", isclose(m, log2(nblocks))),
            ("df ≈ 2 * λ", isclose(top, 2 * lam)),
        ],
    )


MAURER = {
    1: (0.7326495, 0.690),
    2: (1.5374383, 1.338),
    3: (2.4016068, 1.901),
    4: (3.3112247, 2.358),
    5: (4.2534266, 2.705),
    6: (5.2177052, 2.954),
    7: (6.1962507, 3.125),
    8: (7.1836656, 3.238),
    9: (8.1764248, 3.311),
    10: (9.1723243, 3.356),
    11: (10.170032, 3.384),
    12: (11.168765, 3.401),
    13: (12.168070, 3.410),
    14: (13.167693, 3.416),
    15: (14.167488, 3.419),
    16: (15.167379, 3.421),
}
MAURER_SIZES = [387840, 904960, 2068480, 4654080, 10342400, 22753280, 49643520]


def maurer_defaults(n, blocksize=None):
    if n >= MAURER_SIZES[0]:
        k = max(i for i, s in enumerate(MAURER_SIZES) if n >= s)
        return 6 + k, 10 * 2 ** (6 + k)
    size = min(max(ceil(log(n)), 2), 16)
    return size, max(n // (blocksize or size) // 100, 1)


def maurers_universal(a, blocksize=None, init_nblocks=None):
    n = len(a)
    if blocksize and blocksize > 16:
        return Refusal("TestNotImplementedError")
    default_size, default_init = maurer_defaults(n, blocksize)
    size = blocksize or default_size
    q = init_nblocks or default_init
    total = n // size
    k = total - q
    words = a[: total * size].reshape(total, size).astype(np.int64)
    words = words @ (1 << np.arange(size - 1, -1, -1, dtype=np.int64))
    last = {}
    init_last = {}
    acc = 0.0
    positions = {}
    for pos, w in enumerate(words.tolist(), 1):
        if pos > q:
            acc += log2(pos - last.get(w, 0))
            positions.setdefault(w, []).append(pos)
        else:
            init_last[w] = pos
        last[w] = pos
    stat = acc / k
    mean, var = MAURER[size]
    p = erfc(abs(stat - mean) / sqrt(var) / sqrt(2))
    return dict(
        statistic=stat,
        p=p,
        fields=dict(
            blocksize=size,
            init_nblocks=q,
            segment_nblocks=k,
            mean_expect=mean,
            variance=var,
            last_init={as_tuple(w, size): pos for w, pos in init_last.items()},
            positions={as_tuple(w, size): v for w, v in positions.items()},
        ),
        recs=[
            ("n ≥ 387840", n >= 387840),
            ("6 ≤ blocksize ≤ 16", 6 <= size <= 16),
            (
                "init_nblocks ≈ 10 * 2 ** segment_nblocks",
                k < 200 and abs(q - 10 * 2 ** k) <= 5,
            ),
            ("segment_nblocks ≈ ⌈n / blocksize⌉ - init_nblocks", True),
        ],
    )


def lfsr_length(bits):
    """Shortest LFSR generating ``bits``: Berlekamp-Massey on machine integers

    ``window`` holds the bits seen so far, the latest in the lowest position, so
    the discrepancy is the parity of its overlap with the feedback polynomial.
    """
    c, b = 1, 1
    length, gap = 0, 1
    window = 0
    for i, bit in enumerate(bits):
        window = (window << 1) | bit
        if bin(window & c).count("1") & 1:
            t = c
            c ^= b << gap
            if 2 * length <= i:
                length = i + 1 - length
                b = t
                gap = 1
            else:
                gap += 1
        else:
            gap += 1
    return length


def lfsr_length_brute(bits):
    """The same by definition: smallest L such that some c fits the recurrence"""
    n = len(bits)
    if not any(bits):
        return 0
    for length in range(1, n + 1):
        for mask in range(1 << length):
            ok = True
            for i in range(length, n):
                s = 0
                for j in range(length):
                    if mask >> j & 1:
                        s ^= bits[i - 1 - j]
                if s != bits[i]:
                    ok = False
                    break
            if ok:
                return length
    return n


LC_PROBS = [0.010417, 0.03125, 0.125, 0.5, 0.25, 0.0625, 0.020833]


def linear_complexity(a, blocksize=None):
    n = len(a)
    if not blocksize:
        if n >= 200000:
            blocksize = 1000
        elif n >= 100000:
            blocksize = 500
        else:
            blocksize = max(floor(sqrt(n)), 2)
    m = blocksize
    nblocks = n // m
    mean = m / 2 + (9 + (1 if m % 2 else -1)) / 36 - (m / 3 + 2 / 9) * 2.0 ** -m
    tally = [0] * 7
    lens = []
    for i in range(nblocks):
        length = lfsr_length(a[i * m : (i + 1) * m].tolist())
        lens.append(length)
        t = (1 if m % 2 == 0 else -1) * (length - mean) + 2 / 9
        k = floor(t + 0.5)  # nearest integer
        tally[min(max(k, -3), 3) + 3] += 1
    expected = [nblocks * p for p in LC_PROBS]
    stat, p = chi2_test(tally, expected)
    return dict(
        statistic=stat,
        p=p,
        fields=dict(
            blocksize=m,
            mean_expect=mean,
            expected_bincounts=expected,
            variance_bins={k - 3: tally[k] for k in range(7)},
        ),
        recs=[
            ("n ≥ 1000000", n >= 1000000),
            ("500 ≤ blocksize ≤ 5000", 500 <= m <= 5000),
            ("nblocks ≥ 200", nblocks >= 200),
        ],
    )


def window_counts(a, m):
    if m <= 0:
        return {}
    if m <= 40:
        values, counts = np.unique(codes(a, m, cyclic=True), return_counts=True)
        return {as_tuple(int(v), m): int(c) for v, c in zip(values, counts)}
    t = a.tolist()
    t = t + t[: m - 1]
    return dict(Counter(tuple(t[i : i + m]) for i in range(len(a))))


def psi2(counts, m, n):
    if m <= 0:
        return 0.0
    # exact numerator: 2^m sum(c^2) - n^2
    return (2 ** m * sum(c * c for c in counts.values()) - n * n) / n


def serial(a, blocksize=None):
    n = len(a)
    m = blocksize or max(floor(log2(n)) - 3, 2)
    counts = {k: window_counts(a, k) for k in (m, m - 1, m - 2)}
    psi = {k: psi2(counts[k], k, n) for k in counts}
    d1 = psi[m] - psi[m - 1]
    d2 = psi[m] - 2 * psi[m - 1] + psi[m - 2]
    d1, d2 = max(d1, 0.0), max(d2, 0.0)
    return dict(
        subs=[
            ("∇ψ²ₘ", d1, igamc(2.0 ** (m - 2), d1 / 2)),
            ("∇²ψ²ₘ", d2, igamc(2.0 ** (m - 3), d2 / 2)),
        ],
        shapes=(2.0 ** (m - 2), 2.0 ** (m - 3)),
        n=n,
        fields=dict(blocksize=m, permutation_counts=counts, normalised_sums=psi),
        recs=[("blocksize < ⌊log2(n) - 2⌋", m < floor(log2(n)) - 2)],
    )


def approximate_entropy(a, blocksize=None):
    n = len(a)
    m = blocksize or max(floor(log2(n)) - 6, 2)
    counts = {k: window_counts(a, k) for k in (m, m + 1)}
    phi = {k: sum(c / n * log(c / n) for c in counts[k].values()) for k in counts}
    apen = phi[m] - phi[m + 1]
    stat = max(2 * n * (log(2) - apen), 0.0)
    return dict(
        statistic=stat,
        p=igamc(2.0 ** (m - 1), stat / 2),
        shape=2.0 ** (m - 1),
        n=n,
        fields=dict(blocksize=m, permutation_counts=counts, phis=phi, approx_entropy=apen),
        recs=[("blocksize < ⌊log2(n)⌋ - 5", m < floor(log2(n)) - 5)],
    )


def walk_of(a):
    w = np.zeros(len(a) + 1, dtype=np.int64)
    np.cumsum(2 * a.astype(np.int64) - 1, out=w[1:])
    return w


def cusum(a, reverse=False):
    n = len(a)
    w = walk_of(a[::-1] if reverse else a)
    z = int(np.abs(w).max())
    # floor((-n/z + 1) / 4) and so on, in integers
    k1 = np.arange((z - n) // (4 * z), (n - z) // (4 * z) + 1)
    k2 = np.arange((-3 * z - n) // (4 * z), (n - z) // (4 * z) + 1)
    r = z / sqrt(n)
    s1 = float(np.sum(ndtr((4 * k1 + 1) * r) - ndtr((4 * k1 - 1) * r)))
    s2 = float(np.sum(ndtr((4 * k2 + 3) * r) - ndtr((4 * k2 + 1) * r)))
    p = min(max(1 - s1 + s2, 0.0), 1.0)
    return dict(
        statistic=z,
        p=p,
        fields=dict(reverse=bool(reverse), n=n, walk=w),
        recs=[("n ≥ 100", n >= 100)],
    )


RE_PROBS = {
    1: [0.5000, 0.2500, 0.1250, 0.0625, 0.0312, 0.0312],
    2: [0.7500, 0.0625, 0.0469, 0.0352, 0.0264, 0.0791],
    3: [0.8333, 0.0278, 0.0231, 0.0193, 0.0161, 0.0804],
    4: [0.8750, 0.0156, 0.0137, 0.0120, 0.0105, 0.0733],
}


def random_excursions(a):
    n = len(a)
    w = walk_of(a)
    cycle = np.cumsum(w[1:] == 0)  # which cycle every step belongs to
    ncycles = int(cycle[-1]) + 1
    subs = []
    for x in (-4, -3, -2, -1, 1, 2, 3, 4):
        visits = np.bincount(cycle[w[1:] == x], minlength=ncycles)
        tally = np.bincount(np.minimum(visits, 5), minlength=6)
        expected = [ncycles * p for p in RE_PROBS[abs(x)]]
        stat = float(sum((int(o) - e) ** 2 / e for o, e in zip(tally, expected)))
        subs.append((x, stat, igamc(2.5, stat / 2)))
    return dict(
        subs=subs,
        fields=dict(n=n, walk=w),
        recs=[("n ≥ 1000000", n >= 1000000)],
    )


def random_excursions_variant(a):
    n = len(a)
    w = walk_of(a)
    ncycles = int(np.count_nonzero(w == 0))
    subs = []
    for x in list(range(-9, 0)) + list(range(1, 10)):
        visits = int(np.count_nonzero(w == x))
        p = erfc(abs(visits - ncycles) / sqrt(2 * ncycles * (4 * abs(x) - 2)))
        subs.append((x, visits, p))
    return dict(
        subs=subs,
        fields=dict(n=n, walk=w),
        recs=[("n ≥ 1000000", n >= 1000000)],
    )


def expect(name, a, kwargs):
    n = len(a)
    if n == 0 or (a == a[0]).all():
        return Refusal("NonBinarySequenceError")
    if n < MIN_N[name]:
        return Refusal("MinimumInputError")
    return globals()[name](a, **kwargs)


def in_domain(name, n, kwargs):
    """Whether the parameters leave something to test (complete blocks and such)"""
    if name in ("longest_runs", "monobit", "runs", "spectral", "cusum"):
        return True
    if name == "binary_matrix_rank" and kwargs.get("matrix_dimen"):
        r, c = kwargs["matrix_dimen"]
        return r >= 1 and c >= 1 and n // (r * c) >= 1
    if name == "frequency_within_block" or name == "linear_complexity":
        b = kwargs.get("blocksize")
        return b is None or 1 <= b <= n
    if name == "non_overlapping_template_matching":
        b = kwargs.get("blocksize")
        if b is None:
            b = min(max(ceil(0.01 * n), 6), n)
            b -= b % 2
        m = kwargs.get("template_size") or max(min(b // 3, 9), 2)
        return 1 <= b <= n and m <= b and 1 / 2 ** m > (2 * m - 1) / 4 ** m
    if name == "overlapping_template_matching":
        b = kwargs.get("blocksize") or max(floor(sqrt(n)), 2)
        m = kwargs.get("template_size") or min(max(floor(sqrt(b)), 2), 12)
        top = kwargs.get("matches_ceil", 5)
        if not (1 <= b <= n and m <= b and top >= 1):
            return False
        lam = (b - m + 1) / 2 ** m
        eta = lam / 2
        probs = [exp(-eta)]
        for u in range(1, top):
            probs.append(eta * exp(-2 * eta) / 2 ** u * float(hyp1f1(u + 1, 2, eta)))
        return min(probs + [1 - sum(probs)]) > 1e-9
    if name == "maurers_universal":
        b = kwargs.get("blocksize")
        if b is not None and b > 16:
            return True
        ds, di = maurer_defaults(n, b)
        q = kwargs.get("init_nblocks") or di
        return n // (b or ds) - q >= 1
    if name in ("serial", "approximate_entropy"):
        b = kwargs.get("blocksize")
        return b is None or 1 <= b <= n
    return True
