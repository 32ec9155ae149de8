"""Every binary sequence of sufficient length gets a result with probabilities"""
import math

from rv import bits as B
from rv import calls, oracle
from rv.calls import need_all
from rv.monitor import call, pvalues

PID = "P13"
LEVEL = "exploration"
RULE = (
    "All 15 tests, without a model of their statistics: all binary sequences of up to 10 (thorough 12) values, extreme "
    "sequences (one odd value out, steps, alternations, squares, sparse, dense...) at every length up to 260 (thorough "
    "600), and at lengths up to a million, with default parameters and (seeded) explicit ones; non-trivial all, distinct "
    "by test, sequence and parameters."
)
ASSUMPTIONS = [
    "explicit parameters leave at least one complete block",
    "patterns of the serial and approximate entropy tests have at most 1000 bits, as 2^m leaves the range of doubles at 1024",
]


def least(test):
    return {"longest_runs": 128}.get(test, oracle.MIN_N[test])


def extremes(n):
    out = []
    for v in (0, 1):
        for pos in {0, 1 % n, n // 2, n - 2, n - 1}:
            if pos >= 0:
                out.append({"g": "one", "n": n, "v": v, "pos": pos})
        for pos in {1, 2 % n, n // 2, n - 1}:
            out.append({"g": "step", "n": n, "v": v, "pos": pos})
    for pat in ("01", "10", "0011", "001", "011", "00000001", "111111110", "0" * 31 + "1", "0" * 64 + "1" * 64):
        out.append({"g": "periodic", "n": n, "pat": pat})
    for p in (0.01, 0.2, 0.5, 0.8, 0.99):
        out.append({"g": "random", "n": n, "seed": n, "p": p})
    out.append({"g": "thue", "n": n})
    out.append({"g": "balanced", "n": n, "seed": n})
    out.append({"g": "excursion", "n": n, "seed": n, "pull": 0.5})
    return out


def plan(rng, tier):
    quick = tier == "quick"
    cases = []
    for test in oracle.TESTS:
        # the slow ones
        heavy = test in ("linear_complexity", "non_overlapping_template_matching")
        for n in [100000, 400000, 1000000] if not quick else [100000]:
            if quick and heavy:
                n = 20000
            for spec in rng.sample(extremes(n), 2 if quick else 12):
                cases.append({"k": "some", "test": test, "specs": [spec], "params": [{}]})
    for test in oracle.TESTS:  # work which grows faster than the sequence shows in these
        n = (100000 if quick else 300000) if test == "cusum" else 1000000
        pats = ["01", rng.choice(["0011", "011", "0001", "01001"])]
        specs = [{"g": "periodic", "n": n, "pat": pat} for pat in pats]
        if test not in ("linear_complexity", "cusum"):
            specs += [{"g": "step", "n": n, "v": 0, "pos": n // 2}, {"g": "random", "n": n, "seed": rng.randrange(1 << 30), "p": rng.choice([0.5, 0.02])}]
        cases = [{"k": "some", "test": test, "specs": [spec], "params": [{}]} for spec in specs] + cases
    for test in oracle.TESTS:
        for n in [1000, 1023, 1024, 2047, 4096, 5001, 6271, 6272, 9999]:
            cases.append(
                {"k": "some", "test": test, "specs": rng.sample(extremes(n), 3 if quick else 20),
                 "params": [{}, calls.rand_kwargs(rng, test, n, True)]}
            )
        if test in ("serial", "approximate_entropy"):
            sizes = [62, 63, 64, 65, 66, 100, 128, 257, 500, 999, 1000]
            for size in rng.sample(sizes, 5) if quick else sizes:
                n = rng.choice([size, size + 1, 1000, 2500])
                cases.append({"k": "some", "test": test, "specs": rng.sample(extremes(n), 2), "params": [{"blocksize": min(n, size)}]})
        for _ in range(6 if quick else 60):
            n = calls.some_size(rng, test, 250)
            cases.append({"k": "some", "test": test, "specs": rng.sample(extremes(n), 1), "params": [{}]})
        step = rng.randrange(3)
        for n in range(2, 260 if quick else 600):
            if n < least(test) or (quick and n > 24 and n % 3 != step):
                continue
            params = [{}] + [calls.rand_kwargs(rng, test, n, True) for _ in range(1 if quick else 4)]
            specs = extremes(n)
            if quick:
                specs = rng.sample(specs, 5)
            cases.append({"k": "some", "test": test, "specs": specs, "params": params})
        if least(test) < 20:
            for n in range(least(test), (10 if quick else 12) + 1):
                for start in range(0, 1 << n, 512):
                    cases.append({"k": "all", "test": test, "n": n, "from": start, "to": min(start + 512, 1 << n)})
    return cases


def judge(test, spec, kwargs, obs):
    bits = B.make(spec)
    if len(bits) < least(test) or (bits == bits[0]).all():
        return
    kw = calls.fix_kwargs(kwargs)
    if not oracle.in_domain(test, len(bits), kw):
        obs.count("skipped: parameters leave nothing to test")
        return
    out = call(test, bits.tolist(), kw)
    bad = None
    if out.exc is not None:
        truncated = len(bits) % 2 and (bits[:-1] == bits[0]).all()
        if test == "spectral" and truncated:
            if type(out.exc).__name__ != "NonBinaryTruncatedSequenceError":
                bad = repr(out)
        else:
            bad = repr(out)
    else:
        ps = pvalues(out.value)
        stats = list(out.value.statistics) if hasattr(out.value, "statistics") else [out.value.statistic]
        if not ps or not all(0 <= p <= 1 for p in ps):
            bad = f"p-values outside of 0 to 1: {[p for p in ps if not 0 <= p <= 1][:4] or 'none at all'}"
        elif not all(math.isfinite(float(s)) for s in stats):
            bad = f"statistics which are not finite: {stats[:6]}"
        obs.count("p-values judged", len(ps))
    if bad:
        obs.fail(
            f"{test}({B.text(bits)}, {kw}) n={len(bits)}: {bad}",
            replay={"k": "some", "test": test, "specs": [spec], "params": [kwargs]},
        )
    obs.count(f"{test}: judged")
    obs.seen((test, str(spec), str(kwargs)), sample={"test": test, "spec": spec, "kwargs": kwargs, "outcome": repr(out)[:120]})


def run(case, obs):
    test = case["test"]
    if case["k"] == "all":
        for v in range(case["from"], case["to"]):
            judge(test, {"g": "int", "n": case["n"], "v": v}, {}, obs)
            obs.count("exhaustive short sequences")
    else:
        for spec in case["specs"]:
            for kwargs in case["params"]:
                judge(test, spec, kwargs, obs)


def goals(counters, tier):
    want = {f"{t}: judged": 300 for t in oracle.TESTS}
    want["exhaustive short sequences"] = 20000
    want["p-values judged"] = 100000
    return need_all(counters, want)
