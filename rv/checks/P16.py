"""The reference implementation gives what the tests give"""
import numpy as np

from rv import bits as B
from rv import calls, oracle
from rv.calls import need_all
from rv.monitor import ATOL, call, close, close_p, observe, p_fits, scale_of

from coinflip import randtests_refimpl as ref

PID = "P16"
LEVEL = "exploration"
RULE = (
    "All 15 tests of the reference implementation, with the parameters which the main tests choose by default and with "
    "explicit ones, on all binary sequences of up to 8 (thorough 11) bits and on seeded ones: statistics and p-values are "
    "compared to the main implementation's outcome and to the model of the NIST paper; non-trivial when both give a result, "
    "distinct by test, sequence and parameters."
)
ASSUMPTIONS = [
    "the reference implementation takes a list of zeroes and ones and needs every parameter",
    "its overlapping template matching is for 5 degrees of freedom with the probabilities of the NIST paper's example",
]
OVERLAP_PROBS = [0.367879, 0.183939, 0.137954, 0.099634, 0.069935, 0.140656]
PARAMS = {
    "frequency_within_block": ["blocksize"],
    "binary_matrix_rank": ["matrix_dimen"],
    "non_overlapping_template_matching": ["template_size", "blocksize"],
    "overlapping_template_matching": ["template_size", "blocksize"],
    "maurers_universal": ["blocksize", "init_nblocks"],
    "linear_complexity": ["blocksize"],
    "serial": ["blocksize"],
    "approximate_entropy": ["blocksize"],
}


def plan(rng, tier):
    quick = tier == "quick"
    todo = []
    for test in oracle.TESTS:
        for _ in range(60 if quick else 600):
            if test == "longest_runs":
                n = B.rand_n(rng, 128, 9000)
            else:
                n = B.rand_n(rng, oracle.MIN_N[test], 700)
            kwargs = calls.rand_kwargs(rng, test, n)
            kwargs.pop("matches_ceil", None)
            todo.append((test, B.rand_spec(rng, n), kwargs))
        for _ in range(4 if quick else 20):
            n = B.rand_n(rng, 3000, 20000)
            todo.append((test, B.rand_spec(rng, n), {}))
        for _ in range(6 if quick else 60):
            n = calls.some_size(rng, test, 127, 70000)
            todo.append((test, B.rand_spec(rng, n), {}))
        for test_, spec, kwargs in rng.sample(calls.ladder(rng, test, True), 40 if quick else 300):
            if spec["n"] < 3000:
                todo.append((test_, spec, {k: v for k, v in kwargs.items() if k != "matches_ceil"}))
    # every tabulated or otherwise distinguished parameter
    for size in range(1, 17):
        for _ in range(4 if quick else 30):
            n = B.rand_n(rng, 4 * size, 3000)
            nblocks = n // size
            for kw in ({"blocksize": size}, {"blocksize": size, "init_nblocks": rng.randrange(1, nblocks)}):
                todo.append(("maurers_universal", B.rand_spec(rng, n), kw))
            todo.append(("linear_complexity", B.rand_spec(rng, B.rand_n(rng, 2 * size, 600)), {"blocksize": rng.choice([size, 4 * size, 4 * size + 1])}))
            if size <= 12:
                n = B.rand_n(rng, 3 * size, 800)
                for test in ("serial", "approximate_entropy"):
                    todo.append((test, B.rand_spec(rng, n), {"blocksize": size}))
            if size <= 9:
                n = B.rand_n(rng, 12 * size, 1500)
                todo.append(("non_overlapping_template_matching", B.rand_spec(rng, n), {"template_size": size, "blocksize": rng.choice([n, n // 2, n // 8])}))
    for n in (128, 129, 6271, 6272, 6273, 6400):
        for m in (8, 128):
            for v in (0, 1):
                todo.append(("longest_runs", {"g": "maxrun", "m": m, "n": n, "seed": rng.randrange(1 << 30), "v": v}, {}))
    for n in (1032, 5000, 20640) if quick else (1032, 3000, 10000, 50000, 206400, 1000000):
        for g in range(3):
            todo.append(("overlapping_template_matching",
                         {"g": "markov", "n": n, "seed": n + g, "flip": [0.5, 0.1, 0.3][g]}, {"template_size": 9, "blocksize": 1032}))
    if not quick:
        for test in oracle.TESTS:
            todo.append((test, {"g": "random", "n": 100000, "seed": 1}, {}))
        todo.append(("longest_runs", {"g": "random", "n": 760000, "seed": 2}, {}))
    todo.append(("longest_runs", {"g": "markov", "n": 750000, "seed": 2, "flip": 0.4}, {}))
    return calls.call_cases(todo, 12) + calls.exhaustive_cases(
        [t for t in oracle.TESTS if t != "longest_runs"], 8 if quick else 11, chunk=128
    )


def judge(test, spec, kwargs, obs):
    bits = B.make(spec)
    kwargs = calls.fix_kwargs(kwargs)
    n = len(bits)
    if not oracle.in_domain(test, n, kwargs):
        return
    exp = oracle.expect(test, bits, kwargs)
    if isinstance(exp, oracle.Refusal):
        obs.count("skipped: nothing to give")
        return
    given = {}
    for name in PARAMS.get(test, []):
        if name == "matrix_dimen":
            given[name] = (exp["fields"]["nrows"], exp["fields"]["ncols"])
        else:
            given[name] = exp["fields"][name]
    if kwargs.get("reverse"):
        given["reverse"] = True
    sequence = bits.tolist()
    kept = list(sequence)
    out = observe(getattr(ref, test), sequence, **given)
    bad = None
    if out.exc is not None:
        bad = f"{out!r}"
    elif sequence != kept:
        bad = "its sequence was modified"
    else:
        stats, ps = out.value
        bad = compare(test, n, exp, stats, ps)
        if bad is None:
            main = call(test, sequence, kwargs)
            bad = versus(test, exp, main, stats, ps)
    obs.count(f"{test}: outcomes compared")
    obs.seen((test, str(spec), str(given)), sample={"test": test, "spec": spec, "kwargs": given, "outcome": str(out.value)[:120]})
    if bad:
        obs.fail(
            f"reference implementation of {test}({B.text(bits)}, {given}) n={n}: {bad}"[:500],
            replay={"k": "call", "test": test, "spec": spec, "kwargs": kwargs},
        )


def compare(test, n, exp, stats, ps):
    """To the model"""
    if test == "overlapping_template_matching":
        f = exp["fields"]
        nblocks = f["nblocks"]
        stat, p = oracle.chi2_test(f["tallies"], [q * nblocks for q in OVERLAP_PROBS])
        if not (close(stats, stat) and close_p(ps, p)):
            return f"got {stats, ps}, expected {stat, p}"
        return None
    if "subs" in exp:
        subs = list(exp["subs"])
        if test == "non_overlapping_template_matching":
            subs = subs[::-1]  # templates in ascending order
        stats, ps = list(stats), list(ps)
        if len(stats) != len(subs) or len(ps) != len(subs):
            return f"got {len(stats)} statistics and {len(ps)} p-values, expected {len(subs)}"
        scale = scale_of(test, exp)
        for i, ((f, stat, p), s, q) in enumerate(zip(subs, stats, ps)):
            ok = close(s, stat, ATOL + scale)
            ok = ok and (p_fits(q, exp["shapes"][i], stat, scale) if scale else close_p(q, p))
            if not ok:
                return f"sub-test {f}: got {float(s), float(q)}, expected {stat, p}"
        return None
    if "outcome" in exp:
        low, high = exp["nbelow_range"]
        fits = [exp["outcome"](k) for k in range(low, high + 1)]
        if not any(close(stats, s) and close_p(ps, p) for s, p in fits):
            return f"got {stats, ps}, expected {fits[:2]}"
        return None
    relative = test not in ("cusum", "approximate_entropy")
    scale = scale_of(test, exp)
    ok = close_p(ps, exp["p"], relative) or scale and p_fits(ps, exp["shape"], exp["statistic"], scale)
    if not (close(stats, exp["statistic"], ATOL + scale) and ok):
        return f"got {stats, ps}, expected {exp['statistic'], exp['p']}"
    return None


def versus(test, exp, main, stats, ps):
    """To the main implementation"""
    if main.exc is not None:
        return f"the main implementation {main!r}"
    r = main.value
    if test == "overlapping_template_matching":
        if (r.template_size, r.blocksize, r.matches_ceil) != (9, 1032, 5):
            return None
        # the same, but for the rounding of the probabilities
        if not np.isclose(float(r.statistic), float(stats), rtol=1e-3, atol=1e-3):
            return f"statistic {stats}, the main implementation gives {r.statistic}"
        return None
    if "subs" in exp:
        mine = list(zip(r.statistics, r.pvalues))
        if test == "non_overlapping_template_matching":
            mine = mine[::-1]
        theirs = list(zip(stats, ps))
    else:
        mine, theirs = [(r.statistic, r.p)], [(stats, ps)]
    scale = scale_of(test, exp)
    for i, ((s, p), (t, q)) in enumerate(zip(mine, theirs)):
        ok = close(s, t, ATOL + scale)
        shape = exp["shapes"][i] if "shapes" in exp else exp.get("shape")
        if not (ok and (p_fits(q, shape, s, 2 * scale) if scale else close(p, q))):
            return f"got {float(t), float(q)}, the main implementation gives {float(s), float(p)}"
    if len(mine) != len(theirs):
        return f"{len(theirs)} outcomes, the main implementation gives {len(mine)}"
    return None


def run(case, obs):
    if case["k"] == "exh":
        for v in range(case["from"], case["to"]):
            judge(case["test"], {"g": "int", "n": case["n"], "v": v}, {}, obs)
            obs.count("exhaustive short sequences")
            if len(obs.violations) >= 2:
                return
    elif case["k"] == "batch":
        for test, spec, kwargs in case["calls"]:
            judge(test, spec, kwargs, obs)
    else:
        judge(case["test"], case["spec"], case["kwargs"], obs)


def goals(counters, tier):
    want = {f"{t}: outcomes compared": 55 for t in oracle.TESTS}
    want["exhaustive short sequences"] = 5000
    return need_all(counters, want)
