"""Results survive storage, and their plots show what they state"""
import copy
import dataclasses
import pickle
import re
from collections import Counter
from collections.abc import Mapping

import numpy as np
import pandas as pd
from scipy import stats

from rv import bits as B
from rv import cli, oracle, reps
from rv.calls import fix_kwargs, need_all, rand_kwargs, some_size
from rv.fingerprint import difference, fp
from rv.monitor import close, observe

PID = "P25"
LEVEL = "exploration"
RULE = (
    "Results of all tests, of seeded sequences, parameters and kinds of values: copied by pickle (every protocol), deepcopy and "
    "generations of results files, and compared by exact fingerprint, by ==, and as printed, and with results of similar sequences; accessors recomputed from the sub-results; "
    "all plots made, and their data compared with the fields, as is the reference distribution with the p-value; a result has to be "
    "the same after all of this. Distinct by test, sequence and parameters."
)
ASSUMPTIONS = [
    "plots of at most 5000 data points, the limit of the plotting library",
    "plots of values which JSON cannot represent are not considered",
    "results of pandas timestamps in the hour repeated when clocks go back, whose copies pandas gives another hash, are compared by content only",
]
# kinds of values which a plot can contain
PLAIN = ["01", "-5 7", "12", "neg", "floats", "a b", "digits", "digits 9 10", "same initial", "case", "markup", "unicode", "bools", "int8", "float32"]
REFDIST = ["monobit", "frequency_within_block", "runs", "longest_runs", "binary_matrix_rank", "spectral", "overlapping_template_matching",
           "maurers_universal", "linear_complexity", "approximate_entropy"]
PLOTS = {
    "monobit": "plot_counts",
    "frequency_within_block": "plot_count_nblocks",
    "longest_runs": "plot_maxlen_bins",
    "binary_matrix_rank": "plot_rank_counts",
    "spectral": "plot_fourier",
    "overlapping_template_matching": "plot_template_matches",
    "linear_complexity": "plot_variance",
    "approximate_entropy": "plot_permutation_counts",
    "cusum": "plot_random_walk",
    "random_excursions": "plot_random_walk",
    "random_excursions_variant": "plot_random_walk",
}


def plan(rng, tier):
    quick = tier == "quick"
    cases = []
    for test in cli.TITLES:
        shows = []
        for i in range(28 if quick else 400):
            n = rng.choice([30, 100, 128, 150, 201, 400, 700, 1001])
            if i % 14 == 0:
                n = rng.choice([2000, 4000])
            if i % 7 == 3:
                n = some_size(rng, test, 1000, 70000)
            if test == "longest_runs" and i % 14 == 0:
                n = rng.choice([6272, 7000])
            kwargs = rand_kwargs(rng, test, n)
            if kwargs.get("template_size", 0) > 4 and i % 10:
                kwargs["template_size"] = 4
            face = rng.choice(list(reps.FACES)) if i % 3 == 0 else rng.choice(PLAIN) if i % 3 == 1 else "01"
            shows.append([B.rand_spec(rng, n), kwargs, face])
        for part in range(4):
            cases.append({"k": "results", "test": test, "shows": shows[part::4]})
    for test in cli.TITLES:  # counts, runs and walks beyond 15 and 16 bits: stored only
        for i in range(3 if quick else 12):
            n = rng.choice([33000, 66000, 70000, 140000])
            spec = rng.choice([{"g": "one", "n": n, "v": rng.randrange(2), "pos": rng.choice([0, 1, n - 1])}, {"g": "step", "n": n, "v": rng.randrange(2), "pos": rng.choice([n // 2, 33000, n - 1])}])
            if test == "linear_complexity":
                spec = {"g": "periodic", "n": n, "pat": "011"}
            cases.append({"k": "stored", "test": test, "spec": spec})
    for i in range(8 if quick else 100):
        cases.append({"k": "files", "spec": B.rand_spec(rng, rng.choice([30, 150, 500])), "face": rng.choice(list(reps.FACES)),
                      "container": rng.choice(["series", "series objects", "series string index", "series named", "categorical"])})
    return cases


def run(case, obs):
    cli.warm()
    if case["k"] == "files":
        files(case, obs)
        return
    if case["k"] == "stored":
        stored(case, obs)
        return
    for show in case["shows"]:
        one({"k": "results", "test": case["test"], "shows": [show]}, case["test"], show, obs)
        if obs.failed:
            return


def datasets(chart):
    """Rows of the data of a chart, in order of their use"""
    d = chart.to_dict()
    sets = d.get("datasets", {})
    found = []

    def visit(x):
        if isinstance(x, dict):
            data = x.get("data")
            if isinstance(data, dict) and x is not sets:
                name = data.get("name")
                rows = data.get("values") if "values" in data else sets.get(name)
                if rows is not None and not any(rows is y for y in found):
                    found.append(rows)
            for k, v in x.items():
                if k not in ("datasets", "data"):
                    visit(v)
        elif isinstance(x, list):
            for v in x:
                visit(v)

    visit(d)
    return found, d


def text_of(d):
    """All titles of a chart"""
    out = []

    def visit(x):
        if isinstance(x, dict):
            for k, v in x.items():
                if k == "title" and isinstance(v, str):
                    out.append(v)
                elif k != "datasets":
                    visit(v)
        elif isinstance(x, list):
            for v in x:
                visit(v)

    visit(d)
    return out


def refdist(r):
    chart = r.plot_refdist()
    sets, d = datasets(chart)
    if len(sets) == 1:
        sets = sets * 2  # of a statistic of zero
    if len(sets) != 2:
        return f"{len(sets)} sets of data"
    told = " | ".join(text_of(d))
    m = re.search(r"Chi-square distribution with (\S+) degrees of freedom", told)
    if m:
        dist = stats.chi2(float(m.group(1)))
    elif "Half normal distribution" in told:
        dist = stats.halfnorm()
    else:
        return f"no distribution is named: {told!r}"
    xs = [[row["x"] for row in rows] for rows in sets]
    for rows in sets:
        for row in rows:
            x, y = row["x"], row["y"]
            want = dist.pdf(x)
            if y is None or not np.isfinite(want):
                if np.isfinite(want):
                    return f"no density at {x}, it is {want}"
                continue
            if not close(y, want):
                return f"the density at {x} is {y}, it should be {want}"
    start = [min(x) for x in xs]
    tail = xs[0] if start[0] > start[1] else xs[1]
    if min(start) != 0:
        return f"the distribution starts at {min(start)}"
    if max(xs[0]) != max(xs[1]):
        return f"ends at {max(xs[0])} and {max(xs[1])}"
    p = dist.sf(min(tail))
    if not close(p, r.p, 1e-9, 1e-6):
        return f"the tail from {min(tail)} of the {m.group(0) if m else 'half normal distribution'} is {p}, the p-value is {r.p}"
    return None


def melted(rows, classes, expect, actual, name):
    got = sorted((str(row[name]), row["type"], float(row["nblocks"])) for row in rows)
    want = sorted([(str(c), "expected", float(e)) for c, e in zip(classes, expect)]
                  + [(str(c), "observed", float(a)) for c, a in zip(classes, actual)])
    if len(got) != len(want) or any(g[:2] != w[:2] or not close(g[2], w[2]) for g, w in zip(got, want)):
        return f"shows {got}, expected {want}"
    return None


def plus(xs):
    xs = [str(x) for x in xs]
    return xs[:-1] + [xs[-1] + "+"]


def first_column(rows):
    return next(k for k in rows[0] if k not in ("type", "nblocks"))


def plot(test, r):
    """What is wrong with the data of a plot of a result"""
    sets, d = datasets(getattr(r, PLOTS[test])())
    rows = sets[0]
    if test == "monobit":
        got = {str(row["Value"]): row["Count"] for row in rows}
        want = {str(f.value): f.count for f in r.counts}
        if test == "monobit" and got != want:
            return f"shows {got}, expected {want}"
    elif test == "frequency_within_block":
        got = {row["count"]: row["nblocks"] for row in rows}
        want = dict(Counter(int(c) for c in r.counts))
        if got != want or len(rows) != len(want):
            return f"shows {got}, expected {want}"
    elif test == "longest_runs":
        c = plus(r.maxlen_bins)
        return melted(rows, ["0-" + c[0]] + c[1:], r.expected_bincounts, r.maxlen_bins.values(), first_column(rows))
    elif test == "binary_matrix_rank":
        c = ["0" if r.fullrank == 2 else f"0-{r.fullrank - 2}", str(r.fullrank - 1), str(r.fullrank)]
        return melted(rows, c, dataclasses.astuple(r.expected_rankcounts), dataclasses.astuple(r.rankcounts), first_column(rows))
    elif test == "overlapping_template_matching":
        return melted(rows, plus(range(len(r.tallies))), r.expected_tallies, r.tallies, first_column(rows))
    elif test == "linear_complexity":
        return melted(rows, list(r.variance_bins), r.expected_bincounts, r.variance_bins.values(), first_column(rows))
    elif test == "spectral":
        by = {len(s): s for s in sets}
        peaks = [float(x) for x in r.peaks]
        line = by.get(1)
        curve = by.get(len(peaks)) if len(peaks) > 1 else sets[0]
        if curve is None or [row["x"] for row in curve] != list(range(len(peaks))):
            return f"{[len(s) for s in sets]} data points, {len(peaks)} peaks"
        if not all(close(row["y"], y) for row, y in zip(curve, peaks)):
            return "shows other peaks"
        if len(peaks) > 1 and (not line or not close(line[0]["y"], r.threshold)):
            return f"shows {line} as threshold {r.threshold}"
    elif test == "approximate_entropy":
        got = sorted((row["blocksize"], row["count"], row["ncounts"]) for row in rows)
        want = []
        for size in (r.blocksize, r.blocksize + 1):
            # a reading of the counts may have added zeroes
            counts = Counter(int(c) for c in r.permutation_counts[size].values())
            want += [(size, c, k) for c, k in counts.items()]
        if got != sorted(want):
            return f"shows {got}, expected {sorted(want)}"
    else:
        walk = [int(x) for x in r.walk]
        if [(row["x"], row["y"]) for row in rows] != list(enumerate(walk)):
            return f"shows another walk than {walk[:10]}.."
    return None


def accessors(test, r):
    if test == "monobit":
        c = r.counts
        want = max(c.heads.count, c.tails.count), min(c.heads.count, c.tails.count)
        if (c.max.count, c.min.count) != want or c.max not in (c.heads, c.tails) or c.min not in (c.heads, c.tails):
            return f"max {c.max} and min {c.min} of {c}"
        if {fp(c.max.value), fp(c.min.value)} != {fp(c.heads.value), fp(c.tails.value)}:
            return f"max {c.max} and min {c.min} are the same value"
    if not hasattr(r, "results"):
        return None
    subs = list(r.results.items())
    if [fp(x) for x in r.statistics] != [fp(s.statistic) for _, s in subs]:
        return f"statistics {r.statistics}"
    if [fp(x) for x in r.pvalues] != [fp(s.p) for _, s in subs]:
        return f"pvalues {r.pvalues}"
    key, sub = r.min
    low = min(float(s.p) for _, s in subs)
    if float(sub.p) != low or r.results.get(key) is not sub:
        return f"min is {key!r:.100} of p-value {sub.p}, the lowest is {low}"
    for key, sub in subs:
        if hasattr(sub, "state") and sub.state != key:
            return f"sub-test of state {key} states {sub.state}"
        if hasattr(sub, "template") and tuple(sub.template) != key:
            return f"sub-test of template {key!r:.60} states {sub.template!r:.60}"
    return None


def content(x):
    """Of a result: its fields by value, where mappings have no order and numbers no type"""
    if isinstance(x, (np.number, np.bool_)):
        x = x.item()
    if isinstance(x, (bool, int, float)):
        return ("number", x)
    if dataclasses.is_dataclass(x):
        return (type(x).__name__, tuple(content(getattr(x, f.name)) for f in dataclasses.fields(x)))
    if isinstance(x, Mapping):
        return ("mapping", frozenset((content(k), content(v)) for k, v in x.items()))
    if isinstance(x, (tuple, list)):
        return ("sequence", tuple(content(v) for v in x))
    return fp(x)


def equality(a, b, want):
    """How comparing two results deviates"""
    for x, y in ((a, b), (b, a)):
        same, other = observe(lambda: x == y), observe(lambda: x != y)
        if same.exc is not None or other.exc is not None:
            return f"comparing results: {same!r}, {other!r}"
        if not isinstance(same.value, bool) or same.value is other.value or same.value is not want:
            return f"comparing results gives {same.value!r} and {other.value!r}, expected {want}"
    return None


def stored(case, obs):
    """Results of long sequences, through pickle and copies"""
    from coinflip import randtests

    o = observe(getattr(randtests, case["test"]), pd.Series(B.make(case["spec"])))
    if o.exc is not None:
        obs.count("calls refused")
        return
    before = fp(o.value)
    for how in (copy.deepcopy, lambda r: pickle.loads(pickle.dumps(r)), lambda r: pickle.loads(pickle.dumps(r, 2))):
        c = observe(how, o.value)
        bad = repr(c) if c.exc is not None else difference(before, fp(c.value)) or equality(o.value, c.value, True)
        if bad:
            obs.fail(f"{case['test']} of {case['spec']}: copied: {bad}"[:600], replay=case)
            return
        obs.count("copies of results of long sequences")
    obs.seen((case["test"], str(case["spec"])))


def one(replay, test, show, obs):
    from coinflip import randtests

    spec, kwargs, face = show
    kwargs = fix_kwargs(kwargs)
    bits = B.make(spec)
    if not oracle.in_domain(test, len(bits), kwargs):
        return
    o = observe(getattr(randtests, test), pd.Series(reps.make(bits, face, "series")), **kwargs)
    if o.exc is not None:
        obs.count("calls refused")
        return
    r = o.value
    what = f"{test} of {spec} {kwargs} of {face}"
    before, printed = fp(r), str(r)

    def fail(bad):
        obs.fail(f"{what}: {bad}", replay=replay)

    copies = [("deepcopy", lambda: copy.deepcopy(r))]
    copies += [(f"pickle protocol {p}", lambda p=p: pickle.loads(pickle.dumps(r, p))) for p in range(2, pickle.HIGHEST_PROTOCOL + 1)]
    last = None
    for how, f in copies:
        c = observe(f)
        if c.exc is not None:
            return fail(f"{how}: {c!r}")
        bad = difference(before, fp(c.value))
        if bad:
            return fail(f"{how}: {bad}")
        text = observe(str, c.value)
        if text.value != printed:
            return fail(f"{how}: prints {text.value or text!r:.300}")
        bad = equality(r, c.value, True) if face != "clocks go back" else None
        if bad:
            return fail(f"{how}: {bad}")
        last = c.value
        obs.count("copies compared")
    bad = accessors(test, r) or accessors(test, last)
    if bad:
        return fail(bad)
    # results of other sequences: flipped in whole and in the last bit, the other way round, turned, sorted
    other = bits.copy()
    other[-1] ^= 1
    for x in (1 - bits, other, bits[::-1], np.roll(bits, 1), np.sort(bits)):
        o = observe(getattr(randtests, test), pd.Series(reps.make(x, face, "series")), **kwargs)
        if o.exc is None:
            bad = equality(r, o.value, content(o.value) == content(r))
            if bad:
                return fail(f"and of another sequence: {bad}")
            obs.count("results of different sequences compared")
    plain = face in PLAIN
    for x, whose in ((r, ""), (last, " of the copy")):
        if test in REFDIST:
            b = observe(refdist, x)
            if b.exc is not None or b.value:
                return fail(f"plot_refdist(){whose}: {b.value or b!r}")
            obs.count(f"{test}: reference distributions compared")
        if test in PLOTS and (plain or test != "monobit"):
            b = observe(plot, test, x)
            if len(bits) > 4990 and type(b.exc).__name__ == "MaxRowsError":
                obs.count("plots beyond the limit of the plotting library")
                continue
            if b.exc is not None or b.value:
                return fail(f"{PLOTS[test]}(){whose}: {b.value or b!r}")
            obs.count(f"{test}: plots compared")
    after = difference(before, fp(r))
    if after:
        return fail(f"changed by looking at it: {after}")
    if str(r) != printed:
        return fail("prints something else later on")
    obs.count(f"{test}: results")
    obs.seen((test, str(show)), sample={"test": test, "show": show})


def files(case, obs):
    """Generations of results files"""
    from coinflip import randtests
    from coinflip.cli.report import load_results, store_results

    bits = B.make(case["spec"])
    series = pd.Series(reps.make(bits, case["face"], case["container"]))
    results = {}
    for t in cli.TITLES:
        o = observe(getattr(randtests, t), series)
        if o.exc is None:
            results[t] = o.value
    want = fp(series), fp(results), {t: str(r) for t, r in results.items()}
    with cli.Scratch() as d:
        for generation in range(3):
            path = d / f"results{generation}"
            o = observe(store_results, series, results, path)
            loaded = observe(load_results, path)
            if o.exc is not None or loaded.exc is not None:
                obs.fail(f"{case}: generation {generation}: {o!r} {loaded!r}", replay=case)
                return
            series, results = loaded.value.series, loaded.value.results
            got = fp(series), fp(results), {t: str(r) for t, r in results.items()}
            if got != want:
                bad = difference(want[0], got[0], "series") or difference(want[1], got[1]) or "prints something else"
                obs.fail(f"{case}: generation {generation}: {bad}", replay=case)
                return
            obs.count("generations of results files")
    obs.seen(("files", str(case)))


def goals(counters, tier):
    want = {f"{t}: results": 15 for t in cli.TITLES}
    want.update({f"{t}: reference distributions compared": 20 for t in REFDIST})
    want.update({f"{t}: plots compared": 15 for t in PLOTS})
    want.update({"copies compared": 1000, "results of different sequences compared": 300, "generations of results files": 20, "copies of results of long sequences": 80})
    return need_all(counters, want)
