"""Monitors of single test calls: the real outcome against the reference model"""
import math
import traceback
import warnings
from math import erfc, sqrt

import numpy as np

from rv import oracle
from rv.oracle import Refusal

from coinflip import randtests

ATOL, RTOL = 1e-9, 1e-7


def close(x, y, atol=ATOL, rtol=RTOL):
    try:
        x, y = float(x), float(y)
    except (TypeError, ValueError):
        return False
    if math.isnan(x) or math.isnan(y):
        return False
    if x == y:
        return True
    return abs(x - y) <= atol + rtol * max(abs(x), abs(y))


def close_p(x, y, relative=True):
    """Close p-values, in relative terms too where those are well-conditioned"""
    if not close(x, y):
        return False
    x, y = float(x), float(y)
    if relative and y > 1e-200 and x != y:
        return x > 0 and abs(math.log(x) - math.log(y)) < 1e-5
    return True


def scale_of(name, exp):
    """Rounding error of a statistic, where that is a difference of large terms"""
    if name == "approximate_entropy":
        # of sums of as many terms as there are patterns, added up one after the other
        f = exp["fields"]
        return 2 * exp["n"] * 2.3e-16 * sum((len(f["permutation_counts"][k]) + 8) * abs(phi) for k, phi in f["phis"].items())
    if name != "serial":
        return 0.0
    size = max(abs(x) for x in exp["fields"]["normalised_sums"].values())
    return 1e-13 * (size + exp["n"])


def p_fits(p, shape, stat, scale):
    """If the p-value is that of a statistic which may differ by rounding"""
    high = oracle.igamc(shape, max(stat - scale, 0.0) / 2) + ATOL
    low = oracle.igamc(shape, (stat + scale) / 2) - ATOL
    return low <= float(p) <= high


def same_list(xs, ys, eq=None):
    xs, ys = list(xs), list(ys)
    if len(xs) != len(ys):
        return False
    eq = eq or (lambda x, y: x == y)
    return all(eq(x, y) for x, y in zip(xs, ys))


class Outcome:
    """What a call did: returned a value or raised, and which warnings it gave"""

    __slots__ = ("value", "exc", "warnings")

    def __init__(self, value=None, exc=None, warnings=()):
        self.value = value
        self.exc = exc
        self.warnings = list(warnings)

    def __repr__(self):
        if self.exc is not None:
            return f"raised {type(self.exc).__name__}: {self.exc}"[:300]
        v = self.value
        p = getattr(v, "p", None)
        if p is None:
            p = getattr(v, "pvalues", None)
        return f"{type(v).__name__}(statistic={getattr(v, 'statistic', None)}, p={p})"[:300]


def observe(func, *args, **kwargs):
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        try:
            value = func(*args, **kwargs)
            return Outcome(value, None, caught)
        except Exception as e:  # the monitors judge whether it is due
            if isinstance(e, (MemoryError, RecursionError)):
                traceback.clear_frames(e.__traceback__)  # the monitors need the memory
            return Outcome(None, e, caught)


# in the order of the public signatures
PARAMETERS = {
    "frequency_within_block": ["blocksize"],
    "binary_matrix_rank": ["matrix_dimen"],
    "non_overlapping_template_matching": ["template_size", "blocksize"],
    "overlapping_template_matching": ["template_size", "blocksize", "matches_ceil"],
    "maurers_universal": ["blocksize", "init_nblocks"],
    "linear_complexity": ["blocksize"],
    "serial": ["blocksize"],
    "approximate_entropy": ["blocksize"],
    "cusum": ["reverse"],
}


def call(name, sequence, kwargs):
    """Calls a test in one of the ways there are, chosen by the length of the sequence"""
    func = getattr(randtests, name)
    style = len(sequence) % 3 if hasattr(sequence, "__len__") else 0
    if style == 1:
        return observe(func, sequence=sequence, **kwargs)
    if style == 2 and kwargs:
        names = PARAMETERS[name]
        args = [kwargs.get(x, False if x == "reverse" else None) for x in names]
        while names[len(args) - 1] not in kwargs:
            args.pop()
        return observe(func, sequence, *args)
    return observe(func, sequence, **kwargs)


def is_refusal(exc, names):
    """Whether an exception is of (a subclass of) one of the named classes"""
    return any(c.__name__ in names for c in type(exc).__mro__)


class Judge:
    """Compares one outcome to the model, collecting every deviation"""

    def __init__(self, name, kwargs, heads=1, tails=0):
        self.name = name
        self.kwargs = kwargs
        self.heads = heads
        self.tails = tails
        self.bad = []

    def face(self, bit):
        return self.heads if bit else self.tails

    def need(self, what, ok, got=None, expected=None):
        if not ok:
            if isinstance(got, np.ndarray) or isinstance(expected, np.ndarray):
                got, expected = str(got)[:200], str(expected)[:200]
            self.bad.append(f"{what}: got {got!r:.300}, expected {expected!r:.300}")

    def judge(self, out, exp):
        if isinstance(exp, Refusal):
            self.need(
                "refusal",
                out.exc is not None and is_refusal(out.exc, exp.names),
                repr(out),
                exp,
            )
            return self.bad
        if out.exc is not None:
            self.need("a result", False, repr(out), "a result")
            return self.bad
        r = out.value
        if "subs" in exp:
            self.subs(r, exp)
        elif "outcome" in exp:
            self.spectral(r, exp)
        else:
            scale = scale_of(self.name, exp)
            self.need("statistic", close(r.statistic, exp["statistic"], ATOL + scale), r.statistic, exp["statistic"])
            relative = self.name not in ("cusum", "approximate_entropy")
            ok = close_p(r.p, exp["p"], relative) or scale and p_fits(r.p, exp["shape"], exp["statistic"], scale)
            self.need("p-value", ok, r.p, exp["p"])
        self.fields(r, exp)
        self.need("heads", r.heads == self.heads, r.heads, self.heads)
        self.need("tails", r.tails == self.tails, r.tails, self.tails)
        return self.bad

    def recommendations(self, out, exp):
        """Unmet recommendations are listed in the result, and warned about"""
        unmet = [text for text, met in exp["recs"] if not met]
        got = list(out.value.failures)
        self.need("unmet recommendations", got == unmet, got, unmet)
        texts = [str(w.message) for w in out.warnings if w.category is UserWarning]
        if unmet:
            self.need("one UserWarning", len(texts) == 1, texts, unmet)
            if texts:
                missing = [u for u in unmet if u not in texts[0]]
                self.need("warning names them all", not missing, texts[0], unmet)
                extra = [t for t, met in exp["recs"] if met and t in texts[0]]
                self.need("warning names only them", not extra, texts[0], unmet)
        else:
            self.need("no UserWarning", not texts, texts, [])
        return self.bad

    def spectral(self, r, exp):
        low, high = exp["nbelow_range"]
        self.need("peaks below threshold", low <= r.nbelow <= high, r.nbelow, (low, high))
        stat, p = exp["outcome"](int(r.nbelow))
        self.need("statistic", close(r.statistic, stat), r.statistic, stat)
        self.need("p-value", close_p(r.p, p), r.p, p)
        self.need(
            "diff",
            close(r.diff, int(r.nbelow) - exp["fields"]["nbelow_expect"]),
            r.diff,
            int(r.nbelow) - exp["fields"]["nbelow_expect"],
        )

    def subs(self, r, exp):
        relative = self.name != "serial"
        scale = scale_of(self.name, exp)
        features = [self.feature(f) for f, _, _ in exp["subs"]]
        got = list(r.results.keys())
        self.need("sub-tests", got == features, got[:8], features[:8])
        if got != features:
            return
        for i, ((f, stat, p), (key, sub)) in enumerate(zip(exp["subs"], r.results.items())):
            ok = close(sub.statistic, stat, ATOL + scale) and close_p(sub.p, p, relative)
            if not ok and scale > 0:
                # the p-value has to fit the statistic, which may differ by rounding
                ok = close(sub.statistic, stat, ATOL + scale) and p_fits(
                    sub.p, exp["shapes"][i], stat, scale
                )
            if not ok:
                self.need(
                    f"sub-test {key!r}", False, (float(sub.statistic), float(sub.p)), (stat, p)
                )
                return
        if self.name == "non_overlapping_template_matching":
            for (f, _, _), want, sub in zip(exp["subs"], exp["matches"], r.results.values()):
                have = [int(x) for x in sub.block_matches]
                if have != want or tuple(sub.template) != self.feature(f):
                    self.need(f"matches of {f}", False, have, want)
                    return
                diffs = [w - exp["fields"]["matches_expect"] for w in want]
                if not same_list(sub.match_diffs, diffs, close):
                    self.need(f"match diffs of {f}", False, sub.match_diffs, diffs)
                    return
        elif self.name.startswith("random_excursions"):
            for key, sub in r.results.items():
                self.need("state of sub-test", sub.state == key, sub.state, key)

    def feature(self, f):
        if self.name == "non_overlapping_template_matching":
            return tuple(self.face(b) for b in f)
        return f

    def perm(self, counts):
        return {tuple(self.face(b) for b in k): v for k, v in counts.items()}

    def fields(self, r, exp):
        for field, want in exp["fields"].items():
            if field == "counts":
                h, t = want
                c = r.counts
                got = (c.heads.value, c.heads.count, c.tails.value, c.tails.count)
                self.need("counts", got == (self.heads, h, self.tails, t), got, want)
                got = (c.max.count, c.min.count)
                self.need("max and min count", got == (max(want), min(want)), got, want)
            elif field == "counts_list":
                got = [int(c) for c in r.counts]
                self.need("counts", got == want, got, want)
            elif field == "peaks":
                ok = len(r.peaks) == len(want) and np.allclose(
                    np.asarray(r.peaks, dtype=float), want, rtol=1e-6, atol=1e-6
                )
                self.need("peaks", ok, list(r.peaks)[:5], want[:5])
            elif field == "walk":
                got = np.asarray(list(r.walk), dtype=np.int64)
                self.need("walk", np.array_equal(got, want), got, want)
            elif field in ("rankcounts", "expected_rankcounts"):
                c = getattr(r, field)
                got = [c.remaining, c.runnerup, c.full]
                self.need(field, same_list(got, want, close), got, want)
            elif field in ("maxlen_bins", "variance_bins"):
                got = {int(k): int(v) for k, v in getattr(r, field).items()}
                self.need(field, got == want and list(got) == list(want), got, want)
            elif field == "permutation_counts":
                got = {
                    k: {t: int(c) for t, c in v.items() if c}
                    for k, v in r.permutation_counts.items()
                }
                want = {k: self.perm(v) for k, v in want.items()}
                self.need(field, got == want, got, want)
            elif field in ("normalised_sums", "phis"):
                got = getattr(r, field)
                scale = 1e-12 * max(abs(x) for x in want.values())
                ok = set(got) == set(want) and all(
                    close(got[k], want[k], ATOL + scale) for k in want
                )
                self.need(field, ok, dict(got), want)
            elif field == "last_init":
                got = {k: int(v) for k, v in r.permutation_last_init_pos.items() if v}
                want = self.perm(want)
                self.need("last initial positions", got == want, len(got), len(want))
            elif field == "positions":
                got = {k: [int(x) for x in v] for k, v in r.permutation_positions.items() if v}
                want = self.perm(want)
                self.need("positions", got == want, len(got), len(want))
            elif field == "template":
                got = tuple(r.template)
                want = tuple(self.face(b) for b in want)
                self.need("template", got == want, got, want)
            elif isinstance(want, (list, tuple)):
                got = list(getattr(r, field))
                self.need(field, same_list(got, want, close), got, want)
            elif isinstance(want, bool):
                got = getattr(r, field)
                self.need(field, bool(got) == want, got, want)
            else:
                got = getattr(r, field)
                self.need(field, close(got, want), got, want)


def check_call(name, bits, kwargs, obs, spec=None, sequence=None, recs=False, heads=1, tails=0):
    """Drives one call and judges its outcome. ``spec`` describes the bits for a replay"""
    exp = oracle.expect(name, bits, kwargs)
    seq = bits.tolist() if sequence is None else sequence
    out = call(name, seq, kwargs)
    j = Judge(name, kwargs, heads, tails)
    j.judge(out, exp)
    if recs and out.exc is None and not isinstance(exp, Refusal):
        j.recommendations(out, exp)
    if j.bad:
        spec = spec or {"g": "list", "bits": "".join(map(str, bits.tolist()))}
        shown = "".join(map(str, bits[:64].tolist()))
        obs.fail(
            f"{name}({shown}{'...' if len(bits) > 64 else ''}, {kwargs}) n={len(bits)}: {j.bad[0]}",
            replay={"k": "call", "test": name, "spec": spec, "kwargs": kwargs},
            deviations=j.bad[:6],
        )
    return out, exp


def pvalues(result):
    """All p-values of a result"""
    if hasattr(result, "pvalues"):
        return [float(p) for p in result.pvalues]
    return [float(result.p)]
