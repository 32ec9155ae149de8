"""The console shows the sequence and results faithfully"""
import contextlib
import dataclasses
import io
import re
import sys
import threading
from collections import Counter

import pandas as pd

from rv import bits as B
from rv import cli, oracle, reps
from rv.calls import fix_kwargs, need_all, rand_kwargs
from rv.monitor import observe

PID = "P24"
LEVEL = "exploration"
RULE = (
    "Sequences of 2 to 3000 values of 30 kinds printed at pseudo-terminals 30 to 200 columns wide, with lengths around every "
    "boundary of the layout, from which the values are read back; results of all tests, of default and seeded parameters and all "
    "kinds of values, printed at widths of 40 to 200, from which every field is read back, through `coinflip read` at a "
    "pseudo-terminal, and in several threads at once. Non-trivial when values or fields were compared; distinct by content and width."
)
ASSUMPTIONS = [
    "characters which take two columns or none are not considered",
    "contents of tables are compared where the table fits: 60 columns, and 100 for those with a table of sub-tests",
]

# kinds of values which print as ordinary characters
SHOWN = [f for f in reps.FACES if f != "unicode"]


def plan(rng, tier):
    quick = tier == "quick"
    cases = []
    widths = [30, 40, 41, 60, 79, 80, 81, 120, 200] if quick else list(range(24, 84)) + [90, 100, 119, 120, 121, 160, 200, 300]
    for width in widths:
        inner = min(width, 80) - 8
        lengths = {2, 3, 7}
        for k in (1, 2, 3, 4, 5, 6, 11, 12, 13, 14, 20, 31):
            lengths |= {inner * k - 1, inner * k, inner * k + 1}
        lengths = sorted(x for x in lengths if x >= 2)
        lengths += [inner * k + rng.choice([-1, 0, 1]) for k in (99, 100, 101, 127, 128, 255, 256, 257, 500, 999, 1000, 1001, 1024, 5000)]
        lengths += [rng.randrange(2, 60 * inner) for _ in range(4 if quick else 20)]
        shows = []
        for n in lengths:
            face = rng.choice(SHOWN)
            containers = ["series", "series objects", "categorical", "series reversed index", "series string index"]
            if face in reps.SOME["string"][1]:
                containers.append("string")
            shows.append([B.rand_spec(rng, n), face, rng.choice(containers)])
        for face in SHOWN:
            shows.append([B.rand_spec(rng, rng.choice([5, inner, inner + 3, 13 * inner])), face, "series"])
        cases.append({"k": "series", "width": width, "shows": shows})
    for test in cli.TITLES:
        shows = []
        for i in range(60 if quick else 800):
            n = rng.choice([30, 100, 128, 150, 200, 400, 700])
            if i % 20 == 0:
                n = rng.choice([1000, 2000, 4000])
            kwargs = rand_kwargs(rng, test, n)
            if kwargs.get("template_size", 0) > 4 and i % 10:
                kwargs["template_size"] = 4
            shows.append([B.rand_spec(rng, n), kwargs, rng.choice(SHOWN) if i % 2 else "01", rng.randrange(60 if i % 3 else 40, 201)])
        for i in range(3 if quick else 20):  # statistics of many digits
            for spec in B.large_extremes(rng, 4001 if test in ("linear_complexity", "non_overlapping_template_matching") else 12001):
                kwargs = {}
                if test in ("serial", "approximate_entropy"):
                    kwargs = {"blocksize": rng.choice([8, 10, 12, 16])}
                elif test == "overlapping_template_matching":
                    kwargs = {"template_size": rng.choice([5, 9, 14]), "blocksize": rng.choice([60, 110])}
                elif test == "non_overlapping_template_matching":
                    kwargs = {"template_size": rng.choice([2, 3, 4])}
                shows.append([spec, kwargs, rng.choice(SHOWN) if i else "01", rng.randrange(100, 201)])
        for part in range(4):
            cases.append({"k": "results", "test": test, "shows": shows[part::4]})
    for face in SHOWN:  # the texts which contain values
        for test in ("monobit", "longest_runs", "non_overlapping_template_matching"):
            cases.append({"k": "show", "test": test, "show": [B.rand_spec(rng, rng.choice([128, 150, 300])), {}, face, rng.randrange(100, 201)]})
    for i in range(6 if quick else 60):
        cases.append({"k": "read", "spec": B.rand_spec(rng, rng.choice([60, 150, 300, 1000])), "face": rng.choice(["01", "a b", "digits 9 10", "-5 7", "floats"]),
                      "width": rng.choice([100, 104, 120, 140, 180])})
    for i in range(4 if quick else 40):
        cases.append({"k": "threads", "results": [[rng.choice(list(cli.TITLES)), B.rand_spec(rng, rng.choice([130, 200, 500]))] for _ in range(31)]})
    return cases


def run(case, obs):
    cli.warm()
    {"series": show_series, "results": show_results, "show": show_one, "read": show_read, "threads": show_threads}[case["k"]](case, obs)


# ------------------------------------------------------------------------------
# Sequences


class Anything:
    def __contains__(self, x):
        return True


def letters(heads, tails):
    """Acceptable characters for the values"""
    if not isinstance(heads, (int, float, str, bytes, tuple)):
        return (Anything(), Anything())  # times are represented in several ways
    return ({str(heads)[:1], "1"}, {str(tails)[:1], "0"})


def check_rows(rows, bits, heads, tails, width):
    """Whether the printed rows are those of a sequence"""
    shown = [r for r in rows if isinstance(r, str)]
    if not shown:
        return "no rows"
    # the characters follow from the first row on which each value occurs
    w = len(shown[0])
    at, found = 0, {}
    for r in rows:
        if isinstance(r, str):
            for c, b in zip(r, bits[at : at + w]):
                found.setdefault(int(b), c)
            at += len(r) if r is rows[-1] else w
        else:
            at += r * w
    if len(found) == 2 and found[0] == found[1]:
        return f"both values are shown as {found[0]!r}"
    heads_ok, tails_ok = letters(heads, tails)
    if 1 in found and found[1] not in heads_ok:
        return f"{heads!r} is shown as {found[1]!r}"
    if 0 in found and found[0] not in tails_ok:
        return f"{tails!r} is shown as {found[0]!r}"
    chars = "".join(found.get(int(b), "?") for b in bits)
    return cli.matches_printed(rows, chars)


def show_series(case, obs):
    from coinflip.cli.pprint import print_series

    shows, width = case["shows"], case["width"]
    made = [(B.make(spec), face, container) for spec, face, container in shows]

    def work():
        for i, (bits, face, container) in enumerate(made):
            print(f"=== {i}", flush=True)
            print_series(pd.Series(reps.make(bits, face, container)))
        print("=== end", flush=True)

    with cli.Scratch() as d:
        r = cli.in_terminal(work, d.path, width)
    parts = re.split(r"^=== (\w+)$", r.out, flags=re.M)
    found = dict(zip(parts[1::2], parts[2::2]))
    for i, (bits, face, container) in enumerate(made):
        what = f"sequence of {len(bits)} values {reps.FACES[face]!r:.80} ({container}) at {width} columns"
        replay = {"k": "series", "width": width, "shows": [shows[i]]}
        out = found.get(str(i))
        if out is None or (r.code and str(i + 1) not in found):
            obs.fail(f"{what}: {r!r}", replay=replay)
            return
        tails, heads = reps.FACES[face]
        rows = cli.printed_rows(out)
        bad = check_rows(rows, bits, heads, tails, width)
        wide = max(map(len, out.split("\n")))
        if not bad and wide > width:
            bad = f"a line is {wide} columns wide"
        if bad:
            obs.fail(f"{what}: {bad}", replay=replay, printed=out[:1500])
            return
        omitted = [x for x in rows if isinstance(x, int)]
        obs.count("sequences with omitted rows" if omitted else "sequences shown in full")
        if len(rows) == 1:
            obs.count("sequences on one row")
        obs.count(f"values: {face}")
        obs.seen(("series", width, str(shows[i])))


# ------------------------------------------------------------------------------
# Results


def whole(x):
    return f"{int(x)}" if float(x).is_integer() else None


class V:
    """A printed number: rounded to some digits"""

    def __init__(self, x, digits):
        self.x, self.digits = x, digits

    def __eq__(self, text):
        try:
            got = float(text)
        except ValueError:
            return False
        x = float(self.x)
        if x.is_integer():
            return got == x
        return abs(got - x) <= 0.5000001 * 10.0 ** -self.digits + 1e-9 * abs(x)

    def __repr__(self):
        return f"{self.x}"


def result_list(r, label):
    return [(label, V(r.statistic, 1)), ("p-value", V(r.p, 3))]


# what statistics are called
STATISTICS = {
    "monobit": "normalised diff",
    "frequency_within_block": "chi-square",
    "runs": "no. of runs",
    "longest_runs": "chi-square",
    "binary_matrix_rank": "chi-square",
    "spectral": "normalised diff",
    "non_overlapping_template_matching": "chi-square",
    "overlapping_template_matching": "chi-square",
    "maurers_universal": "log2 distances",
    "linear_complexity": "chi-square",
    "approximate_entropy": "chi-square",
    "cusum": "max cusum",
    "random_excursions": "chi-square",
    "random_excursions_variant": "count",
}
# the columns of tables, where None is the name of the class
CHI_COLUMNS = (None, "expect", "actual", "diff")
COLUMNS = {
    "monobit": ("value", "count"),
    "longest_runs": CHI_COLUMNS,
    "binary_matrix_rank": CHI_COLUMNS,
    "overlapping_template_matching": CHI_COLUMNS,
    "linear_complexity": CHI_COLUMNS,
    "non_overlapping_template_matching": ("template", "χ²", "p"),
    "random_excursions": ("state", "χ²", "p"),
    "random_excursions_variant": ("state", "ξ", "p"),
}


def same_header(test, got):
    want = COLUMNS.get(test)
    if len(got) != len(want) or any(w is not None and g != w for g, w in zip(got, want)):
        return f"columns {got}, expected {want}"
    return None


def chi_table(classes, expect, actual):
    rows = [(c, V(e, 1), V(a, 3), V(a - e, 1)) for c, e, a in zip(classes, expect, actual)]
    return rows


def last_plus(xs):
    xs = [str(x) for x in xs]
    return xs[:-1] + [xs[-1] + "+"]


def longest_classes(r):
    c = last_plus(r.maxlen_bins)
    return ["0-" + c[0]] + c[1:]


def matrix_classes(r):
    f = r.fullrank
    return ["0" if f == 2 else f"0-{f - 2}", str(f - 1), str(f)]


INPUTS = {
    "frequency_within_block": [("blocksize", "blocksize"), ("nblocks", "nblocks")],
    "longest_runs": [("blocksize", "blocksize"), ("nblocks", "nblocks")],
    "binary_matrix_rank": [("nrows", "nrows"), ("ncols", "ncols")],
    "spectral": [("actual", "nbelow"), ("expected", "nbelow_expect"), ("diff", "diff")],
    "overlapping_template_matching": [("template size", "template_size"), ("blocksize", "blocksize"), ("nblocks", "nblocks")],
    "maurers_universal": [("init nblocks", "init_nblocks"), ("segment nblocks", "segment_nblocks")],
    "non_overlapping_template_matching": [("blocksize", "blocksize"), ("nblocks", "nblocks")],
    "serial": [("blocksize", "blocksize")],
}


def expected_parts(test, r):
    """(pairs of lists, rows of tables) which are due, sub-tests aside"""
    lists, rows = [], []
    if test == "serial":
        for sub, label in zip(r.results.values(), ("delta psi²", "delta² psi²")):
            lists += result_list(sub, label)
    elif not hasattr(r, "results"):
        lists += result_list(r, STATISTICS[test])
    lists += [(label, V(getattr(r, name), 3)) for label, name in INPUTS.get(test, [])]
    if test == "monobit":
        if r.counts.heads.count >= r.counts.tails.count:
            faces = [r.counts.heads, r.counts.tails]
        else:
            faces = [r.counts.tails, r.counts.heads]
        rows = [(" ".join(str(f.value).split()), V(f.count, 3)) for f in faces]
    elif test == "longest_runs":
        rows = chi_table(longest_classes(r), r.expected_bincounts, r.maxlen_bins.values())
    elif test == "binary_matrix_rank":
        rows = chi_table(matrix_classes(r), dataclasses.astuple(r.expected_rankcounts), dataclasses.astuple(r.rankcounts))
    elif test == "overlapping_template_matching":
        rows = chi_table(last_plus(range(len(r.tallies))), r.expected_tallies, r.tallies)
    elif test == "linear_complexity":
        rows = chi_table([str(k) for k in r.variance_bins], r.expected_bincounts, r.variance_bins.values())
    return lists, rows


PAIR = re.compile(r"^(\S.*?)\s{2,}(\S+)$")


def parse(lines):
    """(texts, pairs, rows of tables)"""
    texts, pairs, tables = [], [], []
    for line in lines:
        s = line.strip()
        if s.startswith(("┌", "├", "└")):
            if s.startswith("┌"):
                tables.append([])
            continue
        if s.startswith("│"):
            tables[-1].append(tuple(" ".join(c.split()) for c in s.strip("│").split("│")))
            continue
        m = PAIR.match(s)
        if m and line.startswith("  ") and is_number(m.group(2)):
            pairs.append((m.group(1).strip(), m.group(2)))
        elif s:
            texts.append(s)
    return texts, pairs, [t[1:] for t in tables], [t[0] for t in tables]


def is_number(s):
    try:
        float(s)
        return True
    except ValueError:
        return False


def same_pairs(got, want):
    if len(got) != len(want):
        return f"{len(got)} values are listed, expected {len(want)}: {got} {want}"
    for (label, value), (name, v) in zip(got, want):
        if name is not None and label != name:
            return f"{label!r} listed in place of {name!r}"
        if v != value:
            return f"{label!r} is shown as {value}, it is {v!r}"
    return None


def same_rows(got, want):
    if len(got) != len(want):
        return f"{len(got)} rows, expected {len(want)}"
    for g, w in zip(got, want):
        if len(g) != len(w):
            return f"row {g}, expected {w}"
        for x, y in zip(g, w):
            if not (y == x):
                return f"row {g}, expected {w}"
    return None


def judge(test, r, lines, width):
    """What is wrong with a printed result"""
    lines = [x.rstrip() for x in lines]
    while lines and not lines[-1]:
        lines.pop()
    while lines and not lines[0]:
        lines.pop(0)
    wide = max(map(len, lines), default=0)
    # a warning comes first, up to an empty line
    warning = []
    if lines and lines[0].startswith("WARN"):
        while lines and lines[0].strip():
            warning.append(lines.pop(0))
    told = " ".join(" ".join(warning).split())
    for f in r.failures:
        if " ".join(f.split()) not in told:
            return f"unmet recommendation {f!r} is not shown: {told!r}"
    if bool(r.failures) != bool(warning):
        return f"warning {told!r}, unmet recommendations {r.failures}"
    if told.count("•") != (len(r.failures) if len(r.failures) > 1 else 0):
        return f"warning {told!r}, unmet recommendations {r.failures}"
    lists, rows = expected_parts(test, r)
    if hasattr(r, "results") and test != "serial":
        if width < 100:
            return None
        if wide > width:
            return f"a line is {wide} columns wide"
        return judge_multi(test, r, lines, lists)
    if width < 60:
        return None
    if wide > width:
        return f"a line is {wide} columns wide"
    texts, pairs, tables, headers = parse(lines)
    for header in headers:
        bad = same_header(test, header)
        if bad:
            return bad
    kinds = [t for t in texts if re.fullmatch(r"(\w+ )?result", t)]
    if kinds != (["first result", "second result"] if test == "serial" else ["result"]):
        return f"lists of results called {kinds}"
    return same_pairs(pairs, lists) or same_rows([row for t in tables for row in t], rows) or titles(test, r, texts)


def rep(chars, heads, tails, values):
    """Whether characters stand for the values of a template"""
    if len(chars) != len(values):
        return False
    seen = {}
    for c, v in zip(chars, values):
        key = v == heads
        if seen.setdefault(key, c) != c:
            return False
    ok = letters(heads, tails)
    return len(set(seen.values())) == len(seen) and all(c in ok[0 if k else 1] for k, c in seen.items())


def titles(test, r, texts):
    if test == "longest_runs":
        want = " ".join(f"longest run of {r.heads} per block".split())
        if not any(" ".join(t.split()) == want for t in texts):
            return f"no title {want!r}: {texts}"
    if test == "overlapping_template_matching":
        m = next((re.match(r"matches of (.*) per block$", t) for t in texts if t.startswith("matches of")), None)
        if not m or not rep(m.group(1), r.heads, r.tails, r.template):
            return f"the template {r.template!r:.100} is not shown: {texts}"
    return None


def judge_multi(test, r, lines, lists):
    top = next((i for i, x in enumerate(lines) if "┌" in x and "┐" in x), None)
    if top is None:
        return "there is no table"
    edge = lines[top].index("┐") + 1
    # the title is above the table
    texts, pairs, *_ = parse(lines[: max(top - 1, 0)])
    bad = same_pairs(pairs, lists)
    if bad:
        return bad
    left = parse([x[:edge] for x in lines[top:]])
    right = parse([x[edge:] for x in lines[top:]])
    rows = left[2][0]
    bad = same_header(test, left[3][0])
    if bad:
        return bad
    if len(rows) != len(r.results):
        return f"{len(rows)} rows, {len(r.results)} sub-tests"
    low = min(float(s.p) for s in r.results.values())
    starred = 0
    chosen = None
    for row, (key, sub) in zip(rows, r.results.items()):
        name, stat, p = row
        star = name.endswith("*")
        name = name[: -1] if star else name
        if test == "non_overlapping_template_matching":
            if not rep(name, r.heads, r.tails, sub.template):
                return f"template {sub.template!r:.100} is shown as {name!r}"
        elif name != str(key):
            return f"state {key} is shown as {name!r}"
        if V(sub.statistic, 3) != stat or V(sub.p, 3) != p:
            return f"row {row} of statistic {sub.statistic} and p-value {sub.p}"
        if star:
            starred += 1
            chosen = name, sub
            if float(sub.p) != low:
                return f"{name} is marked, with p-value {sub.p}, the lowest is {low}"
    if starred != 1:
        return f"{starred} rows are marked"
    name, sub = chosen
    bad = same_pairs(right[1], result_list(sub, STATISTICS[test]))
    if bad:
        return f"of the marked sub-test, {bad}"
    told = " ".join(" ".join(right[0]).split())
    if not re.search(r"sub-test result for \w+ " + re.escape(name) + r"(\s|$)", told):
        return f"the result shown besides is not of {name}: {told!r}"
    if test == "non_overlapping_template_matching":
        want = sorted(Counter(int(x) for x in sub.block_matches).items())
        got = right[2][0] if right[2] else []
        if right[3] and right[3][0] != ("matches", "nblocks"):
            return f"columns {right[3][0]} for the number of matches"
        bad = same_rows(got, [(V(a, 3), V(b, 3)) for a, b in want])
        if bad:
            return f"of the marked sub-test, {bad}"
        m = re.search(r"expected (\S+) matches", told)
        if not m or V(r.matches_expect, 1) != m.group(1):
            return f"expected matches {r.matches_expect}: {told!r}"
    return None


def show_results(case, obs):
    for show in case["shows"]:
        show_one({"k": "show", "test": case["test"], "show": show}, obs)
        if obs.failed:
            return


def show_one(case, obs):
    from rich.console import Console

    from coinflip import randtests

    test = case["test"]
    spec, kwargs, face, width = case["show"]
    kwargs = fix_kwargs(kwargs)
    bits = B.make(spec)
    if not oracle.in_domain(test, len(bits), kwargs):
        return
    if test in ("random_excursions", "random_excursions_variant"):
        pass
    o = observe(getattr(randtests, test), pd.Series(reps.make(bits, face, "series")), **kwargs)
    if o.exc is not None:
        obs.count("calls refused")
        return
    r = o.value
    what = f"{test} of {spec} {kwargs} of {face} at {width} columns"
    buf = io.StringIO()
    p = observe(lambda: Console(file=buf, width=width, force_jupyter=False).print(r))
    s = observe(str, r)
    if p.exc is not None or s.exc is not None:
        obs.fail(f"{what}: printing it {p if p.exc is not None else s!r}", replay=case)
        return
    bad = judge(test, r, buf.getvalue().split("\n"), width)
    if bad:
        obs.fail(f"{what}: {bad}", replay=case, printed=buf.getvalue()[:1500])
        return
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        p = observe(r.print)
    if p.exc is not None or out.getvalue().rstrip() != s.value.rstrip():
        obs.fail(f"{what}: print(): {repr(p) if p.exc is not None else out.getvalue()[:300]}, as a string: {s.value[:300]}", replay=case)
        return
    multi = hasattr(r, "results") and test != "serial"
    if not multi:
        bad = judge(test, r, s.value.split("\n"), 80)
        if bad:
            obs.fail(f"{what}, as a string: {bad}", replay=case, printed=s.value[:1500])
            return
    obs.count(f"{test}: results printed")
    if width >= (100 if multi else 60):
        obs.count(f"{test}: results read back")
    if r.failures:
        obs.count("warnings read back")
    obs.count(f"result of values: {face}")
    obs.seen((test, str(case["show"])), sample={"test": test, "show": case["show"]})


def show_threads(case, obs):
    """The texts of results which are printed in several threads at once"""
    from coinflip import randtests

    made = []
    for test, spec in case["results"]:
        o = observe(getattr(randtests, test), pd.Series(B.make(spec)))
        if o.exc is None:
            made.append((test, o.value, str(o.value)))
    bad = []

    def work(turn):
        for i in range(len(made)):
            test, r, want = made[(i * (turn * 2 + 1) + turn) % len(made)]
            o = observe(str, r)
            if o.exc is not None or o.value != want:
                bad.append(f"{test} in one of several threads: printed {o.value or o!r:.300}, alone {want:.300}")

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        threads = [threading.Thread(target=work, args=(turn,)) for turn in range(4)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    finally:
        sys.setswitchinterval(old)
    if bad:
        obs.fail(bad[0], replay=case)
        return
    obs.count("results printed in threads", 4 * len(made))
    obs.seen(("threads", str(case)))


def show_read(case, obs):
    """coinflip run, and coinflip read at a terminal"""
    from coinflip.cli.commands import main
    from coinflip.cli.report import load_results

    bits, width = B.make(case["spec"]), case["width"]
    tails, heads = reps.FACES[case["face"]]
    with cli.Scratch() as d:
        d.file("data", "".join(f"{v}\n" for v in reps.values(bits, (tails, heads))))
        r = cli.invoke(["run", "data", "out"], d.path)
        if r.code:
            obs.fail(f"coinflip run: {r!r}", replay=case)
            return
        results = load_results(d / "out").results
        r = cli.in_terminal(lambda: main.main(args=["read", "out"], prog_name="coinflip"), d.path, width)
    if r.code:
        obs.fail(f"coinflip read at {width} columns: {r!r}", replay=case)
        return
    bad = check_rows(cli.printed_rows(r.out), bits, heads, tails, width)
    if bad:
        obs.fail(f"coinflip read at {width} columns: {bad}", replay=case, printed=r.out[:1500])
        return
    found = cli.by_title(r.out)
    for test, result in results.items():
        if cli.TITLES[test] not in found:
            obs.fail(f"coinflip read at {width} columns: no section of {test}", replay=case)
            return
        bad = judge(test, result, found[cli.TITLES[test]], width)
        if bad:
            obs.fail(f"coinflip read at {width} columns: {test}: {bad}", replay=case, printed="\n".join(found[cli.TITLES[test]])[:1500])
            return
        obs.count("results read back from a terminal")
    obs.seen(("read", str(case)))


def goals(counters, tier):
    want = {f"values: {f}": 8 for f in SHOWN}
    want.update({f"{t}: results read back": 20 for t in cli.TITLES})
    want.update({"sequences with omitted rows": 100, "sequences shown in full": 100, "sequences on one row": 20,
                 "warnings read back": 100, "results read back from a terminal": 40, "results printed in threads": 200})
    return need_all(counters, want)
