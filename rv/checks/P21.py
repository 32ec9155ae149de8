"""Run, store, read and report agree with the tests"""
import html
import json
import os
import re
import sys

import numpy as np
import pandas as pd

from rv import bits as B
from rv import cli, oracle
from rv.calls import need_all
from rv.core import HarnessError
from rv.monitor import Judge, Outcome, close, is_refusal, observe

from coinflip import generators, randtests

PID = "P21"
LEVEL = "exploration"
RULE = (
    "Command processes: data of 12 kinds of values in text and binary files, run with the tests, the results stored, read back and "
    "reported; each of the 15 sections printed is compared with the rendering of the test called alone, each stored result judged "
    "against the model of the NIST paper, the summary against the model's p-values, and the report against the stored numbers; "
    "likewise example runs, runs of a single test and the functions behind the commands, and all commands with output in 8 encodings and as `python -m coinflip` in interpreters of their own. Distinct by data, kind and names of files."
)
ASSUMPTIONS = [
    "p-values within 1e-6 of the significance level may get either verdict",
    "the report covers the tests which have a template, i.e. the monobit test",
]
KINDS = {
    "01": ("0", "1", 0, 1),
    "-5 7": ("-5", "7", -5, 7),
    "floats": ("0.25", "1.5", 0.25, 1.5),
    "large": ("1000000000000000000", "1000000000000000001", 10 ** 18, 10 ** 18 + 1),
    "bools": ("False", "True", False, True),
    "words": ("heads", "tails", "heads", "tails"),
    "case": ("B", "a", "B", "a"),
    "html": ("<b>&amp;", '<script>"x"</script>', "<b>&amp;", '<script>"x"</script>'),
    "script end": ("</script><b>", "a", "</script><b>", "a"),
    "markup": ("[/b]", "[red]", "[/b]", "[red]"),
    "latin": ("ä", "ö", "ä", "ö"),
    "braces": ("{{ 7*7 }}", "{% x %}", "{{ 7*7 }}", "{% x %}"),
}
ENCODINGS = ["ascii", "cp1252", "latin-1", "cp437", "koi8-r", "shift_jis", "utf-16", "utf-8"]
# what users start from, and what shows that it works
ENTRIES = {
    "coinflip.randtests": "from coinflip.randtests import *\nprint(len(str(cusum([0, 1, 1] * 50))) > 20, NAMES)",
    "coinflip.randtests_refimpl": "from coinflip.randtests_refimpl import *\nprint(len(cusum([0, 1, 1] * 50)) == 2, NAMES)",
    "coinflip.collections": "from coinflip.collections import Bins, FloorDict, defaultlist\nprint(Bins([1, 2])[1] == 0, 15)",
    "coinflip.algorithms": "from coinflip.algorithms import berlekamp_massey, matrix_rank\nprint(berlekamp_massey((1, 0)) == 1 == matrix_rank([[1, 1]]), 15)",
    "coinflip.generators": "from coinflip.generators import Mersenne, Python\nprint(next(Mersenne()) in (0, 1) and next(Python()) in (0, 1), 15)",
    "coinflip.cli.commands": "from coinflip.cli.commands import main\nprint(sorted(main.commands) == ['example-run', 'read', 'report', 'run'], 15)",
}
WIDTHS = [None, 80, 100, 160]


def plan(rng, tier):
    quick = tier == "quick"
    cases = []
    lengths = [2, 3, 4, 7, 8, 9, 20, 100, 126, 128, 150, 400, 1000]
    outs = ["named", "default", "nested", "existing", "odd"]
    for kind in KINDS:
        for _ in range(2 if quick else 15):
            n = rng.choice(lengths)
            spec = B.rand_spec(rng, n)
            cases.append({"k": "round trip", "kind": kind, "spec": spec, "width": rng.choice(WIDTHS), "out": outs[len(cases) % 5]})
    for n in lengths:
        spec = B.rand_spec(rng, n)
        cases.append({"k": "round trip", "kind": "01", "spec": spec, "width": None, "out": "named"})
    for n in [1, 2, 16, 32, 100] + ([300] if quick else [300, 1000, 3000]):
        cases.append({"k": "round trip", "kind": "binary", "spec": {"g": "random", "n": 8 * n, "seed": rng.randrange(1 << 30)}, "width": None, "out": "named"})
    for g in ({"g": "periodic", "n": 800, "pat": "01"}, {"g": "one", "n": 500, "v": 1, "pos": 250}, {"g": "step", "n": 300, "v": 0, "pos": 150},
              {"g": "random", "n": 2000, "seed": rng.randrange(1 << 30), "p": 0.58}, {"g": "random", "n": 6000, "seed": rng.randrange(1 << 30)}):
        cases.insert(0, {"k": "round trip", "kind": "01", "spec": g, "width": None, "out": "named"})
    for n in [16385] if quick else [16385, 33000, 66000]:
        cases.insert(0, {"k": "round trip", "kind": rng.choice(["01", "words", "floats"]), "spec": {"g": "random", "n": n, "seed": rng.randrange(1 << 30)}, "width": None, "out": "named"})
    for test in ("monobit", "runs", "longest_runs", "frequency_within_block", "maurers_universal", "cusum"):
        cases.append({"k": "single", "test": test, "n": rng.choice([32768, 65537, 70001])})
    if not quick:
        cases.insert(0, {"k": "round trip", "kind": "01", "spec": {"g": "random", "n": 100000, "seed": 3}, "width": None, "out": "named"})
    for i, test in enumerate(cli.TITLES):
        for n in [rng.choice([100, 500]), 16 + i] if quick else [100, 128, 500, 1000, 10, 3]:
            cases.append({"k": "single", "test": test, "n": n})
    for n in [10, 127, 512, 900] + ([] if quick else [128, 3000, 20000]):
        cases.append({"k": "example", "n": n})
    for _ in range(8 if quick else 60):
        cases.append({"k": "api", "kind": rng.choice(list(KINDS)), "spec": B.rand_spec(rng, rng.choice(lengths)), "seed": rng.randrange(1 << 30)})
    for _ in range(4 if quick else 30):
        cases.append({"k": "api write", "kind": rng.choice(["01", "words", "html"]), "spec": B.rand_spec(rng, rng.choice(lengths)), "seed": rng.randrange(1 << 30)})
    for i, encoding in enumerate(ENCODINGS * (1 if quick else 4)):
        kind = "01" if i < 2 else rng.choice(list(KINDS))
        cases.append({"k": "encoding", "encoding": encoding, "kind": kind, "spec": B.rand_spec(rng, rng.choice([20, 128, 400]))})
    for kind in ["01", "words", "binary"] if quick else ["01", "words", "binary", "html", "large", "floats"]:
        cases.append({"k": "interpreter", "kind": kind, "spec": B.rand_spec(rng, rng.choice([136, 400]))})
    for module in ENTRIES:
        cases.append({"k": "import", "module": module})
    # p-values around the significance level
    for i in range(18 if quick else 120):
        cases.append({"k": "verdicts", "seed": 6 * rng.randrange(1 << 27) + i % 6})
    return cases


def run(case, obs):
    cli.warm()
    {"round trip": round_trip, "single": single, "example": example, "api": api, "api write": api_write, "verdicts": verdicts, "encoding": encodings,
     "interpreter": interpreter, "import": imported}[case["k"]](case, obs)


def faces_of(kind):
    low, high = (0, 1) if kind == "binary" else KINDS[kind][2:]
    return (low, high) if low < high else (high, low)


def values_of(kind, bits):
    low, high = faces_of(kind)
    return [high if b else low for b in bits]


def file_of(kind, bits):
    if kind == "binary":
        return np.packbits(np.array(bits, dtype=np.uint8)).tobytes()
    z, o, low, high = KINDS[kind]
    spell = {low: z, high: o}
    tokens = ['"' + spell[v].replace('"', '""') + '"' if kind == "html" else spell[v] for v in values_of(kind, bits)]
    return "\n".join(tokens) + "\n"


def alone(values, width, cwd):
    """{test: what it prints when called alone}, each starting from the values only"""
    def show():
        from rich.console import Console

        console = Console()
        for test in cli.TITLES:
            print(f"=== {test}", flush=True)
            try:
                result = getattr(randtests, test)(list(values))
            except randtests.exceptions.TestError as e:
                print(f"ERR! {e}", flush=True)
                continue
            console.print(result)
        print("=== end", flush=True)

    r = cli.call(show, cwd, columns=width)
    parts = re.split(r"^=== (\w+)$", r.out, flags=re.M)
    found = {t: cli.strip([x.rstrip() for x in b.split("\n")]) for t, b in zip(parts[1::2], parts[2::2])}
    if r.code or "end" not in found:
        return None, r
    del found["end"]
    return found, r


def expected(bits):
    bits = np.array(bits, dtype=np.int8)
    return {t: oracle.expect(t, bits, {}) for t in cli.TITLES}


def unwrap(lines):
    return re.sub(r"\s+", " ", " ".join(lines)).strip()


def check_sections(out, shown, exp, ok_only):
    """The sections of an output against the tests alone"""
    titles = [t for t, _ in cli.sections(out) if t in cli.NAMES]
    want = [cli.TITLES[t] for t in cli.TITLES if not (ok_only and isinstance(exp[t], oracle.Refusal))]
    if titles != want:
        return f"sections {titles}, expected {want}"
    bodies = cli.by_title(out)
    for t in cli.TITLES:
        if cli.TITLES[t] not in want:
            continue
        body = bodies[cli.TITLES[t]]
        refused = isinstance(exp[t], oracle.Refusal)
        if refused != bool(body and body[0].startswith("ERR!")):
            return f"section of {t} starts with {body[:1]}, {'a refusal' if refused else 'a result'} is due"
        if refused:
            if unwrap(body) != unwrap(shown[t]):
                return f"section of {t} is {unwrap(body)!r}, alone it is {unwrap(shown[t])!r}"
        elif body != shown[t]:
            i = next((i for i, (x, y) in enumerate(zip(body, shown[t])) if x != y), min(len(body), len(shown[t])))
            return f"section of {t} differs from the test alone in line {i}: {body[i:i + 1]}, expected {shown[t][i:i + 1]}"
    return None


def check_summary(out, exp, ok_only):
    rows, listed = cli.summary(out)
    want_rows, want_listed = [], []
    for t, e in exp.items():
        refused = isinstance(e, oracle.Refusal)
        if refused and ok_only:
            continue
        (want_rows if refused or "subs" not in e else want_listed).append(cli.TITLES[t])
    if list(rows) != want_rows:
        return f"the summary has rows for {list(rows)}, expected {want_rows}"
    if listed != want_listed:
        return f"the summary lists {listed} as not summarisable, expected {want_listed}"
    for title, (p, verdict) in rows.items():
        e = exp[cli.NAMES[title]]
        if isinstance(e, oracle.Refusal):
            if (p, verdict) != ("-", "N/A"):
                return f"summary of {title}: {p} {verdict}, expected - N/A"
            continue
        if "outcome" in e:
            ps = [e["outcome"](k)[1] for k in range(e["nbelow_range"][0], e["nbelow_range"][1] + 1)]
        else:
            ps = [e["p"]]
        fits = any(
            re.fullmatch(r"[01]\.\d{3}", p) and abs(float(p) - q) <= 0.0005 + 1e-7
            and (abs(q - 0.01) < 1e-6 or verdict == ("PASS" if q >= 0.01 else "FAIL"))
            for q in ps
        )
        if not fits:
            return f"summary of {title}: {p} {verdict}, the p-value is {ps}"
    if "significance level of 0.01" not in unwrap(out.split("\n")):
        return "the summary does not state the significance level"
    return None


def check_stored(report, values, kind, exp):
    low, high = faces_of(kind)
    got = list(report.series)
    if got != values or [isinstance(x, (bool, np.bool_)) for x in got] != [isinstance(x, bool) for x in values]:
        return "the stored sequence is not that of the data"
    want = [t for t in cli.TITLES if not isinstance(exp[t], oracle.Refusal)]
    if list(report.results) != want:
        return f"results of {list(report.results)} are stored, expected {want}"
    for t, result in report.results.items():
        bad = Judge(t, {}, high, low).judge(Outcome(result), exp[t])
        if bad:
            return f"stored result of {t}: {bad[0]}"
    return None


def check_report(text, report, exp, kind, n):
    """The monobit part, the only test with a template"""
    m = exp["monobit"]
    low, high = faces_of(kind)
    heads, tails = m["fields"]["counts"]
    faces = (high, low) if heads >= tails else (low, high)
    plain = re.sub(r"<script.*?</script>", "", text.split("<body>", 1)[-1], flags=re.S)
    first = re.search(r"occurences for the (.*?) and (.*?) values", plain, re.S)
    if not first:
        return "the report does not name the values"
    raw = (first.group(1), first.group(2))
    if tuple(html.unescape(x) for x in raw) != tuple(str(f) for f in faces):
        return f"the report names the values {raw}, expected {faces}"
    if any("<" in x for x in raw):
        return f"the report does not escape the values {raw}"
    for what, pattern, want, tol in [
        ("difference", r"difference of (\S+) between", abs(heads - tails), 0),
        ("difference again", r"compare the difference of (\S+) with", abs(heads - tails), 0),
        ("length", r"sequences length, (\d+)\.", n, 0),
        ("statistic", r"statistic of (\S+)\.", m["statistic"], 0.005),
        ("p-value", r"p-value of (\S+)\.", m["p"], 0.0005),
    ]:
        found = re.search(pattern, plain)
        if not found or abs(float(found.group(1)) - want) > tol + 1e-7:
            return f"{what} in the report is {found and found.group(1)}, expected {want}"
    specs = []
    for name in ("counts", "refdist"):
        at = text.find(f"var {name} = ")
        if at < 0:
            return f"the report has no plot of {name}"
        end = text.find("</script>", at)
        try:
            spec, _ = json.JSONDecoder().raw_decode(text[at + len(f"var {name} = "):])
        except json.JSONDecodeError as e:
            return f"the plot of {name} in the report is not valid: {e}"
        if text.find(f'vegaEmbed("#viz-monobit-{name}"', at, end) < 0:
            return f"the script with the plot of {name} ends too early"
        specs.append(spec)
    counts = [d for data in specs[0]["datasets"].values() for d in data]
    got = {str(d["Value"]): d["Count"] for d in counts}
    if len(counts) != 2 or got != {str(high): heads, str(low): tails}:
        return f"the plot of counts in the report has {counts}"
    xs = [min(d["x"] for d in data) for data in specs[1]["datasets"].values()]
    if not any(close(x, m["statistic"], 1e-6) for x in xs):
        return f"the plot of the distribution in the report marks {xs}, not {m['statistic']}"
    return None


def names(case, d):
    """The results file asked for, if any"""
    kind = case["out"]
    if kind == "default":
        return None
    if kind == "nested":
        os.mkdir(d / "sub")
        return os.path.join("sub", "results.pickle")
    if kind == "existing":
        d.file("results.pickle", b"old" * 10000)
        return d / "results.pickle"
    if kind == "odd":
        return d / "ö [x] results"
    return d / "results.pickle"


def round_trip(case, obs):
    kind, width = case["kind"], case["width"]
    bits = B.make(case["spec"]).tolist()
    if kind == "binary" and len(set(bits)) < 2:
        return
    values = values_of(kind, bits)
    exp = expected(bits)
    what = f"{len(bits)} values of {kind!r} ({B.text(np.array(bits))})"
    with cli.Scratch() as d:
        data = file_of(kind, bits)
        path = d.file("data", data)
        shown, r = alone(values, width, d.path)
        if shown is None:
            obs.fail(f"the tests called alone on {what}: {r!r}", replay=case)
            return
        bad = trip(case, d, path, kind, width, bits, values, exp, shown, obs)
        if not bad:
            with open(path, "rb") as f:
                if f.read() != (data if isinstance(data, bytes) else data.encode()):
                    bad = "the data was modified"
    if bad:
        obs.fail(f"{what}: {bad}", replay=case)
    obs.count("round trips")
    obs.count(f"kind {kind}")
    obs.count("sections compared", 2 * len(shown))
    obs.count("failing tests among them", sum(isinstance(e, oracle.Refusal) for e in exp.values()))
    obs.seen(("trip", kind, str(case["spec"]), case["out"]), sample={"spec": case["spec"], "kind": kind, "out": case["out"]})


def trip(case, d, path, kind, width, bits, values, exp, shown, obs):
    from coinflip.cli.report import load_results

    out = names(case, d)
    before = set(d.listing())
    args = ["run", path] + ([out] if out else []) + (["--binary"] if kind == "binary" else [])
    r = cli.invoke(args, d.path, columns=width)
    if r.code:
        return f"run: {r!r}"
    new = set(d.listing()) - before
    if out is None:
        if len(new) != 1 or not re.fullmatch(r"results_.+\.pickle", next(iter(new))):
            return f"run without a name for its results created {new}"
        out = next(iter(new))
        if not cli.strip([x.rstrip() for x in r.out.split("\n")])[-1].endswith(f"Results saved to {out}"):
            return f"run does not tell where the results are: {r.out[-100:]!r}"
        obs.count("default names")
    elif new - {os.path.relpath(os.path.join(d.path, out), d.path)}:
        return f"run created {new}"
    chars = printed_chars(values, r.out)
    bad = (
        chars
        or check_sections(r.out, shown, exp, False)
        or check_summary(r.out, exp, False)
    )
    if bad:
        return f"run: {bad}"
    report = load_results(os.path.join(d.path, out))
    bad = check_stored(report, values, kind, exp)
    if bad:
        return bad
    kept = d.listing()
    r = cli.invoke(["read", out], d.path, columns=width)
    if r.code:
        return f"read: {r!r}"
    bad = printed_chars(values, r.out) or check_sections(r.out, shown, exp, True) or check_summary(r.out, exp, True)
    if bad:
        return f"read: {bad}"
    if d.listing() != kept:
        return "read changed files"
    named = case["out"] != "default"
    r = cli.invoke(["report", out] + (["report.html"] if named else []), d.path, columns=width)
    if r.code:
        return f"report: {r!r}"
    now = d.listing()
    new = set(now) - set(kept)
    if len(new) != 1 or any(now[x] != kept[x] for x in kept):
        return f"report created {new}"
    html_name = next(iter(new))
    if named and html_name != "report.html" or not named and not re.fullmatch(r"report_.+\.html", html_name):
        return f"report created {html_name}"
    told = r.out.replace("\n", "")
    if not named and f"Report saved to {html_name}" not in told:
        return "report does not tell where the report is"
    full = os.path.join(os.path.realpath(d.path), html_name)
    if "View report at" not in r.out or (d / html_name).replace(" ", "") not in told.replace(" ", "") and full not in told:
        return f"report does not tell how to view it: {r.out[-200:]!r}"
    if len(r.opened) != 1 or not r.opened[0].startswith("file://") or not r.opened[0].endswith(html_name):
        return f"report opened {r.opened} in a browser"
    return check_report(now[html_name].decode("utf-8"), report, exp, kind, len(bits))


def printed_chars(values, out):
    rows = cli.printed_rows(out)
    shown = [x for x in rows if isinstance(x, str)]
    if not shown or not shown[0]:
        return "the sequence is not shown"
    first = shown[0][0]
    others = set("".join(shown)) - {first}
    if len(others) > 1:
        return f"the sequence is shown with {sorted(others | {first})}"
    other = next(iter(others), None)
    return cli.matches_printed(rows, "".join(first if v == values[0] else (other or "?") for v in values))


def mersenne(n):
    g = generators.Mersenne()
    return [next(g) for _ in range(n)]


def single(case, obs):
    """example-run of one test"""
    test, n = case["test"], case["n"]
    bits = mersenne(n)
    exp = expected(bits)
    with cli.Scratch() as d:
        shown, r0 = alone(bits, None, d.path)
        r = cli.invoke(["example-run", "-e", "Mersenne", "-n", n, "-t", test], d.path)
        left = d.listing()
    refused = isinstance(exp[test], oracle.Refusal)
    titles = [t for t, _ in cli.sections(r.out) if t in cli.NAMES]
    if shown is None:
        bad = f"alone: {r0!r}"
    elif (r.code == 0) == refused:
        bad = f"{r!r}, {'a refusal' if refused else 'a result'} is due"
    elif titles != [cli.TITLES[test]]:
        bad = f"sections {titles}"
    elif unwrap(cli.by_title(r.out)[cli.TITLES[test]]) != unwrap(shown[test]):
        bad = "the outcome differs from that of the test alone"
    elif left:
        bad = f"files were written: {sorted(left)}"
    else:
        bad = None
    if bad:
        obs.fail(f"example-run -t {test} -n {n}: {bad}", replay=case)
    obs.count("example runs of one test")
    obs.seen(("single", test, n))


def example(case, obs):
    n = case["n"]
    bits = mersenne(n)
    exp = expected(bits)
    with cli.Scratch() as d:
        shown, r0 = alone(bits, None, d.path)
        r = cli.invoke(["example-run", "-e", "Mersenne", "-n", n], d.path)
        left = d.listing()
    if shown is None or r.code:
        bad = f"{r!r}, alone {r0!r}"
    else:
        bad = printed_chars(bits, r.out) or check_sections(r.out, shown, exp, False) or check_summary(r.out, exp, False)
    if not bad and left:
        bad = f"files were written: {sorted(left)}"
    if bad:
        obs.fail(f"example-run -n {n}: {bad}", replay=case)
    obs.count("example runs of all tests")
    obs.seen(("example", n))


def api(case, obs):
    """run_all_tests() and run_test()"""
    kind = case["kind"]
    bits = B.make(case["spec"]).tolist()
    values = values_of(kind, bits)
    exp = expected(bits)
    low, high = faces_of(kind)
    rs = np.random.RandomState(case["seed"] % 2 ** 32)
    index = rs.permutation(len(values)) if rs.rand() < 0.5 else None

    def work():
        from coinflip.cli import runner

        series = pd.Series(values, index=index)
        kept = series.copy()
        got, early = [], None
        for item in runner.run_all_tests(series):
            got.append(item)
            sys.stdout.flush()
            with open("/proc/self/fd/1", "rb") as f:
                shown = f.read().decode("utf-8", "replace")
            there = [t for t, title in cli.TITLES.items() if f" {title} " in shown]
            if there != list(cli.TITLES)[: len(got)]:
                early = early or f"run_all_tests() has shown {there} when it gave {item[0]}"
        one = {t: observe(runner.run_test, series, t) for t in cli.TITLES}
        kwargs = observe(runner.run_test, series, "cusum", reverse=True)
        unknown = [observe(runner.run_test, series, name).exc for name in ("nope", "frequency", "")]
        unknown = [type(e).__name__ if e is not None else None for e in unknown]
        same = series.equals(kept) and series.index.equals(kept.index)
        listed = [(name, callable(func)) for name, func in runner.list_tests()]
        bad = judged(got, one, kwargs) or early
        if not bad and unknown != ["TestNotFoundError"] * 3:
            bad = f"run_test() with unknown names: {unknown}"
        if not bad and not same:
            bad = "the series was modified"
        if not bad and listed != [(t, True) for t in cli.TITLES]:
            bad = f"list_tests() gives {listed}"
        with open("verdict", "w") as f:  # exceptions need not survive pickling
            json.dump(bad, f)

    def judged(got, one, kwargs):
        if [t for t, _, _ in got] != list(cli.TITLES):
            return f"run_all_tests() yields {[t for t, _, _ in got]}"
        for t, result, exc in got:
            if (result is None) == (exc is None):
                return f"run_all_tests() yields {result!r:.80} and {exc!r:.80} for {t}"
            for b in Judge(t, {}, high, low).judge(Outcome(result, exc), exp[t]):
                return b
        for t, o in one.items():
            for b in Judge(t, {}, high, low).judge(o, exp[t]):
                return f"run_test({t!r}): {b}"
        e = oracle.expect("cusum", np.array(bits, dtype=np.int8), {"reverse": True})
        for b in Judge("cusum", {"reverse": True}, high, low).judge(kwargs, e):
            return f"run_test('cusum', reverse=True): {b}"
        return None

    with cli.Scratch() as d:
        r = cli.call(work, d.path)
        if r.code:
            obs.fail(f"run_all_tests() or run_test(), {len(bits)} values of {kind!r}: {r!r}", replay=case)
            return
        with open(d / "verdict") as f:
            bad = json.load(f)
    if bad:
        obs.fail(f"{len(bits)} values of {kind!r} ({B.text(np.array(bits))}): {bad}", replay=case)
    obs.count("calls of the functions behind the commands")
    obs.seen(("api", kind, str(case["spec"])))


def api_write(case, obs):
    """store_results(), load_results() and write_report_doc()"""
    from coinflip.cli.report import load_results, store_results, write_report_doc

    kind = case["kind"]
    bits = B.make(case["spec"]).tolist()
    values = values_of(kind, bits)
    rs = np.random.RandomState(case["seed"] % 2 ** 32)
    series = pd.Series(values, name="x" if rs.rand() < 0.5 else None)
    results = {}
    for t in rs.permutation(list(cli.TITLES)):
        out = observe(getattr(randtests, t), series)
        if out.exc is None:
            results[str(t)] = out.value
        elif not is_refusal(out.exc, ["TestError"]):
            obs.fail(f"{t}: {out!r}", replay=case)
            return
    from rv.fingerprint import difference, fp

    with cli.Scratch() as d:
        store_results(series, results, d / "r")
        back = load_results(d / "r")
        bad = difference(fp(results), fp(back.results)) or difference(fp(series), fp(back.series), "series")
        first = open(d / "r", "rb").read()
        store_results(back.series, back.results, d / "s")
        again = load_results(d / "s")
        bad = bad or difference(fp(results), fp(again.results))
        if open(d / "r", "rb").read() != first:
            bad = bad or "storing results again changed the first file"
        # the same file with other results, fewer and then all of them
        other = pd.Series(values[::-1], name="y")
        few = {t: observe(getattr(randtests, t), other).value for t in list(results)[:2]}
        few = {t: v for t, v in few.items() if v is not None}
        for s, rs_, what in ((other, few, "fewer results"), (series, results, "the former results"), (other, {}, "no results"), (other, few, "fewer results")):
            store_results(s, rs_, d / "r")
            now = load_results(d / "r")
            found = difference(fp(rs_), fp(now.results)) or difference(fp(s), fp(now.series), "series")
            if found:
                bad = bad or f"the file stored once more with {what}: {found}"
        pages = []
        for report in (back, again, now, back):
            write_report_doc(report, d / "page.html")
            pages.append(open(d / "page.html", "rb").read())
        text = [re.sub(rb"<script.*?</script>", b"", p, flags=re.S) for p in pages]
        if text[0] != text[1] or text[0] != text[3]:
            bad = bad or "reports of the same results differ"
        if (b"monobit" in text[2]) != ("monobit" in few):
            bad = bad or "the report of other results is that of the former"
        if not bad and difference(fp(back.results), fp(results)):
            bad = "reporting changed the results"
    if bad:
        obs.fail(f"stored and loaded results of {len(bits)} values of {kind!r}: {bad}", replay=case)
    obs.count("stored and loaded results")
    obs.seen(("write", kind, str(case["spec"]), case["seed"]))


def encodings(case, obs):
    """Output which cannot represent everything that is printed"""
    from coinflip.cli.report import load_results

    kind, encoding = case["kind"], case["encoding"]
    bits = B.make(case["spec"]).tolist()
    values = values_of(kind, bits)
    exp = expected(bits)
    odd = "r\udcff.html" if encoding == "utf-8" else "report.html"
    bad = None
    with cli.Scratch() as d:
        path = d.file("data", file_of(kind, bits))
        for args in (["run", path, "out"], ["read", "out"], ["report", "out", odd], ["example-run", "-n", 130], ["run", d.file("ä", "x"), "bad"]):
            r = cli.invoke(args, d.path, encoding=encoding)
            fails = args[-1] == "bad"
            if bool(r.code) != fails or fails and "UnicodeEncodeError" in r.err:
                bad = f"{args[0]}: {r!r}"
            elif args[0] in ("run", "read", "example-run") and not fails:
                at = [(t, r.out.find(" " + cli.TITLES[t] + " ")) for t in cli.TITLES if args[0] != "read" or not isinstance(exp[t], oracle.Refusal)]
                if any(i < 0 for _, i in at) or sorted(at, key=lambda x: x[1]) != at:
                    bad = f"{args[0]}: not every test has its section"
            elif args[0] == "report":
                with open(os.path.join(d.path, odd), "rb") as f:
                    bad = check_report(f.read().decode("utf-8"), load_results(d / "out"), exp, kind, len(bits))
            if not bad and args[0] == "run" and not fails:
                bad = check_stored(load_results(d / "out"), values, kind, exp)
            if bad:
                break
    if bad:
        obs.fail(f"{len(bits)} values of {kind!r}, output encoded as {encoding}: {bad}", replay=case)
    obs.count("output encodings")
    obs.seen(("encoding", encoding, kind, str(case["spec"])))


def python(args, cwd):
    import subprocess
    import sys

    import coinflip

    src = os.path.dirname(os.path.dirname(os.path.abspath(coinflip.__file__)))
    env = {**os.environ, "PYTHONPATH": src, "PYTHONIOENCODING": "utf-8", "PYTHONDONTWRITEBYTECODE": "1", "BROWSER": "true %s"}
    env.pop("COLUMNS", None)
    return subprocess.run([sys.executable, "-W", "ignore", *map(str, args)], cwd=cwd, env=env, stdin=subprocess.DEVNULL,
                          stdout=subprocess.PIPE, stderr=subprocess.PIPE, encoding="utf-8", timeout=300)


def imported(case, obs):
    """Each part of the library works in an interpreter which has loaded nothing else of it"""
    names = f"sum(callable(globals().get(t)) for t in {list(cli.TITLES)!r})"
    with cli.Scratch() as d:
        r = python(["-c", ENTRIES[case["module"]].replace("NAMES", names)], d.path)
    if r.returncode or r.stdout.split() != ["True", "15"]:
        obs.fail(f"{case['module']} alone in an interpreter: exit code {r.returncode}, {r.stdout[-200:]!r} {r.stderr[-300:]!r}", replay=case)
    obs.count("modules loaded alone")
    obs.seen(("import", case["module"]))


def interpreter(case, obs):
    """python -m coinflip, started afresh, against the commands in a process which has loaded everything"""
    from coinflip.cli.report import load_results
    from rv.fingerprint import difference, fp

    kind = case["kind"]
    bits = B.make(case["spec"]).tolist()
    bad = None
    with cli.Scratch() as d:
        path = d.file("data", file_of(kind, bits))
        d.file("one", "1\n" * 30)
        for args in (["run", path, "out"] + (["--binary"] if kind == "binary" else []), ["read", "out"], ["report", "out", "page.html"],
                     ["example-run", "-n", 300, "-e", "Mersenne"], ["--help"], ["run", "one", "none"], ["read", "none"]):
            r = python(["-m", "coinflip"] + args, d.path)
            made = fp(load_results(d / "out")) if args[0] == "run" else None
            w = cli.invoke(args, d.path)
            if bool(r.returncode) != bool(w.code) or bool(r.returncode) != ("none" in args):
                bad = f"{args}: exit code {r.returncode}, {r.stderr[-200:]!r}, by function {w!r}"
            elif args != ["--help"] and r.stdout.replace("\r", "").split() != w.out.replace("\r", "").split():
                bad = f"{args} prints {r.stdout[:200]!r}..., by function {w.out[:200]!r}..."
            elif made is not None and made != fp(load_results(d / "out")):
                bad = f"{args}: stored {difference(fp(load_results(d / 'out')), made)}"
            if bad:
                break
    if bad:
        obs.fail(f"{len(bits)} values of {kind!r}, python -m coinflip {bad}", replay=case)
    obs.count("commands in interpreters of their own", 7)
    obs.seen(("interpreter", kind, str(case["spec"])))


def verdicts(case, obs):
    """p-values around the significance level, in monobit's case by counts"""
    rs = np.random.RandomState(case["seed"] % 2 ** 32)
    from math import erfc, sqrt

    # right below and above the level, and what is rounded to it
    low, high = [(0.0095, 0.01), (0.01, 0.0105), (0.009, 0.0095), (0.0099, 0.01), (0.01, 0.0101), (0.005, 0.015)][case["seed"] % 6]
    n = int(rs.randint(100, 3000))
    while True:
        ones = [k for k in range(n // 2, n // 2 + int(2 * sqrt(n))) if low <= erfc(abs(2 * k - n) / sqrt(2 * n)) < high]
        if ones:
            ones = ones[0]
            break
        n += 1
    bits = np.array([1] * ones + [0] * (n - ones), dtype=np.int8)
    rs.shuffle(bits)
    if rs.rand() < 0.5:
        bits = 1 - bits
    exp = expected(bits)
    if not low - 1e-9 <= exp["monobit"]["p"] <= high + 1e-9:
        raise HarnessError("not around the significance level")
    with cli.Scratch() as d:
        r = cli.invoke(["run", d.file("data", "\n".join(map(str, bits.tolist()))), "out"], d.path)
    bad = f"{r!r}" if r.code else check_summary(r.out, exp, False)
    if bad:
        obs.fail(f"monobit p-value {exp['monobit']['p']:.5f}: {bad}", replay=case)
    obs.count("verdicts near the level")
    obs.seen(("verdict", case["seed"]))


def goals(counters, tier):
    want = {f"kind {k}": 2 for k in KINDS}
    want.update({"round trips": 40, "sections compared": 1000, "failing tests among them": 30, "example runs of one test": 28,
                 "example runs of all tests": 4, "calls of the functions behind the commands": 8, "stored and loaded results": 4,
                 "verdicts near the level": 15, "output encodings": 8,
                 "commands in interpreters of their own": 21, "modules loaded alone": 6, "default names": 1})
    return need_all(counters, want)
