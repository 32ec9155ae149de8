"""Bad input makes commands fail without side effects"""
import pickle
import re

import numpy as np
import pandas as pd

from rv import bits as B
from rv import cli
from rv.calls import need_all
from rv.monitor import is_refusal, observe

PID = "P22"
LEVEL = "exploration"
RULE = (
    "Command processes given malformed data (40 kinds of text, 6 of binary data), results files (25 kinds of contents) and "
    "options (30 kinds), in a scratch directory whose whole contents are compared before and after; between them the same "
    "commands with valid input. Every evaluation is non-trivial; distinct by command and contents of the files."
)
ASSUMPTIONS = ["a traceback with a non-zero exit code is a refusal; ending by a signal is not"]


def seq(rng, n, values):
    out = [rng.choice(values) for _ in range(n)]
    for i, v in enumerate(values):  # all of them occur
        out[(i * 7) % n if n > 7 * len(values) else i % n] = v
    return out


def lines(tokens, end="\n"):
    return "\n".join(tokens) + end


def with_third(rng, n, values, third, where):
    out = seq(rng, n, values)
    at = {"first": 0, "last": n - 1, "middle": n // 2}[where]
    out[at] = third
    return out


MISSING_WORDS = ["NA", "nan", "NaN", "null", "NULL", "N/A", "n/a", "#N/A", "", "-nan", "-NaN", "<NA>"]
EXTRA = ["2", "a", "00x", "0.5", "-1", "1e400", "0.9999999999999999", "TRUE", "_", "O", "l", "18446744073709551615"]

TEXT = {
    "empty": lambda r: "",
    "blank lines": lambda r: "\n" * r.randrange(1, 9),
    "spaces": lambda r: " \n \n",
    "one value": lambda r: lines(["1"] * r.choice([1, 2, 100, 1000, 4096, 10000, 65536, 200000])),
    "one value, several spellings": lambda r: lines(r.choice([["1", "01", "+1"], ["1.0", "1", "1e0"], ["0", "-0", "0.0"], ["true", "True", "TRUE"], ['"a"', "a"]]) * 30),
    "three values": lambda r: lines(seq(r, r.choice([3, 10, 500]), ["0", "1", "2"])),
    "many values": lambda r: lines([str(r.randrange(1000)) for _ in range(300)]),
    "a third value": lambda r: lines(with_third(r, r.choice([8, 100, 3000]), ["0", "1"], r.choice(EXTRA), r.choice(["first", "middle", "last"]))),
    "a third word": lambda r: lines(with_third(r, r.choice([8, 100, 3000]), ["heads", "tails"], r.choice(["Heads", "head", "heads ", " tails", "heads.", "1"]), r.choice(["first", "middle", "last"]))),
    "a third float": lambda r: lines(with_third(r, 100, ["0.25", "0.75"], r.choice(["0.250000000000001", "0.7500000000000001", "0", "1"]), r.choice(["first", "middle", "last"]))),
    "a missing value": lambda r: lines(with_third(r, r.choice([8, 100, 3000]), r.choice([["0", "1"], ["a", "b"], ["0.5", "1.5"], ["True", "False"]]), '"' + r.choice(MISSING_WORDS) + '"', r.choice(["first", "middle", "last"]))),
    "missing values beside one": lambda r: lines(seq(r, 50, ["1", r.choice(MISSING_WORDS[:6])])),
    "only missing values": lambda r: lines([r.choice(MISSING_WORDS[:6]) for _ in range(20)]),
    "two columns": lambda r: lines([f"{r.randrange(2)},{r.randrange(2)}" for _ in range(50)]),
    "five columns": lambda r: lines([",".join(str(r.randrange(2)) for _ in range(5)) for _ in range(50)]),
    "256 columns": lambda r: lines([",".join(str(r.randrange(2)) for _ in range(256)) for _ in range(5)]),
    "1024 columns": lambda r: lines([",".join(str(r.randrange(2)) for _ in range(1024)) for _ in range(2)]),
    "one line": lambda r: ",".join(str(r.randrange(2)) for _ in range(50)),
    "trailing commas": lambda r: lines([f"{r.randrange(2)}," for _ in range(50)]),
    "ragged": lambda r: lines([str(r.randrange(2)) for _ in range(50)] + ["0,1"] + ["1"] * 3),
    "no separators": lambda r: "".join(str(r.randrange(2)) for _ in range(60)),
    "no separators, two lines of one": lambda r: lines(["0110100110010110"] * 2),
    "undecodable": lambda r: b"0\n1\n\xff\xfe\n" + b"0\n1\n" * 10,
    "utf-16": lambda r: "0\n1\n0\n1\n".encode("utf-16"),
    "a pickle": lambda r: pickle.dumps([0, 1, 0, 1]),
    "header": lambda r: lines(["bits"] + seq(r, 60, ["0", "1"])),
    "comment": lambda r: lines(["# bits"] + seq(r, 60, ["0", "1"])),
    "open quote": lambda r: lines(['"0'] + seq(r, 60, ["0", "1"])),
}
MULTI = {"two columns": 2, "five columns": 5, "256 columns": 256, "1024 columns": 1024, "one line": 50, "trailing commas": 2}
# what pandas cannot make a table of is refused by other errors
UNPARSABLE = ["empty", "blank lines", "spaces", "ragged", "undecodable", "utf-16", "a pickle", "open quote", "only missing values"]
BINARY = {
    "empty": lambda r: b"",
    "zeroes": lambda r: b"\x00" * r.choice([1, 2, 100, 5000, 8192, 65536, 70001, 131072]),
    "ones": lambda r: b"\xff" * r.choice([1, 2, 100, 5000, 8192, 65536, 70001, 131072]),
}


class Other:
    def __init__(self):
        self.data = [1]


def results_kinds(good):
    """Contents which are no results, given those of a good file"""
    return {
        "empty": b"",
        "text": b"0\n1\n0\n",
        "html": b"<html></html>",
        "zeroes": b"\x00" * 1000,
        "half": good[: len(good) // 2],
        "all but the last byte": good[:-1],
        "first byte": good[:1],
        "without its head": good[10:],
        "reversed": good[::-1],
        "pickled None": pickle.dumps(None),
        "pickled dict": pickle.dumps({"series": [0, 1], "results": {}}),
        "pickled list": pickle.dumps([1, 2]),
        "pickled series": pickle.dumps(pd.Series([0, 1])),
        "pickled frame": pickle.dumps(pd.DataFrame({"x": [0, 1]})),
        "pickled array": pickle.dumps(np.arange(3)),
        "pickled string": pickle.dumps("results"),
        "pickled tuple": pickle.dumps((pd.Series([0, 1]), {})),
        "unknown class": b"cnowhere\nNothing\n.",
        "unknown attribute": b"ccoinflip.cli.report\nNothing\n.",
        "json": b'{"series": [0, 1], "results": {}}',
        "utf-16": "results".encode("utf-16"),
        "gzip": b"\x1f\x8b\x08\x00" + good[:200],
    }


# arguments (DATA and RESULTS are files with valid contents) and whether they are valid
OPTIONS = [
    (["run"], False),
    (["run", "DATA", "out", "more"], False),
    (["run", "--nope", "DATA", "out"], False),
    (["run", "missing", "out"], False),
    (["run", "-b", "missing", "out"], False),
    (["run", "SUB", "out"], False),
    (["run", "-b", "SUB", "out"], False),
    (["run", "DATA", "missing/out"], False),
    (["run", "DATA", "SUB"], False),
    (["run", "DATA", "DATA/out"], False),
    (["run", "--binary=yes", "DATA", "out"], False),
    (["read"], False),
    (["read", "missing"], False),
    (["read", "SUB"], False),
    (["read", "RESULTS", "more"], False),
    (["read", "--nope", "RESULTS"], False),
    (["report"], False),
    (["report", "missing", "out.html"], False),
    (["report", "SUB", "out.html"], False),
    (["report", "RESULTS", "missing/out.html"], False),
    (["report", "RESULTS", "SUB"], False),
    (["report", "RESULTS", "out.html", "more"], False),
    (["report", "--nope", "RESULTS", "out.html"], False),
    (["example-run", "-e", "nope"], False),
    (["example-run", "-e", "mersenne"], False),
    (["example-run", "-e"], False),
    (["example-run", "-t", "nope"], False),
    (["example-run", "-t", "Monobit"], False),
    (["example-run", "-t", "exceptions"], False),
    (["example-run", "-n", "abc"], False),
    (["example-run", "-n", "1.5"], False),
    (["example-run", "-n", "0"], False),
    (["example-run", "-n", "1"], False),
    (["example-run", "-n", "-5"], False),
    (["example-run", "-e", "Mersenne", "-n", "1", "-t", "monobit"], False),
    (["example-run", "-e", "Mersenne", "-n", "64", "-t", "longest_runs"], False),
    (["example-run", "more"], False),
    (["nope"], False),
    (["--nope"], False),
    (["run", "DATA", "NEW"], True),
    (["run", "-b", "DATA", "NEW"], True),
    (["run", "--binary", "DATA", "NEW"], True),
    (["read", "RESULTS"], True),
    (["report", "RESULTS", "NEW"], True),
    (["example-run", "-e", "Mersenne", "-n", "64"], True),
    (["example-run", "-e", "Mersenne", "--length", "200", "--test", "runs"], True),
    (["example-run", "--example", "Python", "-t", "cusum"], True),
    (["--help"], True),
    (["-h"], True),
    (["run", "-h"], True),
    (["read", "--help"], True),
    (["report", "-h"], True),
    (["example-run", "-h"], True),
]


def plan(rng, tier):
    quick = tier == "quick"
    cases = []
    for kind in TEXT:
        for _ in range(3 if quick else 40):
            cases.append({"k": "data", "binary": False, "kind": kind, "seed": rng.randrange(1 << 30), "out": rng.choice(["new", "existing", "default"])})
    for kind in ("a third value", "a missing value", "a third word"):
        for _ in range(4 if quick else 40):
            cases.append({"k": "data", "binary": False, "kind": kind, "seed": rng.randrange(1 << 30), "out": rng.choice(["new", "existing", "default"])})
    for kind in BINARY:
        for _ in range(14 if quick else 40):
            cases.append({"k": "data", "binary": True, "kind": kind, "seed": rng.randrange(1 << 30), "out": rng.choice(["new", "existing", "default"])})
    for _ in range(12 if quick else 40):
        cases.append({"k": "data", "binary": False, "kind": rng.choice(["one value", "one value, several spellings"]), "seed": rng.randrange(1 << 30), "out": rng.choice(["new", "existing", "default"])})
    for third in ("a", "", "2", "0.5", "nan"):
        cases.insert(0, {"k": "large", "third": third, "n": 300000, "seed": rng.randrange(1 << 30)})
    for out in ("new", "existing", "default"):
        cases.append({"k": "results", "out": out, "spec": B.rand_spec(rng, rng.choice([20, 200]))})
    for i in range(len(OPTIONS)):
        cases.append({"k": "options", "which": i, "spec": {"g": "random", "n": 160, "seed": rng.randrange(1 << 30)}})
    for _ in range(10 if quick else 100):
        cases.append({"k": "good", "spec": B.rand_spec(rng, rng.choice([2, 3, 8, 100])), "binary": rng.random() < 0.3})
    return cases


def run(case, obs):
    cli.warm()
    {"data": data, "large": large, "results": results, "options": options, "good": good}[case["k"]](case, obs)


def refused(r, d, before, obs, case, what):
    after = d.listing()
    bad = None
    if r.code == 0:
        bad = f"exit code 0, printed {r.out[-200:]!r}"
    elif r.code < 0:
        bad = f"ended by signal {-r.code}"
    elif after != before:
        new = sorted(set(after) - set(before)) or "none"
        gone = [x for x in before if x not in after or before[x] != after[x]]
        bad = f"files created: {new}, files changed or removed: {gone}"
    elif r.opened:
        bad = f"opened {r.opened} in a browser"
    if bad:
        obs.fail(f"{what}: {bad}", replay=case)
    obs.count("refusals of commands")
    return bad


def outs(case, d):
    if case["out"] == "existing":
        d.file("results", b"kept " * 100)
        return ["results"]
    return ["results"] if case["out"] == "new" else []


def data(case, obs):
    import random

    rng = random.Random(case["seed"])
    contents = (BINARY if case["binary"] else TEXT)[case["kind"]](rng)
    with cli.Scratch() as d:
        d.file("data", contents)
        args = ["run", "data"] + outs(case, d) + (["-b"] if case["binary"] else [])
        before = d.listing()
        r = cli.invoke(args, d.path)
        bad = refused(r, d, before, obs, case, f"coinflip {' '.join(args)}, data: {case['kind']} {contents[:60]!r}")
        told = re.sub(r"\s+", " ", r.out)
        if not bad and case["kind"] in MULTI and str(MULTI[case["kind"]]) not in told:
            obs.fail(f"data: {case['kind']}: the refusal does not state the number of columns: {r.out[-200:]!r}", replay=case)
        if not bad and any(title in r.out for title in cli.NAMES):
            obs.fail(f"data: {case['kind']}: tests were run", replay=case)
        # the function behind it refuses as documented, its callers rely on that
        if not bad and (case["binary"] or case["kind"] not in UNPARSABLE):
            from coinflip.cli import parsing

            o = observe(parsing.parse_binary if case["binary"] else parsing.parse_text, d / "data")
            want = ["MultipleColumnsError"] if case["kind"] in MULTI else ["NonBinarySequenceError"]
            if not is_refusal(o.exc, want):
                obs.fail(f"parsing of data: {case['kind']} {contents[:60]!r}: {o!r}, {want[0]} is due", replay=case)
            obs.count("refusals of the parsers")
    obs.count(f"{'binary' if case['binary'] else 'text'} data: {case['kind']}")
    obs.seen(("data", case["binary"], contents), sample={"kind": case["kind"], "data": repr(contents[:50])})


def large(case, obs):
    rs = np.random.RandomState(case["seed"] % 2 ** 32)
    tokens = [str(b) for b in rs.randint(0, 2, size=case["n"])]
    tokens[-1 - rs.randint(100)] = '"' + case["third"] + '"'
    with cli.Scratch() as d:
        d.file("data", lines(tokens))
        before = d.listing()
        r = cli.invoke(["run", "data", "results"], d.path)
        refused(r, d, before, obs, case, f"{case['n']} values, of which one of the last is {case['third']!r}")
    obs.count("large data")
    obs.seen(("large", case["third"], case["seed"]))


def good_results(d, spec):
    from coinflip import randtests
    from coinflip.cli.report import store_results

    series = pd.Series(B.make(spec).tolist())
    found = {}
    for t in ("monobit", "runs", "cusum", "serial"):
        o = observe(getattr(randtests, t), series)
        if o.exc is None:
            found[t] = o.value
    store_results(series, found, d / "good")


def results(case, obs):
    with cli.Scratch() as d:
        good_results(d, case["spec"])
        with open(d / "good", "rb") as f:
            kinds = results_kinds(f.read())
        out = {"new": ["out.html"], "existing": ["results"], "default": []}[case["out"]]
        if case["out"] == "existing":
            d.file("results", b"kept " * 100)
        for kind, contents in kinds.items():
            d.file("bad", contents)
            before = d.listing()
            for args in (["read", "bad"], ["report", "bad"] + out):
                r = cli.invoke(args, d.path)
                refused(r, d, before, obs, case, f"coinflip {' '.join(args)}, contents: {kind}")
                obs.seen(("results", args[0], contents))
            obs.count("contents which are no results")
            if obs.failed:
                return
        for args in (["read", "good"], ["report", "good", "fine.html"]):
            r = cli.invoke(args, d.path)
            if r.code:
                obs.fail(f"coinflip {' '.join(args)}, contents: good: {r!r}", replay=case)
            obs.count("valid commands")


def options(case, obs):
    import os

    args, valid = OPTIONS[case["which"]]
    with cli.Scratch() as d:
        bits = B.make(case["spec"]).tolist()
        d.file("DATA", lines([str(b) for b in bits]))
        good_results(d, case["spec"])
        os.rename(d / "good", d / "RESULTS")
        os.mkdir(d / "SUB")
        before = d.listing()
        r = cli.invoke(args, d.path)
        what = "coinflip " + " ".join(args)
        if valid:
            after = d.listing()
            created = set(after) - set(before)
            if r.code:
                obs.fail(f"{what}: {r!r}", replay=case)
            elif created != ({"NEW"} & set(args)) or any(after[x] != before[x] for x in before):
                obs.fail(f"{what}: created {created}, or changed files", replay=case)
            obs.count("valid commands")
        else:
            refused(r, d, before, obs, case, what)
            obs.count("invalid options")
    obs.seen(("options", what))


def good(case, obs):
    bits = B.make(case["spec"])
    with cli.Scratch() as d:
        if case["binary"]:
            contents = np.packbits(bits.astype(np.uint8)).tobytes()
            if contents.count(b"\xff") == len(contents) or not any(contents):
                contents += b"\x0f"
        else:
            contents = lines([str(b) for b in bits.tolist()])
        d.file("data", contents)
        args = ["run", "data", "results"] + (["-b"] if case["binary"] else [])
        r = cli.invoke(args, d.path)
        if r.code or set(d.listing()) != {"data", "results"}:
            obs.fail(f"coinflip {' '.join(args)}, {len(bits)} valid values: {r!r}, files {sorted(d.listing())}", replay=case)
    obs.count("valid commands")
    obs.seen(("good", str(case["spec"]), case["binary"]))


def goals(counters, tier):
    want = {f"text data: {k}": 3 for k in TEXT}
    want.update({f"binary data: {k}": 4 for k in BINARY})
    want.update({"large data": 5, "contents which are no results": 60, "invalid options": 35, "valid commands": 25, "refusals of the parsers": 50})
    return need_all(counters, want)
