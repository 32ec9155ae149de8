"""Runs a job in the interpreter and environment it is started in, and writes what came of it (see checks/P28)

usage: python envdriver.py SRC JOB OUT
"""
import sys

if __name__ == "__main__":
    import json
    import os

    src, job, out = sys.argv[1:4]
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path[:] = [src, os.path.dirname(here)] + [p for p in sys.path if os.path.abspath(p or ".") != here]
    with open(job, encoding="utf-8") as f:
        job = json.load(f)
    exec(job["before"], {})


def values_of(kind, bits):
    import datetime
    import decimal

    low, high = {
        "01": (0, 1), "bools": (False, True), "words": ("heads", "tails"), "letters": ("x", "b"), "long words": ("q" * 50, "p" * 70),
        "floats": (0.1, -2.5), "large": (10 ** 18, 10 ** 18 + 1), "decimals": (decimal.Decimal("0.10"), decimal.Decimal("1.5")),
        "dates": (datetime.date(2020, 1, 2), datetime.date(1999, 12, 31)), "mixed": (-3, 0.5), "bytes": (b"\x00", b"a"), "tuples": ((1, 2), (0,)),
    }[kind]
    return [high if b else low for b in bits]


def tests(job):
    import pandas as pd

    from coinflip import randtests
    from rv import fingerprint
    from rv.monitor import observe

    found = []
    for kind, bits, container, todo in job["sequences"]:
        for test, kwargs in todo:
            values = values_of(kind, bits)
            if container == "tuple":
                values = tuple(values)
            elif container == "series":
                values = pd.Series(values)
            if "template" in kwargs:
                kwargs = dict(kwargs, template=tuple(kwargs["template"]))
            o = observe(getattr(randtests, test), values, **kwargs)
            told = [str(w.message) for w in o.warnings if w.category is UserWarning]
            found.append([f"{test}({kind} x {len(bits)} in {container}, {kwargs})", repr(fingerprint.outcome_fp(o)), told])
    return found


def refimpl(job):
    from coinflip import randtests_refimpl
    from rv.monitor import observe

    found = []
    for bits in job["reference"]:
        for test in job["tests"]:
            o = observe(getattr(randtests_refimpl, test), bits)
            found.append([f"reference {test}({len(bits)} bits)", repr(o.value) if o.exc is None else type(o.exc).__name__])
    return found


def commands(job):
    import io
    import traceback
    import webbrowser

    from coinflip.cli.commands import main
    from coinflip.cli.report import load_results
    from rv import fingerprint

    class Stub(webbrowser.BaseBrowser):
        def open(self, url, *args, **kwargs):
            return True

    webbrowser.register("rv", None, Stub("rv"), preferred=True)
    found = []
    for args in job["commands"]:
        kept = sys.stdout, sys.stderr, sys.stdin
        sys.stdout = io.TextIOWrapper(io.BytesIO(), encoding="utf-8")
        sys.stderr = io.TextIOWrapper(io.BytesIO(), encoding="utf-8")
        try:
            main.main(args=args, prog_name="coinflip")
            code = 0
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else int(e.code is not None)
        except Exception:
            code = traceback.format_exc(limit=-1)
        finally:
            sys.stdout.flush()
            told = sys.stdout.buffer.getvalue().decode("utf-8")
            sys.stdout, sys.stderr, sys.stdin = kept
        found.append([f"coinflip {' '.join(args)}", code, told])
        if args[0] == "run" and not code and len(args) > 2:
            report = load_results(args[2])
            found.append([f"results of coinflip {' '.join(args)}", repr(fingerprint.fp(report.series)), repr(fingerprint.fp(report.results))])
        if args[0] == "report" and not code and len(args) > 2:
            with open(args[2], encoding="utf-8") as f:
                found.append([f"page of coinflip {' '.join(args)}", f.read()])
    return found


def functions(job):
    """What the commands do, without click, which needs a Unicode locale"""
    import io

    from rich.console import Console

    from coinflip.cli import parsing, report, runner
    from rv import fingerprint
    from rv.monitor import observe

    folder = job["folder"]
    found = []
    for name, parse in (("umlauts.txt", parsing.parse_text), ("words.txt", parsing.parse_text), ("bits.dat", parsing.parse_binary), ("bad.txt", parsing.parse_text)):
        o = observe(parse, os.path.join(folder, name))
        found.append([f"parse {name}", repr(fingerprint.outcome_fp(o))])
        if o.exc is not None:
            continue
        paths = os.path.join(folder, name + ".stored"), os.path.join(folder, name + ".page")
        kept = sys.stdout
        sys.stdout = io.TextIOWrapper(io.BytesIO(), encoding="utf-8")
        try:
            results = {t: r for t, r, e in runner.run_all_tests(o.value) if e is None}
            report.store_results(o.value, results, paths[0])
            back = report.load_results(paths[0])
            report.write_report_doc(back, paths[1])
            sys.stdout.flush()
            told = sys.stdout.buffer.getvalue().decode("utf-8")
        finally:
            sys.stdout = kept
        with open(paths[1], "rb") as f:
            page = f.read().decode("utf-8", "backslashreplace")
        found.append([f"run_all_tests() on {name}", repr(fingerprint.fp(results)), told])
        found.append([f"load_results() of {name}", repr(fingerprint.fp(back.series)), repr(fingerprint.fp(back.results))])
        found.append([f"write_report_doc() of {name}", page])
        for t, r in back.results.items():
            text = io.StringIO()
            Console(file=text, width=100).print(r)
            found.append([f"printed result of {t} on {name}", text.getvalue(), str(r)])
    return found


if __name__ == "__main__":
    import coinflip

    if not os.path.realpath(coinflip.__file__).startswith(os.path.realpath(src) + os.sep):
        sys.exit(f"coinflip was imported from {coinflip.__file__}")
    import coinflip.cli.commands  # noqa: F401
    import coinflip.randtests_refimpl  # noqa: F401

    exec(job["after"], {})
    outcomes = []

    def work():
        outcomes.extend(tests(job) + refimpl(job) + functions(job) + commands(job))

    if job["thread"]:
        import threading

        thread = threading.Thread(target=work)
        thread.start()
        thread.join()
    else:
        work()
    with open(out, "w", encoding="utf-8") as f:
        json.dump(outcomes, f)
