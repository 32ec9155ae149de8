"""Commands which cannot store their output do not claim success"""
import os
import signal
import stat

import pandas as pd

from rv import bits as B
from rv import cli, oracle
from rv.calls import need_all
from rv.core import HarnessError
from rv.fingerprint import difference, fp
from rv.monitor import observe

PID = "P23"
LEVEL = "fault_enumeration"
RULE = (
    "Faults injected into the writing of results and reports: a limit on the size of files at every byte of small outputs (at a "
    "stride for the commands and for larger outputs), a full device, missing and unwritable directories and files (as an "
    "unprivileged user), a directory in place of the file, interruption after every few milliseconds; and results files cut off "
    "at every byte. An exit code of zero has to come with a complete file that reads back as the results. Distinct by fault."
)
ASSUMPTIONS = [
    "the file system reports failures of write() and close(); faults of the storage behind it are not considered",
    "an output which exists already is allowed to be lost when writing it fails half-way",
]
NOBODY = 65534


def plan(rng, tier):
    quick = tier == "quick"
    cases = []
    for n, stride in ((12, 1), (200, 97)) if quick else ((12, 1), (40, 1), (200, 7), (3000, 1009)):
        spec = B.rand_spec(rng, n)
        parts = 8 if quick else 16
        for part in range(parts):
            cases.append({"k": "limit", "what": "store", "spec": spec, "stride": stride * parts, "offset": part * stride})
            wider = max(stride, 29) if quick else stride  # a chart is made for each
            cases.append({"k": "limit", "what": "report", "spec": spec, "stride": wider * parts, "offset": part * wider})
            cases.append({"k": "cut", "spec": spec, "stride": stride * parts, "offset": part * stride})
    spec = B.rand_spec(rng, 20)
    steps = 24 if quick else 200
    for i in range(steps + 1):
        cases.append({"k": "command limit", "spec": spec, "permille": 1000 * i // steps, "out": ["named", "default"][i % 2]})
    for i in range(4 if quick else 40):
        cases.append({"k": "command limit", "spec": B.rand_spec(rng, 1500), "permille": rng.randrange(1000), "out": "named"})
    for i in range(16 if quick else 150):
        cases.append({"k": "command cut", "spec": spec, "permille": 1000 * i // (16 if quick else 150)})
    for fault in FAULTS:
        for command in ("run", "run binary", "report"):
            for _ in range(1 if quick else 5):
                cases.append({"k": "fault", "fault": fault, "command": command, "spec": B.rand_spec(rng, 8 * rng.randrange(2, 20))})
    for i in range(24 if quick else 300):
        cases.append({"k": "interrupt", "spec": spec, "at": 0.002 + 0.18 * rng.random(), "command": ["run", "report", "run"][i % 3],
                      "how": ["int", "term"][i % 2]})
    return cases


def run(case, obs):
    cli.warm()
    {"limit": limit, "cut": cut, "command limit": command_limit, "command cut": command_cut, "fault": fault, "interrupt": interrupt}[case["k"]](case, obs)


def made(spec):
    from coinflip import randtests

    series = pd.Series(B.make(spec).tolist())
    results = {}
    for t in cli.TITLES:
        o = observe(getattr(randtests, t), series)
        if o.exc is None:
            results[t] = o.value
    return series, results


def reads_back(path, series, results):
    """Whether a file holds all of the results"""
    from coinflip.cli.report import load_results

    o = observe(load_results, path)
    if o.exc is not None:
        return f"the file cannot be read: {o!r}"
    d = difference(fp(series), fp(o.value.series), "series") or difference(fp(results), fp(o.value.results))
    return d and f"the file differs: {d}"


def limit(case, obs):
    """Every limit on the size of the file, for the functions behind the commands"""
    from coinflip.cli import report as R

    series, results = made(case["spec"])
    if case["what"] == "report":
        results = {t: r for t, r in results.items() if t in ("monobit", "runs")}
    with cli.Scratch() as d:
        R.store_results(series, results, d / "stored")
        report = R.load_results(d / "stored")

        def write(path):
            if case["what"] == "store":
                R.store_results(series, results, path)
            else:
                R.write_report_doc(report, path)

        def work():
            write("whole")
            size = os.path.getsize("whole")
            whole = open("whole", "rb").read()
            with open("log", "w") as log:
                import resource

                for at in [*range(case["offset"], size - 1, case["stride"]), size - 1, size + 40]:
                    resource.setrlimit(resource.RLIMIT_FSIZE, (at, resource.RLIM_INFINITY))
                    try:
                        write("part")
                        ok = True
                    except Exception as e:
                        ok = False
                        kind = type(e).__name__
                    finally:
                        resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
                    # charts are named by counters, so a report differs in a few bytes
                    got = open("part", "rb").read() if os.path.exists("part") else b""
                    complete = got == whole if case["what"] == "store" else (
                        len(got) >= size - 60 and got.rstrip().endswith(b"</html>"))
                    log.write(f"{at} {int(ok)} {int(complete)} {'-' if ok else kind}\n")
                    if os.path.exists("part"):
                        os.unlink("part")

        r = cli.call(work, d.path, stdout="/dev/null")
        if r.code:
            raise HarnessError(f"{r!r} {r.err[-500:]}")
        with open(d / "log") as f:
            rows = [line.split() for line in f]
        if case["what"] == "store":
            bad = reads_back(d / "whole", series, results)
            if bad:
                obs.fail(f"without a fault: {bad}", replay=case)
        size = os.path.getsize(d / "whole")
    for at, ok, complete, kind in rows:
        at = int(at)
        if ok == "1" and complete == "0":
            obs.fail(f"{case['what']}: with files limited to {at} of {size} bytes, no error is raised, but the file is not complete", replay=case)
        if ok == "0" and at >= size + 30:
            obs.fail(f"{case['what']}: with files limited to {at} bytes, of which {size} are needed, {kind} is raised", replay=case)
        obs.count(f"{case['what']}: limits that {'let it pass' if ok == '1' else 'make it fail'}")
        obs.seen(("limit", case["what"], str(case["spec"]), at))


def cut(case, obs):
    """Every prefix of a results file"""
    from coinflip.cli.report import load_results, store_results

    series, results = made(case["spec"])
    with cli.Scratch() as d:
        store_results(series, results, d / "whole")
        whole = open(d / "whole", "rb").read()
        for at in range(case["offset"], len(whole), case["stride"]):
            d.file("part", whole[:at])
            o = observe(load_results, d / "part")
            if o.exc is None:
                obs.fail(f"the first {at} of {len(whole)} bytes of a results file were read as {o.value!r:.100}", replay=case)
                return
            obs.count("prefixes of results files")
            obs.seen(("cut", str(case["spec"]), at))


def text_of(spec):
    return "".join(f"{b}\n" for b in B.make(spec).tolist())


def expected_results(spec):
    bits = B.make(spec)
    return bits.tolist(), [t for t in cli.TITLES if not isinstance(oracle.expect(t, bits, {}), oracle.Refusal)]


def complete_results(path, spec):
    from coinflip.cli.report import load_results

    o = observe(load_results, path)
    if o.exc is not None:
        return f"the results cannot be read: {o!r}"
    values, tests = expected_results(spec)
    if list(o.value.series) != values or list(o.value.results) != tests:
        return f"the results are incomplete: {len(o.value.series)} values, {list(o.value.results)}"
    return None


def complete_report(path):
    with open(path, "rb") as f:
        data = f.read()
    if not data.rstrip().endswith(b"</html>") or b"vegaEmbed" not in data:
        return f"the report is incomplete: {data[-60:]!r}"
    return None


def command_limit(case, obs):
    """Limits on the size of files, for the commands"""
    spec = case["spec"]
    named = ["out"] if case["out"] == "named" else []
    with cli.Scratch() as d:
        d.file("data", text_of(spec))
        r = cli.invoke(["run", "data", "whole"], d.path)
        if r.code:
            obs.fail(f"run without a fault: {r!r}", replay=case)
            return
        r = cli.invoke(["report", "whole", "whole.html"], d.path)
        if r.code:
            obs.fail(f"report without a fault: {r!r}", replay=case)
            return
        for args, whole in ((["run", "data"], "whole"), (["report", "whole"], "whole.html")):
            size = os.path.getsize(d / whole)
            at = size * case["permille"] // 1000 - (1 if case["permille"] == 1000 else 0)
            before = set(d.listing())
            r = cli.invoke(args + named, d.path, fsize=at, stdout="/dev/null")
            new = sorted(set(d.listing()) - before)
            what = f"{args[0]} with files limited to {at} of {size} bytes"
            if r.code == 0:
                path = d / (named or new or ["none"])[0]
                if args[0] == "run":
                    bad = complete_results(path, spec) if os.path.exists(path) else "there is no file"
                else:
                    bad = complete_report(path) if os.path.exists(path) else "there is no file"
                if bad or at < size - 60:
                    obs.fail(f"{what}: exit code 0, {bad or 'the file is complete'}", replay=case)
            if r.code != 0 and r.opened:
                obs.fail(f"{what}: opened {r.opened} in a browser", replay=case)
            for x in new:
                os.unlink(d / x)
            obs.count(f"{args[0]}: {'succeeded' if r.code == 0 else 'failed'} under a limit")
            obs.seen(("command limit", args[0], str(spec), at, case["out"]))


def command_cut(case, obs):
    spec = case["spec"]
    with cli.Scratch() as d:
        d.file("data", text_of(spec))
        r = cli.invoke(["run", "data", "whole"], d.path)
        if r.code:
            obs.fail(f"run without a fault: {r!r}", replay=case)
            return
        whole = open(d / "whole", "rb").read()
        at = len(whole) * case["permille"] // 1000
        d.file("part", whole[:at])
        before = d.listing()
        for args in (["read", "part"], ["report", "part", "new.html"], ["report", "part"]):
            r = cli.invoke(args, d.path)
            if r.code == 0 or d.listing() != before or r.opened:
                obs.fail(f"{' '.join(args)}, of a results file cut off at {at} of {len(whole)} bytes: {r!r}, files {sorted(d.listing())}", replay=case)
            obs.count("commands given a results file cut off")
            obs.seen(("command cut", str(args), at))


def as_nobody(args):
    """The command as an unprivileged user"""
    from coinflip.cli.commands import main

    def work():
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
        main.main(args=args, prog_name="coinflip")

    return work


# fault -> (name of the output or None, as an unprivileged user)
FAULTS = {
    "full device": ("/dev/full", True),  # nobody, who cannot replace it
    "missing directory": ("missing/out", False),
    "is a directory": ("sub", False),
    "below a file": ("data/out", False),
    "name too long": ("x" * 300, False),
    "dangling link": ("dangling", False),
    "link to a full device": ("full", False),
    "link to itself": ("loop", False),
    "unwritable directory": ("sub/out", True),
    "unwritable file": ("locked", True),
    "unwritable working directory": (None, True),
    "none": ("open/out", True),
}


def fault(case, obs):
    spec, command = case["spec"], case["command"]
    out, nobody = FAULTS[case["fault"]]
    with cli.Scratch() as d:
        import numpy as np

        bits = B.make(spec)
        if command == "run binary":
            d.file("data", np.packbits(bits.astype(np.uint8)).tobytes())
        else:
            d.file("data", text_of(spec))
        if command == "report":
            r = cli.invoke(["run", "data", "results"], d.path)
            if r.code:
                obs.fail(f"run without a fault: {r!r}", replay=case)
                return
        os.mkdir(d / "sub")
        os.mkdir(d / "open")
        os.chmod(d / "open", 0o777)
        d.file("locked", b"kept")
        os.chmod(d / "locked", 0o444)
        os.symlink(d / "missing" + "/target", d / "dangling")
        os.symlink("/dev/full", d / "full")
        os.symlink("loop", d / "loop")
        for x in ("sub", "."):
            os.chmod(d / x, 0o555)
        args = {"run": ["run", "data"], "run binary": ["run", "-b", "data"], "report": ["report", "results"]}[command]
        args = args + ([out] if out else [])
        before = listing(d.path)
        if nobody:
            r = cli.call(as_nobody(args), d.path)
        else:
            r = cli.invoke(args, d.path)
        after = listing(d.path)
        what = f"coinflip {' '.join(args)[:80]}, fault: {case['fault']}"
        if case["fault"] == "none":
            if r.code or set(after) - set(before) != {"open/out"}:
                obs.fail(f"{what}: {r!r}", replay=case)
        else:
            if r.code == 0:
                # e.g. a link was replaced by the file
                path = d / (out or "none") if not (out or "").startswith("/") else out
                if not (os.path.lexists(path) and stat.S_ISREG(os.lstat(path).st_mode)):
                    bad = "there is no file"
                else:
                    bad = complete_report(path) if command == "report" else complete_results(path, spec)
                if bad:
                    obs.fail(f"{what}: exit code 0, {bad}", replay=case)
            elif r.code < 0:
                obs.fail(f"{what}: ended by signal {-r.code}", replay=case)
            elif r.opened:
                obs.fail(f"{what}: opened {r.opened} in a browser", replay=case)
            elif "saved to" in r.out:
                obs.fail(f"{what}: tells {r.out[-100:]!r}", replay=case)
            elif {k: v for k, v in after.items() if k in before} != before:
                obs.fail(f"{what}: files which existed changed", replay=case, before=sorted(before), after=sorted(after))
        for x in ("sub", "."):
            os.chmod(d / x, 0o755)
    obs.count(f"fault: {case['fault']}")
    obs.seen(("fault", case["fault"], command, str(spec)))


def listing(path):
    out = {}
    for root, _, names in os.walk(path):
        for name in names:
            p = os.path.join(root, name)
            mode = os.lstat(p).st_mode
            out[os.path.relpath(p, path)] = open(p, "rb").read() if stat.S_ISREG(mode) else os.readlink(p)
    return out


def interrupt(case, obs):
    """Interrupted or terminated at some point"""
    from coinflip.cli.commands import main

    spec = case["spec"]
    with cli.Scratch() as d:
        d.file("data", text_of(spec))
        args = ["run", "data", "out"]
        if case["command"] == "report":
            r = cli.invoke(["run", "data", "results"], d.path)
            if r.code:
                obs.fail(f"run without a fault: {r!r}", replay=case)
                return
            args = ["report", "results", "out"]

        def work():
            def on(signum, frame):
                with open("hit", "w"):
                    pass
                if case["how"] == "int":
                    raise KeyboardInterrupt
                os.kill(os.getpid(), signal.SIGTERM)

            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            signal.signal(signal.SIGALRM, on)
            signal.setitimer(signal.ITIMER_REAL, case["at"])
            try:
                main.main(args=args, prog_name="coinflip")
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)

        r = cli.call(work, d.path)
        hit = os.path.exists(d / "hit")
        if r.code == 0:
            path = d / "out"
            bad = "there is no file" if not os.path.exists(path) else (
                complete_results(path, spec) if case["command"] == "run" else complete_report(path))
            if bad:
                obs.fail(f"coinflip {' '.join(args)}, interrupted after {case['at']:.3f} s: exit code 0, {bad}", replay=case)
        elif not hit:
            obs.fail(f"coinflip {' '.join(args)}, not interrupted: {r!r}", replay=case)
        obs.count("interrupted commands" if hit else "commands which ended before the interruption")
        obs.seen(("interrupt", case["command"], case["how"], case["at"]))


def goals(counters, tier):
    want = {f"fault: {x}": 3 for x in FAULTS}
    want.update({"store: limits that make it fail": 1000, "store: limits that let it pass": 8, "report: limits that make it fail": 300,
                 "report: limits that let it pass": 2, "prefixes of results files": 1000, "run: failed under a limit": 20,
                 "report: failed under a limit": 20, "commands given a results file cut off": 40, "interrupted commands": 1})
    return need_all(counters, want)
