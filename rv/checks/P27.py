"""Calls release what they take"""
import contextlib
import gc
import itertools
import os
import random
import tempfile
import threading
import time
import tracemalloc
import warnings

import numpy as np
import pandas as pd

from rv import bits as B
from rv import calls, cli, oracle, reps
from rv.calls import need_all
from rv.core import HarnessError

PID = "P27"
LEVEL = "exploration"
TASKS_PER_CHILD = 1
RULE = (
    "Batches of calls on ever new sequences, of each test and its reference implementation, with default and seeded parameters, values and "
    "containers, refused calls among them, and of the functions behind the commands (parsing, running, storing, loading, reporting, "
    "printing), failures among them. After each batch the memory which Python objects take, the open file descriptors, threads, children, files of the "
    "temporary directory and warnings of unclosed files are compared with those before. Distinct by function and batch."
)
ASSUMPTIONS = [
    "memory which is held after a number of calls, and which grows by more than 1.5 KB a call in each of four batches and still after 6000 more (or 90 s), is not released "
    "(each sequence takes at least 4.8 KB)",
]
N = 600
BATCHES = 4
GROWTH = 1500  # bytes a call
NAMES = {"directory", "data", "out", "bad", "cut", "page"}  # files which the workload makes or asks for


def plan(rng, tier):
    quick = tier == "quick"
    size = 24 if quick else 150
    cases = []
    for test in oracle.TESTS:
        for kind in ("defaults", "varied", "reference") if quick else ("defaults", "varied", "reference", "defaults", "varied"):
            cases.append({"k": kind, "test": test, "seed": rng.randrange(1 << 30), "size": size})
    for what in COMMANDS:
        cases.append({"k": "command", "what": what, "seed": rng.randrange(1 << 30), "size": 8 if what == "run all" and quick else size})
    return cases


def run(case, obs):
    cli.warm()
    rng = random.Random(case["seed"])
    old = tempfile.tempdir
    with cli.Scratch() as d:
        d.problems = []
        tempfile.tempdir = d.path  # of the code's temporary files
        os.chdir(d.path)
        os.mkdir("directory")
        try:
            if case["k"] == "command":
                once = COMMANDS[case["what"]](rng, d)
                what = case["what"]
            else:
                once = test_call(case, rng)
                what = f"{case['test']} ({case['k']})"
            watch(case, obs, once, what, d)
        finally:
            tempfile.tempdir = old
            os.chdir("/")


def held():
    fds = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            fds.append((int(fd), os.readlink(f"/proc/self/fd/{fd}")))
        except OSError:
            pass  # the one of listdir()
    path = f"/proc/self/task/{os.getpid()}/children"
    with open(path if os.path.exists(path) else os.devnull) as f:
        children = f.read().split()
    return {"open files": sorted(fds), "threads": sorted(t.name for t in threading.enumerate()), "children": children}


def watch(case, obs, once, what, d):
    size = case["size"]
    outcomes = {True: 0, False: 0}

    def batch(k):
        for _ in range(k):
            outcomes[bool(once())] += 1

    batch(max(size // 2, 6))  # caches of a fixed size fill up
    before, files = held(), set(os.listdir(d.path))
    tracemalloc.start()
    try:
        batch(3)
        growth, last = [], None
        for i in range(BATCHES + 1):
            gc.collect()
            now = tracemalloc.get_traced_memory()[0]
            if last is not None:
                growth.append(now - last)
            last = now
            if i < BATCHES:
                with warnings.catch_warnings(record=True) as caught:
                    warnings.simplefilter("ignore")
                    warnings.simplefilter("always", ResourceWarning)
                    batch(size)
                    gc.collect()
                unclosed = [str(w.message) for w in caught if issubclass(w.category, ResourceWarning)]
                del caught
                if unclosed:
                    obs.fail(f"{what}: files are left unclosed: {unclosed[:2]}"[:500], replay=case)
                    return
                obs.count("batches of calls after which resources were compared")
                obs.seen((what, str(case["seed"]), i), sample={"what": what, "calls": size})
        if min(growth) > GROWTH * size:
            growth += still(batch, size)
    finally:
        tracemalloc.stop()
    if d.problems:
        obs.fail(f"{what}: {d.problems[0]}", replay=case)
        return
    after = held()
    for k in before:
        if after[k] != before[k]:
            obs.fail(f"{what}: {k} {before[k]} before, {after[k]} after {size * BATCHES} calls"[:500], replay=case)
            return
    left = set(os.listdir(d.path)) - NAMES | set(os.listdir(d / "directory"))
    if left or set(os.listdir(d.path)) != files:
        obs.fail(f"{what}: leaves files {left or set(os.listdir(d.path)) ^ files} behind"[:500], replay=case)
        return
    obs.seen((what, str(case["seed"]), "growth"), sample={"what": what, "growth of memory in bytes by batch": growth, "calls in each": size})
    if min(growth) > GROWTH * size:
        obs.fail(f"{what}: memory grows with each batch of {size} calls, by {growth} bytes", replay=case)
        return
    obs.count("calls observed", sum(outcomes.values()))
    obs.count("calls which gave something", outcomes[True])
    obs.count("calls refused or failed", outcomes[False])


def still(batch, size):
    """The growth after as many calls as fill up any cache with a limit worth the name"""
    start, done = time.process_time(), 0
    while done < 6000 and time.process_time() - start < 90:
        batch(size)
        done += size
    gc.collect()
    before = tracemalloc.get_traced_memory()[0]
    batch(size)
    gc.collect()
    return [tracemalloc.get_traced_memory()[0] - before]


def new_bits(rng, n=None):
    n = n or rng.randrange(N, N + 60)
    bits = [rng.getrandbits(1) for _ in range(n)]
    bits[:2] = [0, 1]
    return bits


def test_call(case, rng):
    from coinflip import randtests, randtests_refimpl

    test, kind = case["test"], case["k"]
    func = getattr(randtests_refimpl if kind == "reference" else randtests, test, None)
    if func is None:
        raise HarnessError(f"no {kind} of {test}")

    given = {}
    if kind == "reference":  # needs every parameter
        given = {
            "frequency_within_block": {"blocksize": 20},
            "binary_matrix_rank": {"matrix_dimen": (4, 4)},
            "non_overlapping_template_matching": {"template_size": 3, "blocksize": 60},
            "overlapping_template_matching": {"template_size": 3, "blocksize": 60},
            "maurers_universal": {"blocksize": 3, "init_nblocks": 20},
            "linear_complexity": {"blocksize": 30},
            "serial": {"blocksize": 4},
            "approximate_entropy": {"blocksize": 4},
        }.get(test, {})

    def once():
        bits = new_bits(rng)
        kwargs = dict(given)
        if kind == "varied":
            kwargs = calls.fix_kwargs(calls.rand_kwargs(rng, test, len(bits)))
            if kwargs.get("template_size", 0) > 5:
                kwargs["template_size"] = 5
            bits = reps.make(np.array(bits, dtype=np.int8), rng.choice(["01", "floats", "a b", "bools"]), rng.choice(["list", "series", "tuple", "object array"]))
            if rng.random() < 0.2:
                bits = list(bits)[:1] * N  # is refused
        try:
            func(bits, **kwargs)
            return True
        except Exception:
            return False

    return once


# ------------------------------------------------------------------------------
# Functions behind the commands


def data(rng, d, name="data"):
    return d.file(name, "".join(f"{b}\n" for b in new_bits(rng)))


def parse(rng, d):
    from coinflip.cli.parsing import parse_text

    def once():
        bad = rng.random() < 0.3
        path = d.file("data", rng.choice(["1\n" * 90, "1,2\n" * 90, "", "1\n1,2\n"])) if bad else data(rng, d)
        try:
            return len(parse_text(path)) > 0
        except Exception:
            return False

    return once


def parse_bits(rng, d):
    from coinflip.cli.parsing import parse_binary

    def once():
        path = d.file("data", b"\0" * 300 if rng.random() < 0.3 else rng.randbytes(200))
        try:
            return len(parse_binary(path)) > 0
        except Exception:
            return False

    return once


def quietly(func):
    """With what is printed thrown away"""
    import coinflip.cli
    from rich.console import Console

    null = open(os.devnull, "w")
    consoles = [coinflip.cli.console]

    def once():
        for c in consoles:
            c.file, c._force_terminal = null, True  # displays which refresh themselves
        try:
            return func()
        finally:
            for c in consoles:
                c.file, c._force_terminal = None, None

    return once


class Interruption(BaseException):
    pass


def run_all(rng, d):
    """All tests, in part given up midway"""
    from coinflip.cli.runner import run_all_tests

    some = [new_bits(rng, n) for n in (60, 100, 128, 140)]  # the terminal's library keeps texts it has measured

    def once():
        found = run_all_tests(pd.Series(rng.choice(some)))
        how = rng.choice(["all"] * 3 + ["close", "forget", "throw"])
        if how == "all":
            with must(d, "run_all_tests()"):
                return len(list(found)) == 15
        for _ in range(rng.randrange(3)):
            next(found)
        if how == "close":
            found.close()
        elif how == "throw":
            try:
                found.throw(rng.choice([KeyboardInterrupt, ValueError, Interruption]))
            except (KeyboardInterrupt, ValueError, Interruption):
                pass
        return False

    return quietly(once)


@contextlib.contextmanager
def must(d, what):
    """A call which has to succeed, whatever the calls before it came to"""
    try:
        yield
    except (Exception, Interruption) as e:
        d.problems.append(f"{what} with a valid sequence, after calls which were refused or failed: {type(e).__name__}: {e}"[:300])


class Breaking:
    """A column of a display which stops what draws it"""

    def __init__(self, rng):
        self.left = rng.randrange(1, 4)
        self.kind = rng.choice([KeyboardInterrupt, ValueError, Interruption])

    def __call__(self, func):
        def patched(*args, **kwargs):
            self.left -= 1
            if not self.left:
                raise self.kind()
            return func(*args, **kwargs)

        return patched


def run_one(rng, d):
    """A test, its parameters misspelt or refused and its calls interrupted among them"""
    from coinflip.cli.runner import run_test
    from rich.progress import Progress

    some = [new_bits(rng) for _ in range(3)]

    def once():
        series = pd.Series(list(rng.choice(some)))
        test = rng.choice(["monobit", "runs", "serial", "cusum", "spectral"])
        how = rng.choice(["valid"] * 4 + ["none", "misspelt", "refused", "odd", "interrupted", "short"])
        if how == "valid":
            with must(d, "run_test()"):
                return run_test(series, test) is not None
        update = Progress.update
        try:
            if how == "none":
                run_test(series, "nothing")
            elif how == "misspelt":
                run_test(series, test, block_size=3)
            elif how == "refused":
                run_test(series, rng.choice(["frequency_within_block", "serial"]), blocksize=rng.choice([0, -1, 10 ** 6]))
            elif how == "odd":
                run_test(series, rng.choice(["frequency_within_block", "serial"]), blocksize=rng.choice(["3", None, [1], 2.5]))
            elif how == "short":
                run_test(pd.Series([0, 1, 1]), rng.choice(["longest_runs", "binary_matrix_rank", "maurers_universal"]))
            else:
                Progress.update = Breaking(rng)(update)
                run_test(series, rng.choice(["serial", "non_overlapping_template_matching", "maurers_universal"]))
            return True
        except (Exception, KeyboardInterrupt, Interruption):
            return False
        finally:
            Progress.update = update

    return quietly(once)


def results_of(bits):
    from coinflip import randtests

    return {t: getattr(randtests, t)(bits) for t in ("monobit", "runs", "cusum", "serial")}


def store(rng, d):
    from coinflip.cli.report import store_results

    def once():
        bits = new_bits(rng)
        found = results_of(bits)
        if rng.random() < 0.2:
            found["runs"].failures = [lambda: 0]  # cannot be stored
        try:
            store_results(pd.Series(bits), found, d / rng.choice(["out", "out", "nowhere/out", "directory"]))
            return True
        except Exception:
            return False

    return once


def load(rng, d):
    from coinflip.cli.report import load_results, store_results

    bits = new_bits(rng)
    store_results(pd.Series(bits), results_of(bits), d / "out")
    d.file("bad", "no results")
    d.file("cut", open(d / "out", "rb").read()[:-20])

    def once():
        try:
            load_results(d / rng.choice(["out", "out", "bad", "cut", "none"]))
            return True
        except Exception:
            return False

    return once


def web(rng, d):
    from coinflip.cli.report import Report, write_report_doc

    def once():
        bits = new_bits(rng)
        result = results_of(bits)["monobit"]
        if rng.random() < 0.2:
            result.statistic = "no number"  # cannot be drawn
        try:
            write_report_doc(Report(pd.Series(bits), {"monobit": result}), d / rng.choice(["page", "page", "nowhere/page", "directory"]))
            return True
        except Exception:
            return False

    return quietly(once)


def show(rng, d):
    from coinflip.cli.pprint import print_series
    from coinflip.cli.runner import print_results

    some = [new_bits(rng) for _ in range(4)]

    def once():
        bits = list(rng.choice(some))
        print_series(pd.Series(bits))
        print_results(results_of(bits))
        return True

    return quietly(once)


class Weighty(str):
    """A value with a load, which only is held as long as the value itself"""

    def __new__(cls, text):
        self = super().__new__(cls, text)
        self.load = bytearray(20000)
        return self


def values(rng, d):
    """Ever new values stand for the bits"""
    import pickle

    from coinflip import randtests
    from coinflip.cli.pprint import print_series

    made = itertools.count()

    def once():
        k = next(made)
        tails, heads = Weighty(f"a{k}"), Weighty(f"b{k}")
        bits = [(tails, heads)[b] for b in new_bits(rng, 140)]
        print_series(pd.Series(bits))
        for test, kwargs in [("runs", {}), ("longest_runs", {}), ("non_overlapping_template_matching", {"template_size": 2}), ("maurers_universal", {}), ("overlapping_template_matching", {}), ("serial", {})]:
            found = getattr(randtests, test)(bits, **kwargs)
            if not str(found) or type(pickle.loads(pickle.dumps(found))) is not type(found):
                return False
        return True

    return quietly(once)


def generate(rng, d):
    from coinflip.generators import Mersenne, Python

    def once():
        g = rng.choice([Mersenne, Python])()
        return len([next(g) for _ in range(N)]) == N

    return once


def structures(rng, d):
    from coinflip.collections import Bins, FloorDict, defaultlist

    def once():
        b = Bins(rng.sample(range(10 ** 6), 200))
        f = FloorDict({rng.randrange(10 ** 6): i for i in range(200)} | {0: 0})
        x = defaultlist(int)
        for _ in range(100):
            b[rng.randrange(10 ** 6)] += 1
            f[rng.randrange(10 ** 6)]
            x[rng.randrange(10 ** 3)] = 1
        return len(b) > 0 and len(x) > 0

    return once


def algorithms(rng, d):
    from coinflip.algorithms import berlekamp_massey, matrix_rank

    def once():
        bits = new_bits(rng)
        return berlekamp_massey(tuple(bits)) > 0 and matrix_rank([bits[i : i + 20] for i in range(0, 400, 20)]) > 0

    return once


COMMANDS = {
    "parse_text": parse,
    "parse_binary": parse_bits,
    "run all": run_all,
    "run one": run_one,
    "store": store,
    "load": load,
    "report": web,
    "print": show,
    "values": values,
    "generators": generate,
    "collections": structures,
    "algorithms": algorithms,
}


def goals(counters, tier):
    return need_all(
        counters,
        {
            "batches of calls after which resources were compared": 200,
            "calls observed": 4000,
            "calls which gave something": 3000,
            "calls refused or failed": 200,
        },
    )
