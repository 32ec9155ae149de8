"""Outcomes depend on the sequence and parameters only; inputs stay as they are"""
import os
import pickle
import random
import sys
import threading
import warnings

import numpy as np
import pandas as pd

from rv import bits as B
from rv import calls, oracle, reps
from rv.calls import need_all
from rv.core import HarnessError
from rv.fingerprint import difference, fp, outcome_fp, settings
from rv.monitor import Outcome, call, observe

PID = "P14"
LEVEL = "exploration"
TASKS_PER_CHILD = 1  # no case inherits another one's history
RULE = (
    "Histories of seeded test calls, with values which are equal but of different types, repeated and similar sequences, "
    "shared containers and grids of parameters among them: each call's outcome (every field, to the bit, with types) is compared to the outcome of the same "
    "call alone in a process forked off before; the calls are then repeated in other orders, in concurrent threads with forced "
    "switches, in threads which take turns between lines of coinflip's code as a seeded schedule says, under progress bars, after calls interrupted between lines of coinflip's code, after tampering with earlier results, and with inputs overwritten after the call; process-wide settings (random states, warnings, NumPy, pandas, ...) are compared before and after calls; "
    "non-trivial when the call gives a result, distinct by call and by history."
)
ASSUMPTIONS = ["concurrency is explored through Python threads, with a switch interval of 10 microseconds, and with seeded switches between lines of coinflip's code"]
SHARED = ["list", "tuple", "object array", "series", "series shifted index", "series constant index", "categorical",
          "deque", "series filtered", "series named", "column of a frame"]
FACES = ["01", "floats", "bools", "int and bool", "a b", "beyond float", "12", "empty", "int and float", "same initial"]


def plan(rng, tier):
    quick = tier == "quick"
    cases = []

    def a_call(tests=None):
        test = rng.choice(tests or oracle.TESTS)
        n = rng.choice([128, 130, 160]) if test == "longest_runs" else B.rand_n(rng, 8, 200)
        if rng.random() < 0.15:
            n = B.rand_n(rng, 200, 2000)
        elif rng.random() < 0.03:
            n = calls.some_size(rng, test, 2000, 70000)
        face = rng.choice(FACES)
        return [test, B.rand_spec(rng, n), calls.rand_kwargs(rng, test, n), face, rng.choice(SHARED)]

    for i in range(40 if quick else 400):
        # one test on the same bits with other faces, or a mixture of tests
        if i % 2:
            test, spec, kwargs, _, _ = a_call()
            todo = [[test, spec, kwargs, f, rng.choice(SHARED)] for f in FACES]
            todo += [[test, a_call([test])[1], {}, f, rng.choice(SHARED)] for f in FACES]
            todo = [c for c in todo if usable(c)]
        else:
            todo = [a_call() for _ in range(14)]
            same = a_call()
            others = [a_call([same[0]]) for _ in range(3)]
            todo += others + [[o[0], same[1], {}, same[3], same[4]] for o in others]
            todo = [c for c in todo if usable(c)]
        rng.shuffle(todo)
        cases.append({"k": "history", "calls": todo, "seed": rng.randrange(1 << 30)})
    for test in oracle.TESTS * (1 if quick else 12):
        # one sequence under many parameters, and sequences which are alike (length, counts, ends)
        n = rng.choice([130, 200, 391])
        spec = B.rand_spec(rng, n)
        grid = {
            "frequency_within_block": [{"blocksize": b} for b in (5, 6, 7, 8, 9, 37, 69, 70, 71, 72, 73, 101)],
            "binary_matrix_rank": [{"matrix_dimen": [r, c]} for r in (2, 3, 4, 6) for c in (2, 3, 4, 6)],
            "non_overlapping_template_matching": [
                {"template_size": t, "blocksize": b} for t in (2, 3, 4) for b in (10, 11, 42, 43, 74)
            ],
            "overlapping_template_matching": [
                {"template_size": t, "blocksize": b, "matches_ceil": m} for t in (2, 3) for b in (10, 20, 42, 52, 84) for m in (3, 5, 6)
            ],
            "maurers_universal": [{"blocksize": b, "init_nblocks": i} for b in (1, 2, 3, 4) for i in (1, 2, 5, 8, 13)],
            "linear_complexity": [{"blocksize": b} for b in (4, 5, 6, 7, 8, 36, 37, 68, 69, 70, 100, 101)],
            "serial": [{"blocksize": b} for b in range(1, 10)],
            "approximate_entropy": [{"blocksize": b} for b in range(1, 10)],
            "cusum": [{"reverse": True}, {"reverse": False}],
        }.get(test, [])
        todo = [[test, spec, kw, "01", "list"] for kw in grid + [{}]]
        text = "".join(map(str, B.make(spec)))
        k = rng.randrange(20, 60)
        others = {text[::-1], text[k:] + text[:k], text[:k] + text[k:][::-1], text[:k][::-1] + text[k:],
                  text.replace("0", "x").replace("1", "0").replace("x", "1"), text[:-1], text + "0", text + "1"}
        for t in sorted(others):
            todo.append([test, {"g": "list", "bits": t}, rng.choice(grid + [{}]), "01", rng.choice(["list", "series", "array"])])
            todo.append([test, {"g": "list", "bits": t}, {}, "01", "list"])
        todo = [c for c in todo if usable(c)]
        rng.shuffle(todo)
        cases.append({"k": "history", "calls": todo, "seed": rng.randrange(1 << 30)})
    for _ in range(6 if quick else 60):
        todo = [c for test in oracle.TESTS for c in (a_call([test]), a_call([test])) if usable(c)]
        cases.append({"k": "settings", "calls": rng.sample(todo, len(todo))})
    for i in range(16 if quick else 200):
        todo = [c for c in (a_call() for _ in range(10)) if usable(c)]
        cases.append({"k": "threads", "calls": todo, "seed": rng.randrange(1 << 30), "threads": rng.choice([2, 4, 6])})
    for i in range(2 if quick else 40):
        for test in oracle.TESTS:
            # all threads in the same test, switched between lines of its code
            todo = []
            while len(todo) < 3:
                n = rng.choice([128, 136]) if test == "longest_runs" else B.rand_n(rng, 40, 160)
                kwargs = calls.rand_kwargs(rng, test, n) if not todo or i % 2 else todo[0][2]
                c = [test, B.rand_spec(rng, n), kwargs, rng.choice(FACES), rng.choice(SHARED)]
                if usable(c):
                    todo.append(c)
            cases.append({"k": "turns", "calls": todo, "seed": rng.randrange(1 << 30), "rate": rng.choice([0.02, 0.1, 0.4])})
    for i in range(1 if quick else 20):
        for test in oracle.TESTS:
            todo = []
            while len(todo) < 4:
                c = a_call([test])
                if usable(c):
                    todo.append(c)
            cases.append({"k": "interrupted", "calls": todo, "seed": rng.randrange(1 << 30), "times": 6 if quick else 16})
    for i in range(1 if quick else 10):
        for container in list(reps.ANY) + list(reps.SOME):
            if container in ("generator", "iterator"):
                continue
            faces = reps.SOME[container][1] if container in reps.SOME else list(reps.FACES)
            cases.append(
                {"k": "inputs", "container": container, "face": rng.choice(faces), "n": rng.choice([128, 131, 150]),
                 "seed": rng.randrange(1 << 30), "bad": rng.random() < 0.3}
            )
    return cases


def usable(c):
    test, spec, kwargs, _, _ = c
    n = spec["n"] if "n" in spec else len(spec["bits"])
    return oracle.in_domain(test, n, calls.fix_kwargs(kwargs)) and n <= (2000 if test != "linear_complexity" else 1000)


def do(c):
    test, spec, kwargs, face, container = c
    return call(test, reps.make(B.make(spec), face, container), calls.fix_kwargs(kwargs))


def alone(c):
    """Fingerprint of the call's outcome in a process without a history"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps(outcome_fp(do(c))))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise HarnessError(f"no outcome of {c}")
    return pickle.loads(data)


def name(c):
    test, spec, kwargs, face, container = c
    return f"{test}({face!r} values in {container!r}, {kwargs}, {B.text(B.make(spec))[:60]})"


def compare(got, want, c, when, obs, case):
    if got != want:
        obs.fail(f"{name(c)} gives another outcome {when}: {difference(want, got)}"[:500], replay=case)
    obs.seen((str(c), when), nontrivial=want[0] == "result", sample={"call": name(c)[:120], "when": when})


def tamper(x, depth=0, seen=None):
    """Overwrites what is mutable in a result"""
    seen = seen if seen is not None else set()
    if id(x) in seen or depth > 6:
        return 0
    seen.add(id(x))
    n = 0
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.size and x.dtype != object:
            x.flat[0] = x.dtype.type(1) if x.flat[0] != 1 else x.dtype.type(0)
            n += 1
    elif isinstance(x, pd.Series):
        if len(x):
            x.iloc[0] = x.iloc[-1]
            x.index = range(7, 7 + len(x))
            n += 1
    elif isinstance(x, dict):
        for v in list(x.values()):
            n += tamper(v, depth + 1, seen)
        x.clear()
        n += 1
    elif isinstance(x, list):
        for v in x:
            n += tamper(v, depth + 1, seen)
        x.append("tampered")
        n += 1
    elif isinstance(x, tuple):
        for v in x:
            n += tamper(v, depth + 1, seen)
    elif hasattr(x, "__dict__") and type(x).__module__.startswith("coinflip"):
        for k, v in list(vars(x).items()):
            n += tamper(v, depth + 1, seen)
    return n


def run(case, obs):
    warnings.simplefilter("ignore")
    if case["k"] == "history":
        history(case, obs)
    elif case["k"] == "settings":
        keeps_settings(case, obs)
    elif case["k"] == "threads":
        threads(case, obs)
    elif case["k"] == "turns":
        turns(case, obs)
    elif case["k"] == "interrupted":
        interrupted(case, obs)
    else:
        inputs(case, obs)


def history(case, obs):
    todo = case["calls"]
    want = [alone(c) for c in todo]
    obs.count("outcomes of calls alone", len(want))
    rng = random.Random(case["seed"])
    results = []
    for c, w in zip(todo, want):
        out = do(c)
        compare(outcome_fp(out), w, c, "after other calls", obs, case)
        results.append(out)
        obs.count("calls after other calls")
    for i in rng.sample(range(len(todo)), len(todo)):
        compare(outcome_fp(do(todo[i])), want[i], todo[i], "in another order", obs, case)
        obs.count("calls in another order")
    # earlier results do not change
    for c, w, out in zip(todo, want, results):
        if outcome_fp(out) != w:
            obs.fail(f"the result of {name(c)} has changed after later calls: {difference(w, outcome_fp(out))}"[:500], replay=case)
    # nor are they shared with later calls
    for out in results:
        if out.exc is None:
            obs.count("parts of results tampered with", tamper(out.value))
    for c, w in zip(todo, want):
        compare(outcome_fp(do(c)), w, c, "after earlier results were modified", obs, case)
    if obs.failed:
        return
    # progress bars make no difference
    import coinflip.cli
    from coinflip.cli import runner

    console = coinflip.cli.console
    console.file, console._force_terminal = open(os.devnull, "w"), True
    for c, w in zip(todo, want):
        test, spec, kwargs, face, container = c
        series = reps.make(B.make(spec), face, container)
        if not isinstance(series, pd.Series):
            series = pd.Series(series)
        out = observe(runner.run_test, series, test, **calls.fix_kwargs(kwargs))
        compare(outcome_fp(out), w, c, "under a progress bar", obs, case)
        obs.count("calls under a progress bar")
    console.file, console._force_terminal = None, None


def keeps_settings(case, obs):
    """Each call, refused ones included, leaves what all code of the process shares as it was"""
    from coinflip import randtests

    for c in case["calls"]:
        test, spec, kwargs, face, container = c
        for bits in (B.make(spec), B.make(spec)[:1]):
            sequence = reps.make(bits, face, container)
            before = settings()
            try:
                getattr(randtests, test)(sequence, **calls.fix_kwargs(kwargs))
                given = True
            except Exception:
                given = False
            after = settings()
            for k in before:
                if before[k] != after[k]:
                    obs.fail(f"{name(c)} has changed {k}: {before[k][:100]} to {after[k][:100]}"[:500], replay=case)
                    return
            obs.count("calls after which the settings of the process were compared")
            obs.seen((str(c), len(bits), "settings"), nontrivial=given)


def threads(case, obs):
    todo = case["calls"]
    want = [alone(c) for c in todo]
    # some share the very same sequence objects
    shared = [reps.make(B.make(c[1]), c[3], c[4]) for c in todo]
    before = [fp(s) for s in shared]
    rng = random.Random(case["seed"])
    orders = [rng.sample(range(len(todo)), len(todo)) for _ in range(case["threads"])]
    events, errors = [], []
    barrier = threading.Barrier(len(orders))

    def work(who):
        from coinflip import randtests

        try:
            barrier.wait(30)
            for i in orders[who]:
                test, spec, kwargs, face, container = todo[i]
                events.append((who, i, "start"))
                try:  # recording warnings is not thread-safe
                    out = Outcome(getattr(randtests, test)(shared[i], **calls.fix_kwargs(kwargs)))
                except Exception as e:
                    out = Outcome(None, e)
                events.append((who, i, "end"))
                got = outcome_fp(out)
                if got != want[i]:
                    errors.append((i, got))
        except BaseException as e:  # noqa
            errors.append((-1, repr(e)))

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=work, args=(w,)) for w in range(len(orders))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    for i, got in errors[:3]:
        if i < 0:
            raise HarnessError(got)
        compare(got, want[i], todo[i], "when others run concurrently", obs, case)
    for i, s in enumerate(shared):
        if fp(s) != before[i]:
            obs.fail(f"{name(todo[i])} has modified its sequence", replay=case)
    order = tuple(events)
    overlapping = sum(
        1 for a, b in zip(events, events[1:]) if a[0] != b[0] and a[2] == "start"
    )
    obs.count("concurrent calls", sum(map(len, orders)))
    obs.count("calls which another thread interrupted", overlapping)
    obs.count("distinct interleavings of threads")
    obs.seen(("interleaving", order), sample={"threads": len(orders), "events": str(order[:8])})


class Turns:
    """Lets one thread run at a time, and passes the turn on between lines of coinflip's code as the seed says"""

    def __init__(self, k, seed, rate):
        self.rng = random.Random(seed)
        self.rate = rate
        self.alive = list(range(k))
        self.turn = [threading.Semaphore(0) for _ in range(k)]
        self.switches = 0
        self.places = []
        self.local = threading.local()

    def wait(self, who):
        # a thread whose turn it is may be waiting for a lock which another one holds
        self.turn[who].acquire(timeout=5)

    def step(self, frame):
        if self.rng.random() < self.rate and len(self.alive) > 1:
            who = self.local.who
            other = self.rng.choice([w for w in self.alive if w != who])
            self.switches += 1
            if len(self.places) < 4000:
                self.places.append((who, other, os.path.basename(frame.f_code.co_filename), frame.f_lineno))
            self.turn[other].release()
            self.wait(who)

    def trace(self, frame, event, arg):
        if event == "call" and "coinflip" not in frame.f_code.co_filename:
            return None
        if event == "line":
            self.step(frame)
        return self.trace

    def run(self, who, work):
        self.local.who = who
        self.wait(who)
        sys.settrace(self.trace)
        try:
            work()
        finally:
            sys.settrace(None)
            self.alive.remove(who)
            if self.alive:
                self.turn[self.rng.choice(self.alive)].release()


def turns(case, obs):
    todo = case["calls"]
    want = [alone(c) for c in todo]
    sequences = [reps.make(B.make(c[1]), c[3], c[4]) for c in todo]
    before = [fp(s) for s in sequences]
    got = [None] * len(todo)
    t = Turns(len(todo), case["seed"], case["rate"])

    def work(who):
        from coinflip import randtests

        test, _, kwargs, _, _ = todo[who]
        try:
            got[who] = Outcome(getattr(randtests, test)(sequences[who], **calls.fix_kwargs(kwargs)))
        except Exception as e:
            got[who] = Outcome(None, e)

    threads = [threading.Thread(target=t.run, args=(w, lambda w=w: work(w)), daemon=True) for w in range(len(todo))]
    for th in threads:
        th.start()
    t.turn[t.rng.randrange(len(todo))].release()
    for th in threads:
        th.join(150)
    if any(g is None for g in got):
        raise HarnessError("threads which take turns have not finished")
    for c, w, g, s, b in zip(todo, want, got, sequences, before):
        compare(outcome_fp(g), w, c, f"when {len(todo)} calls take turns", obs, case)
        if fp(s) != b:
            obs.fail(f"{name(c)} has modified its sequence", replay=case)
    obs.count("calls which took turns with others", len(todo))
    obs.count("switches between lines of the tests' code", t.switches)
    obs.count("distinct places of switches", len({p[2:] for p in t.places}))
    obs.seen(("turns", tuple(t.places)), sample={"switches": t.switches, "first": str(t.places[:6])})


class Interrupt:
    """Counts the lines of coinflip's code which run, and interrupts the one it is told to (as Ctrl-C does)"""

    def __init__(self, at=None):
        self.at, self.lines, self.place = at, 0, None

    def trace(self, frame, event, arg):
        if event == "call" and "coinflip" not in frame.f_code.co_filename:
            return None
        if event == "line":
            self.lines += 1
            if self.lines == self.at:
                self.place = (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                raise KeyboardInterrupt
        return self.trace

    def run(self, c):
        """Whether the call was interrupted"""
        from coinflip import randtests

        test, spec, kwargs, face, container = c
        sequence = reps.make(B.make(spec), face, container)
        sys.settrace(self.trace)
        try:
            getattr(randtests, test)(sequence, **calls.fix_kwargs(kwargs))
        except KeyboardInterrupt:
            return True
        except Exception:
            pass
        finally:
            sys.settrace(None)
        return False


def interrupted(case, obs):
    todo = case["calls"]
    want = [alone(c) for c in todo]
    rng = random.Random(case["seed"])
    for i, c in enumerate(todo):
        # how many lines the call takes, in a process of its own for nothing to be kept from it
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                count = Interrupt()
                count.run(c)
                os.write(w, str(count.lines).encode())
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            lines = int(f.read() or 0)
        os.waitpid(pid, 0)
        if not lines:
            raise HarnessError(f"no line of coinflip's code runs in {name(c)}")
        for _ in range(case["times"]):
            at = rng.choice([rng.randint(1, lines), rng.randint(1, min(lines, 60)), max(1, lines - rng.randrange(40))])
            stop = Interrupt(at)
            if stop.run(c):
                obs.count("calls interrupted between lines of the tests' code")
                obs.seen(("interrupted at", stop.place, c[0]), sample={"call": name(c)[:120], "interrupted at": stop.place})
            for j in {i, rng.randrange(len(todo))}:
                compare(outcome_fp(do(todo[j])), want[j], todo[j], f"after a call interrupted at {stop.place}", obs, case)
            if obs.failed:
                return


def inputs(case, obs):
    face, container = case["face"], case["container"]
    rs = np.random.RandomState(case["seed"])
    bits = rs.randint(0, 2, size=case["n"]).astype(np.int8)
    bits[:2] = [0, 1]
    for test in oracle.TESTS:
        kwargs = calls.rand_kwargs(random.Random(case["seed"]), test, case["n"])
        if case["bad"] and kwargs and test != "cusum":
            kwargs = {k: ([1000, 1000] if k == "matrix_dimen" else v) for k, v in kwargs.items()}
        sequence = reps.make(bits, face, container)
        kept = kwargs and {k: (list(v) if isinstance(v, list) else v) for k, v in kwargs.items()}
        before = fp(sequence)
        writeable = getattr(getattr(sequence, "flags", None), "writeable", None)
        out = call(test, sequence, kwargs)
        after = fp(sequence)
        what = f"{test}({face!r} values in {container!r}, {kwargs}, n={case['n']})"
        if after != before:
            obs.fail(f"{what} has modified its sequence: {difference(before, after, 'sequence')}"[:500], replay=case)
        if getattr(getattr(sequence, "flags", None), "writeable", None) != writeable:
            obs.fail(f"{what} has changed whether its sequence can be written to", replay=case)
        if kept != kwargs:
            obs.fail(f"{what} has modified its parameters", replay=case)
        obs.count("inputs compared before and after")
        if out.exc is None:
            # results stay as they are when the sequence is overwritten afterwards
            first = fp(out.value)
            if overwrite(sequence):
                obs.count("inputs overwritten after the call")
                second = fp(out.value)
                if second != first:
                    obs.fail(f"the result of {what} changes with its sequence: {difference(first, second)}"[:500], replay=case)
        obs.seen((test, face, container, case["seed"]), nontrivial=out.exc is None)
        if obs.failed:
            return


def overwrite(s):
    try:
        if isinstance(s, (list, np.ndarray, bytearray)) or hasattr(s, "typecode") or type(s).__name__ == "deque":
            for i in range(len(s)):
                s[i] = s[0] if i % 3 else s[-1]
            return True
        if isinstance(s, pd.Series):
            s.iloc[: len(s) // 2] = s.iloc[0]
            return True
        if isinstance(s, dict):
            s.clear()
            return True
    except (ValueError, TypeError):
        pass
    return False


def goals(counters, tier):
    return need_all(
        counters,
        {
            "outcomes of calls alone": 500,
            "calls after other calls": 500,
            "calls in another order": 500,
            "parts of results tampered with": 500,
            "calls under a progress bar": 500,
            "concurrent calls": 300,
            "calls which another thread interrupted": 50,
            "distinct interleavings of threads": 12,
            "calls which took turns with others": 80,
            "calls interrupted between lines of the tests' code": 100,
            "switches between lines of the tests' code": 2000,
            "distinct places of switches": 400,
            "inputs compared before and after": 600,
            "calls after which the settings of the process were compared": 200,
            "inputs overwritten after the call": 400,
        },
    )
