"""The progress display tells how far each test is"""
import json

import pandas as pd

from rv import bits as B
from rv import calls, cli, oracle
from rv.calls import need_all
from rv.core import HarnessError

PID = "P26"
LEVEL = "exploration"
RULE = (
    "Runs of all tests and of single tests with and without parameters, on seeded sequences of many lengths, in command processes whose "
    "progress display is watched: after every update the state of each bar is recorded, and the histories are checked. Distinct by test, "
    "sequence and parameters; non-trivial when the test gives a result."
)
ASSUMPTIONS = [
    "progress is displayed with rich.progress.Progress",
    "bars of tests which refuse a sequence may be in any state",
]


def plan(rng, tier):
    quick = tier == "quick"
    cases = []
    lengths = [2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 99, 100, 101, 127, 128, 129, 152, 255, 256, 500, 1000, 1023, 1024, 2000]
    for n in lengths + ([] if quick else [5000, 6271, 6272, 10000, 20000, 40000]):
        cases.append({"k": "all", "spec": B.rand_spec(rng, n)})
    for _ in range(10 if quick else 200):
        cases.append({"k": "all", "spec": B.rand_spec(rng, B.rand_n(rng, 2, 1500))})
    for test in cli.TITLES:
        todo = []
        for _ in range(8 if quick else 80):
            n = B.rand_n(rng, max(oracle.MIN_N[test], 8), 1200)
            if test == "longest_runs":
                n = max(n, 128)
            todo.append([B.rand_spec(rng, n), calls.rand_kwargs(rng, test, n, always=True)])
        for _ in range(3 if quick else 20):
            n = calls.some_size(rng, test, 127, 20000)
            todo.append([B.rand_spec(rng, n), calls.rand_kwargs(rng, test, n)])
        more = [c for c in calls.ladder(rng, test, True) if c[1]["n"] < 3000]
        todo += [list(c[1:]) for c in rng.sample(more, min(len(more), 24 if quick else 200))]
        cases.append({"k": "one", "test": test, "calls": todo})
    return cases


def watch(work):
    """[(step of the history, bar, description, completed, total)] while some work is done"""
    from rich.progress import Progress

    history = []
    displays = []

    def record(progress, event):
        if not any(progress is p for p in displays):
            displays.append(progress)
        d = next(i for i, p in enumerate(displays) if p is progress)
        for task in progress.tasks:
            history.append((event, d, int(task.id), str(task.description), float(task.completed), float(task.total)))

    def wrap(name):
        original = getattr(Progress, name)

        def method(self, *args, **kwargs):
            value = original(self, *args, **kwargs)
            record(self, name)
            return value

        setattr(Progress, name, method)

    for name in ("update", "advance", "reset", "add_task", "remove_task"):
        if hasattr(Progress, name):
            wrap(name)
    outcomes = work()
    return history, outcomes


def states(history):
    """{(display, bar): its distinct states in order}"""
    bars = {}
    for event, d, task, _, completed, total in history:
        seen = bars.setdefault((d, task), [])
        if not seen or seen[-1] != (completed, total):
            seen.append((completed, total))
    return bars


def judge_bar(seen):
    """What is wrong with the history of the bar of a test which gave a result"""
    done = 0.0
    for completed, total in seen:
        if completed < done:
            return f"goes back from {done:g} to {completed:g} of {total:g}"
        if completed > total:
            return f"goes beyond its end, to {completed:g} of {total:g}"
        done = completed
    completed, total = seen[-1]
    if completed != total:
        return f"stays at {completed:g} of {total:g}"
    return None


def drive(case, obs, work, tests, what):
    with cli.Scratch() as d:
        def inside():
            history, outcomes = watch(work)
            with open("history", "w") as f:
                json.dump([[list(k), v] for k, v in states(history).items()] + [outcomes], f)

        r = cli.call(inside, d.path)
        if r.code:
            obs.fail(f"{what}: {r!r}", replay=case)
            return
        with open(d / "history") as f:
            *bars, outcomes = json.load(f)
    if outcomes != tests:
        obs.fail(f"{what}: outcomes of {outcomes}, expected {tests}", replay=case)
        return
    if len(bars) != len(tests):
        raise HarnessError(f"{len(bars)} bars were observed for {len(tests)} tests")
    return [seen for _, seen in bars]


def every(case, obs):
    spec = case["spec"]
    bits = B.make(spec)
    what = f"run_all_tests({B.text(bits)}) n={len(bits)}"

    def work():
        from coinflip.cli import runner

        return [[t, e is None] for t, _, e in runner.run_all_tests(pd.Series(bits))]

    expected = [[t, not isinstance(oracle.expect(t, bits, {}), oracle.Refusal)] for t in cli.TITLES]
    bars = drive(case, obs, work, expected, what)
    if bars is None:
        return
    for (t, given), seen in zip(expected, bars):
        if given:
            bad = judge_bar(seen)
            if bad:
                obs.fail(f"{what}: the bar of {t} {bad}", replay=case)
            obs.count("steps observed", len(seen) - 1)
            obs.count(f"{t}: bars judged")
            if 0 < len(seen) - 1 < 3:
                obs.count("bars of few steps")
        obs.seen((t, str(spec)), nontrivial=given, sample={"test": t, "spec": spec, "last states": seen[-2:]})


def single(case, obs):
    test = case["test"]
    for spec, kwargs in case["calls"]:
        kwargs = calls.fix_kwargs(kwargs)
        bits = B.make(spec)
        if not oracle.in_domain(test, len(bits), kwargs):
            continue
        exp = oracle.expect(test, bits, kwargs)
        if isinstance(exp, oracle.Refusal):
            continue
        what = f"run_test({B.text(bits)}, {test!r}, {kwargs}) n={len(bits)}"

        def work():
            from coinflip.cli import runner

            runner.run_test(pd.Series(bits), test, **kwargs)
            return [test]

        narrow = {"k": "one", "test": test, "calls": [[spec, kwargs]]}
        bars = drive(narrow, obs, work, [test], what)
        if bars is None:
            return
        bad = judge_bar(bars[0])
        if bad:
            obs.fail(f"{what}: the bar {bad}", replay=narrow)
            return
        obs.count("steps observed", len(bars[0]) - 1)
        obs.count(f"{test}: bars judged")
        obs.seen((test, str(spec), str(kwargs)), sample={"test": test, "spec": spec, "kwargs": kwargs, "last states": bars[0][-2:]})


def run(case, obs):
    cli.warm()
    (every if case["k"] == "all" else single)(case, obs)


def goals(counters, tier):
    want = {f"{t}: bars judged": 12 for t in cli.TITLES}
    want["steps observed"] = 10000
    return need_all(counters, want)
