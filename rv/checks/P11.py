"""The same sequence in other values and other containers"""
from rv import bits as B
from rv import calls, oracle, reps
from rv.calls import need_all
from rv.monitor import check_call

PID = "P11"
LEVEL = "exploration"
RULE = (
    "Every pairing of 50 pairs of values and 50 kinds of containers (those which apply), all 15 tests on each, with seeded "
    "sequences and parameters; non-trivial when the test is due to give a result, distinct by test, pairing, sequence "
    "and parameters."
)
ASSUMPTIONS = [
    "the two values are hashable, ordered and without missing values; str and bytes objects are scalars to pandas, "
    "and big-endian arrays are not supported by pandas"
]


def plan(rng, tier):
    quick = tier == "quick"
    cases = []
    for _ in range(1 if quick else 6):
        for face, container in reps.pairs():
            todo = []
            for test in oracle.TESTS:
                n = rng.choice([128, 129, 150, 151, 173, 200]) if test == "longest_runs" else B.rand_n(rng, 16, 220)
                if not quick and rng.random() < 0.1:
                    n = B.rand_n(rng, 200, 3000)
                todo.append([test, B.rand_spec(rng, n), calls.rand_kwargs(rng, test, n)])
            cases.append({"k": "pair", "face": face, "container": container, "calls": todo})
    pairs = list(reps.pairs())
    for test in oracle.TESTS:  # long sequences
        for _ in range(12 if quick else 80):
            face, container = rng.choice(pairs)
            n = calls.some_size(rng, test, 256, 140000)
            cases.append({"k": "pair", "face": face, "container": container, "calls": [[test, B.rand_spec(rng, n), calls.rand_kwargs(rng, test, n) if n < 5000 else {}]]})
    for _ in range(30 if quick else 300):
        # values which are equal count as one value, whatever their types
        todo = []
        for test in oracle.TESTS:
            n = rng.choice([128, 140]) if test == "longest_runs" else B.rand_n(rng, 16, 220)
            todo.append([test, B.rand_spec(rng, n), calls.rand_kwargs(rng, test, n)])
        cases.append({"k": "mixed", "face": "mixed", "container": rng.choice(list(reps.MIXED)), "calls": todo})
    return cases


def run(case, obs):
    face, container = case["face"], case["container"]
    if case["k"] == "pair":
        tails, heads = reps.faces_of(face, container)
    else:
        tails, heads = reps.MIXED[container][0][0], reps.MIXED[container][1][0]
        obs.count("sequences of values of mixed types")
    for test, spec, kwargs in case["calls"]:
        bits = B.make(spec)
        kw = calls.fix_kwargs(kwargs)
        if not oracle.in_domain(test, len(bits), kw):
            continue
        if case["k"] == "pair":
            sequence = reps.make(bits, face, container)
        else:
            sequence = reps.mixed(bits, container)
        before = len(obs.violations)
        out, exp = check_call(test, bits, kw, obs, spec, sequence=sequence, heads=heads, tails=tails)
        for v in obs.violations[before:]:
            v["replay"] = {**case, "calls": [[test, spec, kwargs]]}
            v["what"] = f"values {face!r} in {container!r}: {v['what']}"
        refused = isinstance(exp, oracle.Refusal)
        obs.count("refusals judged" if refused else "results judged")
        obs.count(f"{test}: judged")
        obs.seen(
            (test, face, container, str(spec), str(kwargs)),
            nontrivial=not refused,
            sample={"test": test, "values": face, "container": container, "outcome": repr(out)[:120]},
        )
        if len(obs.violations) >= 2:
            return
    obs.count("pairings of values and container")


def goals(counters, tier):
    want = {f"{t}: judged": 900 for t in oracle.TESTS}
    want["sequences of values of mixed types"] = 30
    want["pairings of values and container"] = 1000
    return need_all(counters, want)
