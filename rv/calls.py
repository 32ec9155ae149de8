"""Workloads of single test calls, shared by the checks of the statistical tests"""
from rv import bits as B
from rv import oracle
from rv.monitor import check_call


def exhaustive_cases(tests, max_n, chunk=256, max_n_of=None):
    """All binary sequences up to a length, in chunks"""
    cases = []
    for test in tests:
        top = (max_n_of or {}).get(test, max_n)
        for n in range(2, top + 1):
            for start in range(0, 1 << n, chunk):
                cases.append(
                    {"k": "exh", "test": test, "n": n, "from": start, "to": min(start + chunk, 1 << n)}
                )
    return cases


def call_cases(calls, size=8):
    """(test, spec, kwargs) triples in batches; long sequences go alone, and first"""
    big, small = [], []
    for test, spec, kwargs in calls:
        n = spec["n"] if "n" in spec else len(spec["bits"])
        (big if n > 20000 else small).append((n, test, spec, kwargs))
    big.sort(key=lambda c: -c[0])
    cases = [{"k": "call", "test": t, "spec": s, "kwargs": kw} for _, t, s, kw in big]
    for case, (n, *_) in zip(cases, big):
        if n > 5000000:
            case["cpu"] = n // 25000
    for i in range(0, len(small), size):
        cases.append(
            {"k": "batch", "calls": [[t, s, kw] for _, t, s, kw in small[i : i + size]]}
        )
    return cases


def rand_kwargs(rng, test, n, always=False):
    """Parameters for a call, {} for the defaults"""
    if not always and rng.random() < 0.5:
        return {}
    for _ in range(50):
        kw = {}
        if test in ("frequency_within_block", "linear_complexity"):
            kw = {"blocksize": rng.choice([2, 3, 5, 8, 13, 20, n // 3, n // 2, n])}
        elif test == "binary_matrix_rank":
            kw = {"matrix_dimen": [rng.randrange(1, 7), rng.randrange(1, 7)]}
        elif test == "non_overlapping_template_matching":
            kw = {"template_size": rng.randrange(2, 6), "blocksize": rng.choice([8, 11, 20, n // 4, n // 2])}
            kw.pop(rng.choice(["", "", "blocksize", "template_size"]), None)
        elif test == "overlapping_template_matching":
            kw = {"template_size": rng.randrange(2, 5), "blocksize": rng.choice([10, 17, 25, n // 4]),
                  "matches_ceil": rng.randrange(2, 7)}
            kw.pop(rng.choice(["", "", "blocksize", "template_size", "matches_ceil"]), None)
        elif test == "maurers_universal":
            kw = {"blocksize": rng.randrange(1, 8), "init_nblocks": rng.randrange(1, 12)}
            kw.pop(rng.choice(["", "", "blocksize", "init_nblocks"]), None)
        elif test in ("serial", "approximate_entropy"):
            kw = {"blocksize": rng.randrange(1, 9)}
        elif test == "cusum":
            kw = {"reverse": True}
        if kw and all(v for v in kw.values()) and oracle.in_domain(test, n, fix_kwargs(kw)):
            return kw
    return {}


# how long sequences each test takes within about a second
TOP = {
    "monobit": 300000, "frequency_within_block": 300000, "runs": 300000, "longest_runs": 300000, "binary_matrix_rank": 150000,
    "spectral": 300000, "non_overlapping_template_matching": 40000, "overlapping_template_matching": 100000,
    "maurers_universal": 300000, "linear_complexity": 16384, "serial": 66000, "approximate_entropy": 66000, "cusum": 300000,
    "random_excursions": 100000, "random_excursions_variant": 150000,
}


def some_size(rng, test, lo=0, top=None):
    """A length at or next to a round one, or to a small multiple of one"""
    top = min(top or TOP[test], TOP[test])
    fit = [u for u in B.UNITS if lo < u <= top]
    u = rng.choice(fit)
    k = rng.choice([1, 1, 1, 2, 3, 5])
    return u * (k if u * k <= top else 1) + rng.choice([-1, 0, 0, 1])


def ladder(rng, test, quick):
    """Calls for every short length, round lengths and those next to them, and round sizes of blocks"""
    todo = []
    lengths = list(range(oracle.MIN_N[test], 400 if quick else 2100))
    for u in B.UNITS:
        for k in (1,) if quick else (1, 2, 3, 5, 7):
            if u * k <= TOP[test] * (1 if quick else 3):
                lengths += [u * k, u * k + rng.choice([-1, 1])] if quick else [u * k - 1, u * k, u * k + 1]
    for n in lengths:
        if test == "longest_runs" and n < 128:
            continue
        todo.append((test, B.rand_spec(rng, n), {"reverse": True} if test == "cusum" and rng.random() < 0.5 else {}))
    sizes = list(range(1, 140 if quick else 520)) + [u + d for u in B.UNITS[7 if quick else 18 :] for d in (-1, 0, 1)]
    top = {"linear_complexity": 260 if quick else 1100, "non_overlapping_template_matching": 2100, "serial": 70, "approximate_entropy": 70}.get(test, 8200)
    sizes = [b for b in sizes if b <= top]
    if test in ("serial", "approximate_entropy"):
        sizes += [100, 127, 128, 129, 200, 255, 256, 257, 500, 512, 513, 700, 1000]
    for b in sizes:
        for _ in range(1 if quick else 3):
            n = b * rng.choice([rng.randrange(2, 7), 12] if b < 300 else [2, 3, 4]) + rng.choice([0, 0, 1, b - 1, rng.randrange(b)])
            n = max(n, 8)
            kw = {"blocksize": b}
            if test == "frequency_within_block":
                pass
            elif test == "linear_complexity":
                n = b * rng.choice([12, 13]) + rng.choice([0, 1, b - 1])  # each special case once
                todo.append((test, {"g": "special", "b": b, "n": n, "seed": rng.randrange(1 << 30)}, kw))
                continue
            elif test == "non_overlapping_template_matching":
                kw["template_size"] = rng.choice([2, 3, 4, 5])
            elif test == "overlapping_template_matching":
                kw["template_size"] = rng.choice([2, 3, 4, 5, 6, 7, 8, 9])
                kw["matches_ceil"] = rng.choice([2, 3, 5, 6, 8, 11, 16])
            elif test == "maurers_universal":
                n = max(n, 40)
                kw = {"blocksize": rng.randrange(1, 17), "init_nblocks": b}
                n = kw["blocksize"] * (b + rng.randrange(1, 60))
            elif test == "binary_matrix_rank":
                r = rng.choice([1, 2, 3, b, b // 2 or 1]) if b < 140 else rng.choice([1, 2])
                kw = {"matrix_dimen": rng.choice([[r, b], [b, r]])}
                n = r * b * rng.randrange(1, 5) + rng.choice([0, 1, r * b - 1])
            elif test in ("serial", "approximate_entropy"):
                n = max(b, rng.choice([b, b + 1, 2 * b, rng.randrange(8, 500)]))
            else:
                continue
            if n < oracle.MIN_N[test] or not oracle.in_domain(test, n, fix_kwargs(kw)):
                continue
            spec = {"g": "special", "b": b, "n": n, "seed": rng.randrange(1 << 30)} if rng.random() < 0.7 else B.rand_spec(rng, n)
            todo.append((test, spec, kw))
    return todo


def fix_kwargs(kwargs):
    """JSON turns tuples into lists"""
    if kwargs.get("matrix_dimen"):
        kwargs = {**kwargs, "matrix_dimen": tuple(kwargs["matrix_dimen"])}
    return kwargs


def one(test, spec, kwargs, obs, recs=False):
    kwargs = fix_kwargs(kwargs)
    bits = B.make(spec)
    n = len(bits)
    if not oracle.in_domain(test, n, kwargs):
        obs.count("skipped: parameters leave nothing to test")
        return None
    out, exp = check_call(test, bits, kwargs, obs, spec, recs=recs)
    refused = isinstance(exp, oracle.Refusal)
    obs.count(f"{test}: {'refusals' if refused else 'results'} judged")
    if kwargs:
        obs.count(f"{test}: explicit parameters")
    if n >= 100000:
        obs.count("sequences of 100000 bits or more")
    obs.seen(
        (test, str(spec), str(kwargs)),
        nontrivial=not refused,
        sample={"test": test, "spec": spec, "kwargs": kwargs, "outcome": repr(out)[:160]},
    )
    return out, exp


def run_case(case, obs, recs=False):
    k = case["k"]
    if k == "exh":
        test, n = case["test"], case["n"]
        for v in range(case["from"], case["to"]):
            one(test, {"g": "int", "n": n, "v": v}, {}, obs, recs)
            obs.count(f"{test}: exhaustive short sequences")
            if len(obs.violations) >= 2:
                return
    elif k == "batch":
        for test, spec, kwargs in case["calls"]:
            one(test, spec, kwargs, obs, recs)
    elif k == "call":
        one(case["test"], case["spec"], case["kwargs"], obs, recs)
    else:
        raise ValueError(k)


def need(counters, **minimum):
    """Goals: reasons why a run has observed too little"""
    return [
        f"only {counters.get(k, 0)} of '{k}', {v} expected"
        for k, v in minimum.items()
        if counters.get(k, 0) < v
    ]


def need_all(counters, wanted):
    return [
        f"only {counters.get(k, 0)} of '{k}', {v} expected"
        for k, v in wanted.items()
        if counters.get(k, 0) < v
    ]
