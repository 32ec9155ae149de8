"""Harness shared by all monitors.

A check module declares

    PID, LEVEL, RULE, ASSUMPTIONS
    plan(rng, tier)       -> list of cases (JSON-serialisable dicts, the slowest first)
    run(case, obs)        -> drives the real code, and reports to ``obs`` what it saw
    goals(counters, tier) -> list of reasons why the run observed too little

Cases are spread over forked workers. Every case is self-contained, so that a
replay file is a case (or a narrower one) written out as JSON.
"""
import glob
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings
from collections import Counter

from rv import workers

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RV_REPO", "/repo")
EVIDENCE = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(EVIDENCE, "replay")
KNOWN = os.path.join(VERIF, "known_findings.txt")

MAX_VIOLATIONS = 5
AFTER_VIOLATION_S = 45  # seconds for which further violations are collected
CASE_CPU_S = 200  # CPU seconds after which a case counts as not terminating


class OutOfCpu(BaseException):
    """The code under test used far more CPU than it ever needs"""


class HarnessError(Exception):
    """The monitor itself could not do its work: inconclusive"""


def _on_cpu(signum, frame):
    raise OutOfCpu()


def jsonable(x, limit=2000):
    try:
        s = json.dumps(x)
        if len(s) <= limit:
            return x
        return s[:limit] + "..."
    except (TypeError, ValueError):
        return repr(x)[:limit]


class Obs:
    """What a case observed"""

    def __init__(self):
        self.violations = []
        self.counters = Counter()
        self.keys = set()
        self.evals = 0
        self.samples = []

    def count(self, name, by=1):
        self.counters[name] += by

    def seen(self, key, nontrivial=True, sample=None):
        """One evaluation of the property, on the execution named by ``key``"""
        self.evals += 1
        if nontrivial:
            self.keys.add(hash(key))
        if sample is not None and len(self.samples) < 2:
            self.samples.append(jsonable(sample, 400))

    def fail(self, what, replay=None, **details):
        if len(self.violations) < MAX_VIOLATIONS:
            self.violations.append(
                {
                    "what": what,
                    "replay": replay,
                    "details": {k: jsonable(v) for k, v in details.items()},
                }
            )

    @property
    def failed(self):
        return bool(self.violations)


_module = None


def _work(case):
    obs = Obs()
    err = None
    t0 = time.time()
    limit = case.get("cpu", CASE_CPU_S)
    signal.signal(signal.SIGVTALRM, _on_cpu)
    signal.setitimer(signal.ITIMER_VIRTUAL, limit)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            _module.run(case, obs)
    except OutOfCpu:
        obs.fail(f"did not finish within {limit} s of CPU time", replay=case)
    except (HarnessError, MemoryError):
        err = traceback.format_exc()
    except OSError:
        err = traceback.format_exc()
    except SystemExit as e:
        obs.fail(f"the code under test ended the interpreter: SystemExit({e.code!r})", replay=case)
    except Exception as e:
        # what the code under test returned could not even be interpreted
        obs.fail(
            f"outcome cannot be interpreted: {type(e).__name__}: {e}"[:300],
            replay=case,
            traceback=traceback.format_exc()[-1500:],
        )
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return (
        case,
        obs.violations,
        obs.counters,
        obs.keys,
        obs.evals,
        obs.samples,
        err,
        time.time() - t0,
    )


def load_known(pid):
    """Signatures of the recorded findings of a property (``fixed:`` lines do not count)"""
    found = []
    if os.path.exists(KNOWN):
        with open(KNOWN, encoding="utf-8") as f:
            for line in f:
                line = line.strip()
                prefix = f"known: property={pid} "
                if line.startswith(prefix):
                    signature, _, text = line[len(prefix) :].partition(" :: ")
                    found.append((signature.strip(), text.strip()))
    return found


def write_replay(pid, n, violation, case):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f"{pid}-{n}.json")
    with open(path, "w", encoding="utf-8") as f:
        json.dump(
            {
                "property": pid,
                "case": violation["replay"] or case,
                "what": violation["what"],
                "details": violation["details"],
            },
            f,
            indent=1,
        )
    return os.path.relpath(path, VERIF)


def check_import():
    import coinflip

    path = os.path.realpath(coinflip.__file__)
    if not path.startswith(os.path.realpath(os.path.join(REPO, "src")) + os.sep):
        raise HarnessError(f"coinflip was imported from {path}")


def replay(path):
    global _module
    with open(path, encoding="utf-8") as f:
        data = json.load(f)
    check_import()
    _module = importlib.import_module(f"rv.checks.{data['property']}")
    _, violations, *_, err, _ = _work(data["case"])
    if err:
        print(err)
        return 2
    for v in violations:
        print(json.dumps(v, indent=1, ensure_ascii=False))
        print(f"VIOLATION property={data['property']} replay={path}")
    return 1 if violations else 0


def main(argv):
    global _module
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()

    os.makedirs(EVIDENCE, exist_ok=True)
    for path in glob.glob(os.path.join(REPLAYS, f"{pid}-*.json")):
        os.unlink(path)

    check_import()
    module = _module = importlib.import_module(f"rv.checks.{pid}")
    rng = random.Random(f"{pid}/{seed}")
    cases = module.plan(rng, tier)
    known = load_known(pid)
    soft_limit = 500 if tier == "quick" else 6 * 3600
    limit = float(os.environ.get("RV_LIMIT_S", soft_limit))

    counters, keys, samples = Counter(), set(), []
    evals = ncases = nskipped = 0
    found, errors, known_hits, slow = [], [], Counter(), (0, None)

    nproc = min(8, os.cpu_count() or 1, max(len(cases), 1))
    first = []  # when the first violation came

    def deadline():
        return min([t0 + limit] + [t + AFTER_VIOLATION_S for t in first])

    for got in workers.outcomes(_work, cases, nproc, getattr(module, "TASKS_PER_CHILD", None), deadline):
        ncases += 1
        if isinstance(got, workers.Died):
            if got.blocked:
                what = f"did not finish: {workers.BLOCKED_S} s without using the processor, in {jsonable(got.case, 300)}"
                found.append(({"what": what, "replay": got.case, "details": {}}, got.case))
            elif got.exitcode == -signal.SIGKILL:  # memory ran out
                errors.append(f"a process was killed while it ran {jsonable(got.case, 300)}")
            else:
                what = f"the interpreter ended with {got.exitcode} while it ran {jsonable(got.case, 300)}"
                found.append(({"what": what, "replay": got.case, "details": {}}, got.case))
        else:
            case, violations, c, k, e, s, err, took = got
            counters.update(c)
            keys |= k
            evals += e
            if took > slow[0]:
                slow = (took, jsonable(case, 200))
            if len(samples) < 6:
                samples.extend(s[:1])
            if err:
                errors.append(err)
            for v in violations:
                hit = next((sig for sig, _ in known if v["what"].startswith(sig)), None)
                if hit is not None:
                    known_hits[hit] += 1
                else:
                    found.append((v, case))
        if found and not first:
            first.append(time.time())
        if len(found) >= MAX_VIOLATIONS or len(errors) >= 3:
            break
    nskipped = len(cases) - ncases

    goals = module.goals(counters, tier) if not found else []
    wall = time.time() - t0
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": module.LEVEL,
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(keys),
            "rule": module.RULE,
            "samples": samples,
            "cases": ncases,
            "cases_skipped": nskipped,
            "observed": dict(sorted(counters.items())),
            "slowest_case": {"seconds": round(slow[0], 2), "case": slow[1]},
            "known_findings_hit": dict(known_hits),
        },
        "assumptions": module.ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": len(found),
    }
    with open(os.path.join(EVIDENCE, f"{pid}.json"), "w", encoding="utf-8") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=False)
        f.write("\n")

    for sig, text in known:
        print(f"KNOWN-FINDING: property={pid} {text or sig}")
    if found:
        for n, (v, case) in enumerate(found[:MAX_VIOLATIONS]):
            path = write_replay(pid, n, v, case)
            print(f"  {v['what']}"[:600])
            for name, value in v["details"].items():
                print(f"    {name}: {value}"[:600])
            print(f"VIOLATION property={pid} replay={path}", flush=True)
        return 1
    if errors:
        print(errors[0], file=sys.stderr)
        print(f"{pid}: error of the monitor, no verdict", file=sys.stderr)
        return 2
    if goals:
        print(f"{pid}: inconclusive: {'; '.join(goals)}", file=sys.stderr)
        return 3
    print(
        f"{pid}: held on {evals} evaluations ({len(keys)} distinct and non-trivial) "
        f"in {ncases} cases, {wall:.1f} s"
    )
    return 0
