"""Outcomes do not depend on the interpreter's environment"""
import json
import os
import subprocess
import sys

from rv import bits as B
from rv import calls, cli, envdriver, oracle
from rv.calls import need_all
from rv.core import HarnessError

PID = "P28"
LEVEL = "exploration"
RULE = (
    "Interpreters started afresh in some 40 environments (hash seeds, optimisation, development mode, locales, time zones, no variables, "
    "directories, descriptors, limits, and settings of NumPy, pandas, decimal and random made before and after coinflip is imported), which "
    "run the tests on seeded sequences of 12 kinds of values, the reference implementation and all commands; every result, to the "
    "last bit, every warning, output, stored file and report is compared with those of a plain interpreter. Distinct by environment and call."
)
ASSUMPTIONS = [
    "the help texts, which -OO strips, are not compared; click refuses to work in an ASCII locale",
    "environments which change how the terminal shows things (COLUMNS, TERM) or what a warning does are not compared",
    "both interpreters run on the same machine, with the same libraries",
]
HERE = os.path.dirname(os.path.abspath(__file__))
TESTS = list(cli.TITLES)
KINDS = ["01", "bools", "words", "letters", "long words", "floats", "large", "decimals", "dates", "mixed", "bytes", "tuples"]

# variables set (or dropped, None), flags of the interpreter, code run before and after coinflip is imported
ENVIRONMENTS = {
    "optimised": {"flags": ["-O"]},
    "optimised twice": {"flags": ["-OO"]},
    "development mode": {"flags": ["-X", "dev"]},
    "isolated": {"flags": ["-I"]},
    "no import of site's user directory": {"flags": ["-s"]},
    "locale C": {"vars": {"LC_ALL": "C", "PYTHONUTF8": None}},
    "ASCII locale": {"flags": ["-X", "utf8=0"], "vars": {"LC_ALL": "C", "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": None}, "commands": False},
    "no UTF-8 mode": {"flags": ["-X", "utf8=0"], "vars": {"PYTHONUTF8": None}},
    "locale POSIX": {"vars": {"LC_ALL": "POSIX", "LANG": "de_DE.UTF-8", "LANGUAGE": "de", "PYTHONUTF8": None}},
    "encoding of streams": {"vars": {"PYTHONIOENCODING": "ascii:strict"}},
    "time zone east": {"vars": {"TZ": "Pacific/Kiritimati"}},
    "time zone west": {"vars": {"TZ": "XYZ+11:30"}},
    "no variables": {"only": True},
    "no home": {"vars": {"HOME": None, "USER": None, "LOGNAME": None, "PATH": None}},
    "home missing": {"vars": {"HOME": "/nonexistent", "TMPDIR": "/nonexistent", "XDG_CACHE_HOME": "/nonexistent"}},
    "odd variables": {"vars": {"DEBUG": "1", "SEED": "5", "CI": "true", "NO_COLOR": "1", "PYTHONINSPECT": "", "BLOCKSIZE": "3"}},
    "colours forced": {"vars": {"TERM": "xterm-256color", "FORCE_COLOR": "1", "CLICOLOR_FORCE": "1", "COLORTERM": "truecolor", "PY_COLORS": "1"}},
    "no standard input": {"close": [0]},
    "standard error closed": {"close": [2]},
    "standard streams closed": {"close": [0, 1, 2]},
    "unwritable directory": {"cwd": "locked"},
    "directory of decoys": {"cwd": "elsewhere"},
    "root directory": {"cwd": "/"},
    "umask": {"before": "import os\nos.umask(0o077)"},
    "no garbage collection": {"before": "import gc\ngc.disable()"},
    "eager garbage collection": {"after": "import gc\ngc.set_threshold(50, 2, 2)"},
    "busy switching": {"before": "import sys\nsys.setswitchinterval(1e-6)"},
    "decimal context": {"after": "import decimal\ndecimal.getcontext().prec = 2\ndecimal.getcontext().rounding = decimal.ROUND_UP"},
    "random states": {"after": "import random\nimport numpy\nrandom.seed(7)\nnumpy.random.seed(7)"},
    "random states drawn from": {"after": "import random\nimport numpy\nrandom.seed(8)\nnumpy.random.seed(8)\n[random.random() for _ in range(10)]"},
    "NumPy ignores errors": {"before": "import numpy\nnumpy.seterr(all='ignore')"},
    "NumPy's print options": {"after": "import numpy\nnumpy.set_printoptions(precision=1, threshold=2, edgeitems=1, suppress=True, sign='+', floatmode='fixed')"},
    "pandas' display": {"after": "import pandas\npandas.set_option('display.max_rows', 2)\npandas.set_option('display.precision', 1)\npandas.set_option('display.float_format', '{:.0f}'.format)"},
    "pandas' copies": {"before": "import pandas\npandas.set_option('mode.copy_on_write', True)"},
    "pandas' accelerators": {"before": "import pandas\npandas.set_option('compute.use_bottleneck', False)\npandas.set_option('compute.use_numexpr', False)"},
    "loggers": {"before": "import logging\nlogging.basicConfig(level=logging.DEBUG)"},
    "other main thread stack": {"before": "import sys, threading\nthreading.stack_size(1 << 20)\nsys.setrecursionlimit(5000)"},
    "a thread of its own": {"thread": True},
    "a thread with a small stack": {"thread": True, "before": "import threading\nthreading.stack_size(1 << 19)"},
    "traced": {"after": "import sys\nsys.settrace(lambda *a: None)\nsys.setprofile(lambda *a: None)"},
    "modules loaded before": {"before": "import random, string, statistics, collections, fractions, scipy.stats, scipy.fft, pandas.testing, numpy.linalg, jinja2, altair, rich.console"},
}
for _seed in (1, 2, 3, 4294967295):
    ENVIRONMENTS[f"hash seed {_seed}"] = {"vars": {"PYTHONHASHSEED": str(_seed)}}


def plan(rng, tier):
    quick = tier == "quick"
    cases = []
    names = list(ENVIRONMENTS) + (["hash seed random"] * 3 if quick else ["hash seed random"] * 16)
    for _ in range(1 if quick else 3):
        for name in names:
            cases.append({"env": name, "seed": rng.randrange(1, 1 << 30), "job": rng.randrange(1 << 30)})
    # environments share the job of a plain interpreter by fours
    for i, case in enumerate(cases):
        case["job"] = cases[i - i % 6]["job"]
    groups = {}
    for case in cases:
        groups.setdefault(case["job"], []).append({"env": case["env"], "seed": case["seed"]})
    return [{"job": job, "envs": envs} for job, envs in groups.items()]


def make_job(seed):
    import random

    rng = random.Random(seed)
    sequences = []
    for kind in KINDS:
        for _ in range(2):
            n = rng.choice([2, 5, 9, 33, 60, 128, 140, 200, 400])
            bits = B.make(B.rand_spec(rng, n)).tolist()
            container = rng.choice(["list", "tuple", "series"])
            todo = []
            for test in TESTS:
                kwargs = calls.rand_kwargs(rng, test, n) if n >= max(oracle.MIN_N[test], 8) else {}
                todo.append([test, kwargs])
            sequences.append([kind, bits, container, todo])
    # refusals
    sequences.append(["words", [1] * 20, "list", [[t, {}] for t in TESTS]])
    sequences.append(["01", [1], "list", [[t, {}] for t in TESTS]])
    reference = [B.make(B.rand_spec(rng, n)).tolist() for n in (128, rng.choice([20, 100, 300]))]
    return {"sequences": sequences, "reference": reference, "tests": TESTS, "data": [rng.choice([0, 1]) for _ in range(rng.choice([20, 130, 300]))]}


def command_list(folder):
    """Commands and files of the directory"""
    f = lambda name: os.path.join(folder, name)  # noqa: E731
    return [
        ["run", f("words.txt"), f("words.out")], ["read", f("words.out")], ["report", f("words.out"), f("words.html")],
        ["run", f("bits.dat"), f("bits.out"), "-b"], ["read", f("bits.out")], ["report", f("bits.out"), f("bits.html")],
        ["run", f("bad.txt"), f("bad.out")], ["example-run", "-e", "Mersenne", "-n", "150", "-t", "serial"], ["nope"], ["run", "missing", "out"],
    ]


def decoys(folder):
    """Files which are not meant to be read, under names a program might look for"""
    for name in ("index.html", "randtests/monobit.html", "templates/index.html", "templates/randtests/monobit.html", "templates/monobit.html", "monobit.html",
                 "coinflip/templates/index.html", "setup.cfg", "pyproject.toml", "coinflip.cfg", "coinflip.ini", "coinflip.toml", ".coinflip", ".env", "words.txt",
                 "words.out", "bits.dat", "results.pickle"):
        path = os.path.join(folder, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w", encoding="utf-8") as f:
            f.write("decoy\n")


def start(env, case_seed, job, folder, obs):
    """The outcomes of a job in an environment"""
    job = dict(job, before=env.get("before", ""), after=env.get("after", ""), thread=bool(env.get("thread")))
    data = job.pop("data")
    os.mkdir(folder)
    words = ["tails", "heads"]
    with open(os.path.join(folder, "words.txt"), "w", encoding="utf-8") as f:
        f.write("\n".join(words[b] for b in data + [0, 1]) + "\n")
    with open(os.path.join(folder, "bits.dat"), "wb") as f:
        f.write(bytes((5 * i + b) % 256 for i, b in enumerate(data)))
    with open(os.path.join(folder, "bad.txt"), "w", encoding="utf-8") as f:
        f.write("1\n2\n3\n")
    with open(os.path.join(folder, "umlauts.txt"), "w", encoding="utf-8") as f:
        f.write("\n".join("äö"[b] for b in data + [1, 0]) + "\n")
    job["commands"] = command_list(folder) if env.get("commands", True) else []
    job["folder"] = folder
    paths = os.path.join(folder, "job.json"), os.path.join(folder, "found.json")
    with open(paths[0], "w", encoding="utf-8") as f:
        json.dump(job, f)
    kept = {k: os.environ[k] for k in ("PATH", "HOME", "LC_ALL", "PYTHONUTF8", "OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS") if k in os.environ}
    kept.update({"PYTHONHASHSEED": "0", "TERM": "dumb", "BROWSER": "true %s"})
    if env.get("only"):
        kept = {}
    for k, v in env.get("vars", {}).items():
        kept.pop(k, None)
        if v is not None:
            kept[k] = v
    if kept.get("PYTHONHASHSEED") == "random":
        kept["PYTHONHASHSEED"] = str(case_seed)
    cwd = folder
    if env.get("cwd") in ("locked", "elsewhere"):
        cwd = os.path.join(folder, env["cwd"])
        os.mkdir(cwd)
        if env["cwd"] == "elsewhere":
            decoys(cwd)
        os.chmod(cwd, 0o500 if env["cwd"] == "locked" else 0o700)
    elif env.get("cwd"):
        cwd = env["cwd"]
    import coinflip

    src = os.path.dirname(os.path.dirname(os.path.abspath(coinflip.__file__)))
    args = [sys.executable, "-B", "-W", "ignore", *env.get("flags", []), envdriver.__file__, src, *paths]
    shell = "exec " + " ".join(f"{fd}>&-" for fd in env.get("close", [])) + ' "$@"'
    p = subprocess.run(["/bin/sh", "-c", shell, "sh", *args], cwd=cwd, env=kept, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, encoding="utf-8", errors="replace", timeout=600)
    obs.count("interpreters started")
    if p.returncode < 0 and p.returncode == -9:
        raise HarnessError("an interpreter was killed")
    if p.returncode or not os.path.exists(paths[1]):
        return f"the interpreter ended with {p.returncode}: {(p.stderr or p.stdout)[-300:]!r}"
    with open(paths[1], encoding="utf-8") as f:
        text = f.read()
    return json.loads(text.replace(json.dumps(folder)[1:-1], "FOLDER"))


def first_difference(x, y):
    x, y = str(x), str(y)
    i = next((i for i, (a, b) in enumerate(zip(x, y)) if a != b), min(len(x), len(y)))
    return f"...{y[max(i - 40, 0):i + 60]!r}, in a plain interpreter ...{x[max(i - 40, 0):i + 60]!r}"


def compare(plain, found, commands):
    if isinstance(found, str):
        return found
    if not commands:
        plain = [x for x in plain if "coinflip " not in x[0]]
    if [x[0] for x in found] != [x[0] for x in plain]:
        a, b = ([x[0] for x in y] for y in (plain, found))
        return f"calls made {sorted(set(a) ^ set(b))[:3]}"
    for x, y in zip(plain, found):
        for what, a, b in zip(("outcome", "output or warnings"), x[1:], y[1:]):
            if a != b:
                return f"{what} of {x[0]}: {first_difference(a, b)}"
    return None


def run(case, obs):
    job = make_job(case["job"])
    with cli.Scratch() as d:
        plain = start({}, 0, job, d / "files", obs)
        if isinstance(plain, str):
            obs.fail(f"plain interpreter: {plain}", replay=case)
            return
        cli.shutil.rmtree(d / "files")
        for item in case["envs"]:
            name = item["env"]
            env = {"vars": {"PYTHONHASHSEED": "random"}} if name == "hash seed random" else ENVIRONMENTS[name]
            found = start(env, item["seed"], job, d / "files", obs)
            cli.shutil.rmtree(d / "files")
            bad = compare(plain, found, env.get("commands", True))
            if bad:
                obs.fail(f"environment {name!r}: {bad}", replay={"job": case["job"], "envs": [item]})
            obs.count(f"environment {name}")
            for x in plain:
                obs.count("outcomes compared")
                obs.seen((name, item["seed"] if "random" in name else 0, case["job"], x[0]))
    refused = sum("'raised'" in x[1] for x in plain if isinstance(x[1], str))
    obs.count("refusals among the plain outcomes", refused)
    obs.count("results among the plain outcomes", sum("'result'" in x[1][:12] for x in plain if isinstance(x[1], str)))


def goals(counters, tier):
    want = {f"environment {k}": 1 for k in ENVIRONMENTS}
    want.update({"environment hash seed random": 3, "outcomes compared": 10000, "refusals among the plain outcomes": 20, "results among the plain outcomes": 500})
    return need_all(counters, want)
