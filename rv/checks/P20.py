"""Data files are read exactly"""
import io
import os
import pathlib
import re
import signal
import time

import numpy as np

from rv import bits as B
from rv import cli
from rv.calls import need_all
from rv.monitor import is_refusal, observe

from coinflip.cli import parsing

PID = "P20"
LEVEL = "exploration"
RULE = (
    "Seeded text files of 35 kinds of values, each value spelled in several equal ways, in dialects of line ends, blank lines, "
    "quotes, byte order mark and missing final line end, given as paths, path objects and open files, under odd names and from pipes; large files whose kind of "
    "values shows late; binary files of every pair of bytes and seeded longer ones; some of each through the command line, where "
    "the printed sequence is the observation. Distinct by the contents of the file."
)
ASSUMPTIONS = [
    "text is UTF-8 without NUL characters; unquoted commas separate columns; decimal numbers are read as doubles",
    "files whose names end like those of compressed files are compressed, and names which look like URLs are URLs",
    "the words for missing values which pandas documents are not values",
    "values start with a space only where lines end in a line feed (pandas' tokeniser fails on them behind carriage returns)",
]

# kind -> (spellings of one value, spellings of the other, the values)
STR = object()
KINDS = {
    "01": (["0", "-0", "00", "+0"], ["1", "01", "+1"], (0, 1)),
    "plain 01": (["0"], ["1"], (0, 1)),
    "-5 7": (["-5", "-05"], ["7", "+7", "007"], (-5, 7)),
    "large": (["1000000000000000000"], ["1000000000000000001"], (10 ** 18, 10 ** 18 + 1)),
    "int64 ends": (["-9223372036854775808"], ["9223372036854775807"], (-(2 ** 63), 2 ** 63 - 1)),
    "uint64": (["9223372036854775808"], ["18446744073709551615"], (2 ** 63, 2 ** 64 - 1)),
    "uint64 small": (["1"], ["18446744073709551615"], (1, 2 ** 64 - 1)),
    "beyond 64": (["18446744073709551616"], ["18446744073709551617"], STR),
    "sign and uint64": (["-1"], ["18446744073709551615"], STR),
    "beyond float": (["9007199254740992"], ["9007199254740993"], (2 ** 53, 2 ** 53 + 1)),
    "floats": (["0.5", ".5", "5e-1", "0.50", "5E-1", "0.05e1"], ["1.5", "+1.5", "1.50", "15e-1"], (0.5, 1.5)),
    "int and float": (["0", "0.0", "0e5", "-0.0"], ["1.5"], (0.0, 1.5)),
    "integral floats": (["1.0", "1.", "1"], ["2.0", "2", "2e0"], (1.0, 2.0)),
    "floats near": (["0.3"], ["0.30000000000000004"], (0.3, 0.30000000000000004)),
    "floats nearer": (["1"], ["1.0000000000000002"], (1.0, 1.0000000000000002)),
    "floats long": (["123456789.12345678"], ["123456789.12345679"], (123456789.12345678, 123456789.12345679)),
    "floats ends": (["5e-324", "4.9406564584124654e-324"], ["1.7976931348623157e308"], (5e-324, 1.7976931348623157e308)),
    "subnormal": (["1e-320"], ["2e-320"], (1e-320, 2e-320)),
    "inf": (["inf", "Infinity", "+inf"], ["0", "0.0"], (float("inf"), 0.0)),
    "exponents": (["1e3", "1000", "1E+3", "1000.0"], ["1e-3", "0.001"], (1000.0, 0.001)),
    "bools": (["True", "TRUE", "true"], ["False", "FALSE", "false"], (True, False)),
    "bool and digit": (["True"], ["0"], STR),
    "words": (["heads"], ["tails"], STR),
    "case": (["a"], ["A"], STR),
    "same initial": (["head"], ["heads"], STR),
    "spaces inside": (["a b"], ["a  b"], STR),
    "spaces around": (["a"], [" a"], STR),
    "trailing space": (["a"], ["a "], STR),
    "digit and letter": (["1"], ["a"], STR),
    "leading zero strings": (["01x"], ["1x"], STR),
    "unicode": (["ä"], ["漢字"], STR),
    "latin": (["ä"], ["ö"], STR),
    "decomposed": (["é"], ["e\u0301"], STR),
    "punctuation": (["#"], [";"], STR),
    "tabs": (["a\tb"], ["a b"], STR),
    "quotes within": (["'a'"], ["`a"], STR),
    "escapes": ["\\n", "\\t"],
    "hex": (["0x10"], ["0x11"], STR),
    "underscore": (["1_0"], ["1_1"], STR),
    "dates": (["2020-01-01"], ["2020-01-02"], STR),
    "percent": (["5%"], ["6%"], STR),
    "markup": (["[b]"], ["[/b]"], STR),
    "almost missing": (["None"], ["NaNs"], STR),
    "long": (["x" * 5000 + "y"], ["x" * 5000 + "z"], STR),
    "overflow": (["1e999"], ["-1e999"], STR),
}
KINDS["escapes"] = (["\\n"], ["\\t"], STR)
QUOTED = {  # only with quotes
    "commas": ("a,b", "a,c"),
    "quote": ('a"b', "a'b"),
    "line ends": ("a\nb", "a\n\nb"),
    "comma only": (",", ",,"),
    "quoted words": ("yes", "no"),
    "quote only": ('"', '""'),
}
EOLS = {"lf": "\n", "crlf": "\r\n", "cr": "\r"}
WAYS = ["str", "path", "open", "stringio"]
# pandas takes names which end like those of compressed files, or start like URLs, for what they seem
NAMES = ["data", "data.csv", "my data.txt", "donn\u00e9es", "d[0]*.txt", "[red]", "~x", "-x", "--binary", "x.pickle", "x.html", "x#y", "%41?", "a/b/x", "../up", "link",
         "x.json", "x.bin", "x.npy", "{x}", "x\ny", "'x'", "1", "0"]
BINARY_NAMES = ["x.gz", "x.zip", "x.csv"]


def plan(rng, tier):
    quick = tier == "quick"
    cases = []
    for kind in list(KINDS) + ["quoted " + k for k in QUOTED]:
        for _ in range(6 if quick else 60):
            cases.append({
                "k": "text", "kind": kind, "spec": B.rand_spec(rng, rng.choice([2, 3, 5, 20, 100, 1000])),
                "eol": rng.choice(list(EOLS)), "final": rng.random() < 0.7, "blank": rng.random() < 0.3,
                "quote": rng.choice([0, 0, 0, 1, 2]), "bom": rng.random() < 0.15, "way": rng.choice(WAYS),
                "seed": rng.randrange(1 << 30)})
    for late in ("a", "0.5", "18446744073709551615", "x1", "True", "1e-5"):
        for first in ("0", "1", "7"):
            n = rng.choice([rng.randrange(270000, 330000), rng.randrange(525000, 1200000)]) if quick else rng.randrange(270000, 3000000)
            cases.insert(0, {"k": "late", "first": first, "late": late, "n": n, "only": rng.choice([1, 1, 1000]), "seed": rng.randrange(1 << 30)})
    for n in (300000, 1200000) if quick else (300000, 3000000):
        for kind in [k for k in KINDS if k != "long"] if n == 300000 else ["plain 01"]:
            cases.insert(0, {"k": "text", "kind": kind, "spec": {"g": "random", "n": n, "seed": rng.randrange(1 << 30)}, "eol": "lf",
                             "final": True, "blank": False, "quote": 0, "bom": False, "way": "str", "seed": 1})
    for i, kind in enumerate([k for k in KINDS if k != "long"] + ["quoted " + k for k in QUOTED]):
        for j, eol in enumerate(EOLS):
            for quote in ([(i + j) % 2] if quick and kind != "spaces around" else [0, 1]):
                offsets = sorted(rng.sample(range(14), 4)) if quick and kind != "spaces around" else list(range(14))
                cases.append({"k": "boundary", "kind": kind, "eol": eol, "quote": quote, "offsets": offsets, "seed": rng.randrange(1 << 30)})
    for start in range(0, 65536, 2048):
        cases.append({"k": "pairs", "from": start, "to": start + 2048})
    for _ in range(40 if quick else 1000):
        cases.append({"k": "binary", "n": rng.choice([1, 2, 3, 10, 255, 256, 257, 1000, 5000]), "seed": rng.randrange(1 << 30),
                      "alphabet": rng.choice(["all", "all", "text", "few", "eol", "high"])})
    for n in [100000, 1150000] + ([] if quick else [5000000]):
        cases.insert(0, {"k": "binary", "n": n, "seed": 5, "alphabet": "all"})
    for kind in ["plain 01", "-5 7", "words", "floats", "bools", "uint64", "latin", "digit and letter", "case", "quoted commas", "01"]:
        for _ in range(1 if quick else 10):
            cases.append({"k": "cli", "kind": kind, "spec": B.rand_spec(rng, rng.choice([16, 72, 73, 200, 500])), "eol": rng.choice(list(EOLS)),
                          "final": rng.random() < 0.7, "blank": rng.random() < 0.3, "quote": rng.choice([0, 1, 2]), "bom": False,
                          "seed": rng.randrange(1 << 30)})
    for i, name in enumerate(NAMES + BINARY_NAMES):
        for binary in ([True] if name in BINARY_NAMES else [False, True] if i % 3 == 0 or not quick else [i % 3 == 1]):
            cases.append({"k": "named", "name": name, "binary": binary, "n": rng.randrange(2, 40), "seed": rng.randrange(1 << 30)})
    for i in range(6 if quick else 40):
        cases.append({"k": "pipe", "binary": i % 2 == 1, "n": rng.choice([3, 40, 9000, 30000]), "way": ["command", "function", "function"][i % 3],
                      "seed": rng.randrange(1 << 30)})
    for n in [1, 2, 9, 30, 100] + ([] if quick else [500, 1000]):
        cases.append({"k": "cli binary", "n": n, "seed": rng.randrange(1 << 30)})
    return cases


def spell(case, bits):
    """(tokens, values)"""
    rs = np.random.RandomState(case["seed"] % 2 ** 32)
    kind = case["kind"]
    if kind.startswith("quoted "):
        pair = QUOTED[kind[7:]]
        return ['"' + pair[b].replace('"', '""') + '"' for b in bits], [pair[b] for b in bits]
    zero, one, values = KINDS[kind]
    tokens = []
    for b in bits:
        options = (zero, one)[b]
        tokens.append(options[rs.randint(len(options))])
    faces = (zero[0], one[0]) if values is STR else values
    want = [faces[b] for b in bits]
    if case["quote"]:
        tokens = ['"' + t.replace('"', '""') + '"' if case["quote"] == 1 or rs.rand() < 0.5 else t for t in tokens]
    return tokens, want


def text_of(case, bits):
    rs = np.random.RandomState(case["seed"] % 2 ** 32 ^ 1)
    tokens, want = spell(case, bits)
    eol = EOLS[case["eol"]]
    if eol == "\r" and any(" " in t[:1] for t in tokens):
        eol = "\n"  # which pandas cannot tokenise
    lines = []
    for t in tokens:
        if case["blank"] and rs.rand() < 0.1:
            lines.append("")
        lines.append(t)
    text = eol.join(lines) + (eol if case["final"] else "") + (eol * 2 if case["blank"] else "")
    return ("\ufeff" if case.get("bom") else "") + text, want


def same(got, want):
    """Values and their kind"""
    if isinstance(want, bool):
        return isinstance(got, (bool, np.bool_)) and bool(got) == want
    if isinstance(want, str):
        return isinstance(got, str) and got == want
    return not isinstance(got, (str, bool, np.bool_)) and got == want


def compare(got, want, data=None):
    """What is wrong, where the known loss of spaces (see LOST) only counts when nothing else is"""
    got = list(got)
    if len(got) != len(want):
        return f"{len(got)} values were read, the file has {len(want)}"
    lost = None
    for i, (g, w) in enumerate(zip(got, want)):
        if not same(g, w):
            bad = f"value {i} was read as {g!r:.80}, expected {w!r:.80}"
            if data is None or not spaces_lost(data, i, g, w):
                return bad
            lost = lost or f"{LOST}: {bad}"
    return lost


# pandas reads text by as many characters, and forgets the spaces before a value which end a part
PART = 262144
LOST = "spaces before a value are lost where a part of 262144 characters of the text ends within or after them"


def spaces_lost(data, i, got, want):
    if not (isinstance(want, str) and isinstance(got, str) and want[:1] in " \t"):
        return False
    start = 0
    for n, m in enumerate(m for m in re.finditer(r"[^\r\n]+", data) if m.group().strip()):
        if n == i:
            start = m.start()
            break
    spaces = len(want) - len(want.lstrip(" \t"))
    end = start // PART * PART + PART
    return start < end <= start + spaces and data[start : start + len(want)] == want and got == want[end - start :]


def run(case, obs):
    {"text": text, "late": late, "boundary": boundary, "pairs": pairs, "binary": binary, "cli": cli_text, "cli binary": cli_binary,
     "named": named, "pipe": pipe}[case["k"]](case, obs)


def read(path, way, text):
    if way == "str":
        return observe(parsing.parse_text, path)
    if way == "path":
        return observe(parsing.parse_text, pathlib.Path(path))
    if way == "open":
        with open(path, encoding="utf-8-sig", newline="") as f:
            return observe(parsing.parse_text, f)
    return observe(parsing.parse_text, io.StringIO(text.lstrip("\ufeff"), newline=""))


def text(case, obs):
    bits = B.make(case["spec"]).tolist()
    data, want = text_of(case, bits)
    with cli.Scratch() as d:
        out = read(d.file("data.txt", data), case["way"], data)
    seen = data.lstrip("\ufeff") if case["way"] in ("open", "stringio") else data
    bad = repr(out) if out.exc is not None else compare(out.value, want, seen)
    if bad and bad.startswith(LOST):
        obs.fail(f"{bad}, text of {case['kind']!r}", replay=case)
    elif bad:
        obs.fail(f"text of {case['kind']!r} ({data[:60]!r}..., {len(bits)} values): {bad}", replay=case)
    obs.count(f"kind {case['kind']}")
    obs.count("text files read")
    obs.count("values read", len(bits))
    obs.seen(data[:100000], sample={"text": data[:80], "values": [repr(w)[:40] for w in want[:4]]})


def boundary(case, obs):
    """Lines of all kinds where the parts end in which pandas reads a text"""
    kind, eol = case["kind"], EOLS[case["eol"]]
    rng = np.random.RandomState(case["seed"] % 2 ** 32)
    for off in case["offsets"]:
        bits = rng.randint(0, 2, 40).tolist()
        data, want = text_of(dict(case, final=True, blank=False), bits)
        if kind.startswith("quoted "):
            token, value = '"' + QUOTED[kind[7:]][0].replace('"', '""') + '"', QUOTED[kind[7:]][0]
        else:
            (token, *_), _, values = KINDS[kind]
            value = token if values is STR else values[0]
            token = '"' + token + '"' if case["quote"] else token
        if eol == "\r" and (data[:1] == " " or "\n" in data):
            eol = "\n"
        head = (PART - 40) // len(token + eol)
        data = (token + eol) * head + eol * ((PART - off - head * len(token + eol)) // len(eol)) + data
        with cli.Scratch() as d:
            out = observe(parsing.parse_text, d.file("data", data))
        bad = repr(out) if out.exc is not None else compare(out.value, [value] * head + want, data)
        if bad:
            what = f"text of {kind!r}, line ends {case['eol']}, parts ending {off} characters into {data[PART - off:][:30]!r}"
            obs.fail(f"{bad}, {what}" if bad.startswith(LOST) else f"{what}: {bad}", replay=dict(case, offsets=[off]))
        obs.count("texts of more than a part")
        obs.seen(("boundary", kind, case["eol"], case["quote"], off))


def late(case, obs):
    """The kind of values only shows at the end of a large file"""
    n, first, last = case["n"], case["first"], case["late"]
    tail = max(case["only"], 1)
    tokens = [first] * (n - tail) + [last] * tail
    rs = np.random.RandomState(case["seed"] % 2 ** 32)
    if rs.rand() < 0.5:
        tokens[-1], tokens[-1 - tail] = tokens[-1 - tail], tokens[-1]
    with cli.Scratch() as d:
        out = observe(parsing.parse_text, d.file("data", "\n".join(tokens) + "\n"))
    if last in ("a", "x1", "True"):
        want = tokens
    elif last == "18446744073709551615":
        want = [int(t) for t in tokens]
    else:
        want = [float(t) for t in tokens]
    bad = repr(out) if out.exc is not None else compare(out.value, want)
    if bad:
        obs.fail(f"{n} lines of {first!r} up to {tail} of {last!r} at the end: {bad}", replay=case)
    obs.count("large files read")
    obs.count("values read", n)
    obs.seen(("late", first, last, n))


def bits_of(data):
    return [(byte >> (7 - i)) & 1 for byte in data for i in range(8)]


def check_binary(path, data, obs, case):
    with open(path, "wb") as f:
        f.write(data)
    want = bits_of(data)
    out = observe(parsing.parse_binary, path)
    if len(set(want)) < 2:
        bad = None if out.exc is not None and is_refusal(out.exc, ["NonBinarySequenceError"]) else f"{out!r}, expected a refusal"
        obs.count("constant binary files refused")
    else:
        bad = repr(out) if out.exc is not None else compare(out.value, want)
        obs.count("bits read", len(want))
    if bad:
        obs.fail(f"binary file {data[:20]!r} of {len(data)} bytes: {bad}", replay=case)
    obs.count("binary files read")
    obs.seen(("binary", data[:5000]))


def pairs(case, obs):
    with cli.Scratch() as d:
        for v in range(case["from"], case["to"]):
            check_binary(d / "data", bytes([v >> 8, v & 255]), obs, {"k": "pairs", "from": v, "to": v + 1})
            if obs.failed:
                return


def binary(case, obs):
    rs = np.random.RandomState(case["seed"] % 2 ** 32)
    n = case["n"]
    alphabet = {"all": range(256), "text": b"01\n", "few": [0, 255], "eol": b"\r\n\x1a\x00\xef\xbb\xbf", "high": range(128, 256)}[case["alphabet"]]
    data = bytes(np.array(list(alphabet), dtype=np.uint8)[rs.randint(0, len(alphabet), size=n)])
    with cli.Scratch() as d:
        check_binary(d / "data.bin", data, obs, case)


def printed(case, obs, args, data, want, what):
    """Through the command line, one character for each value"""
    cli.warm()
    with cli.Scratch() as d:
        path = d.file("data", data)
        r = cli.invoke(["run", path, d / "out.pickle", *args], d.path)
        stored = None
        if r.code == 0:
            from coinflip.cli.report import load_results

            stored = list(load_results(d / "out.pickle").series)
        os.unlink(path)
    if r.code != 0:
        obs.fail(f"run of {what}: {r!r}", replay=case)
        return
    bad = compare(stored, want)
    if bad:
        bad = f"in the results: {bad}"
    else:
        rows = cli.printed_rows(r.out)
        shown = [x for x in rows if isinstance(x, str)]
        chars = set("".join(shown))
        if len(chars) != 2 and len(want) <= 500:
            bad = f"{len(chars)} characters are used for the printed sequence"
        else:
            # which character stands for which value is another property's matter
            first, other = shown[0][0], next(iter(chars - {shown[0][0]}), "")
            bad = cli.matches_printed(rows, "".join(first if w == want[0] else other for w in want))
    if bad:
        obs.fail(f"run of {what}: {bad}", replay=case)
    obs.count("runs of the command")
    obs.seen(("cli", data if isinstance(data, bytes) else data.encode()))


def cli_text(case, obs):
    bits = B.make(case["spec"]).tolist()
    data, want = text_of(case, bits)
    printed(case, obs, [], data, want, f"text of {case['kind']!r}")


def cli_binary(case, obs):
    rs = np.random.RandomState(case["seed"] % 2 ** 32)
    data = bytes([rs.randint(1, 255)]) + bytes(rs.randint(0, 256, size=case["n"] - 1).astype(np.uint8))
    printed(case, obs, [["-b", "--binary"][case["n"] % 2]], data, bits_of(data), f"{case['n']} bytes")


def some_data(case):
    """(contents, values)"""
    rs = np.random.RandomState(case["seed"] % 2 ** 32)
    if case["binary"]:
        data = b"\x1f\x8b"[: case["n"]] + bytes(rs.randint(0, 256, size=case["n"] - 2).astype(np.uint8))
        return data, bits_of(data)
    want = [7, 5] + [int(x) for x in rs.choice([5, 7], size=4 * case["n"] - 2)]
    return "".join(f"{x}\n" for x in want).encode(), want


def function_and_command(d, path, case, obs, want, what):
    """Outcomes of reading by the function, and by the command, in a process of its own"""
    import pickle

    def work():
        value = (parsing.parse_binary if case["binary"] else parsing.parse_text)(path)
        with open(d / "read", "wb") as f:
            pickle.dump(list(value), f)

    way = case.get("way")
    if way != "command":
        r = cli.call(work, d / "w")
        if r.code:
            return f"{r!r}"
        with open(d / "read", "rb") as f:
            bad = compare(pickle.load(f), want)
        if bad:
            return bad
    if way != "function":
        r = cli.invoke(["run", *(["-b"] if case["binary"] else []), "--", path, d / "out.pickle"], d / "w")
        if r.code:
            return f"run: {r!r}"
        from coinflip.cli.report import load_results

        bad = compare(list(load_results(d / "out.pickle").series), want)
        if bad:
            return f"in the results of run: {bad}"
    return None


def named(case, obs):
    """Whatever the name of the file"""
    cli.warm()
    data, want = some_data(case)
    name = case["name"]
    with cli.Scratch() as d:
        os.mkdir(d / "w")
        os.makedirs(os.path.join(d / "w", os.path.dirname(name)), exist_ok=True)
        path = os.path.join(d / "w", name)
        with open(d / "target" if name == "link" else path, "wb") as f:
            f.write(data)
        if name == "link":
            os.symlink(d / "target", path)
        bad = function_and_command(d, name, case, obs, want, name)
    if bad:
        obs.fail(f"{'binary' if case['binary'] else 'text'} file named {name!r}: {bad}", replay=case)
    obs.count("files of all names read")
    obs.seen(("named", name, case["binary"], case["n"]))


def pipe(case, obs):
    """From a pipe, which can be read once"""
    cli.warm()
    data, want = some_data(case)
    with cli.Scratch() as d:
        os.mkdir(d / "w")
        path = d / "w/pipe"
        os.mkfifo(path)
        writer = os.fork()
        if writer == 0:
            try:
                while True:
                    with open(path, "wb") as f:
                        f.write(data)
                    data = b""
                    time.sleep(0.02)
            except BrokenPipeError:
                while True:
                    time.sleep(1)
            finally:
                os._exit(0)
        try:
            bad = function_and_command(d, path, case, obs, want, "pipe")
        finally:
            os.kill(writer, signal.SIGKILL)
            os.waitpid(writer, 0)
    if bad:
        obs.fail(f"{'bytes' if case['binary'] else 'text'} of {len(data)} from a pipe, by the {case['way']}: {bad}", replay=case)
    obs.count("pipes read")
    obs.seen(("pipe", case["binary"], case["way"], case["n"]))


def goals(counters, tier):
    want = {f"kind {k}": 6 for k in KINDS}
    want.update({"large files read": 18, "binary files read": 65536, "constant binary files refused": 2, "runs of the command": 15, "texts of more than a part": 500, "files of all names read": len(NAMES), "pipes read": 5})
    return need_all(counters, want)
