"""Drives the command line interface, each call in a process forked for it"""
import io
import os
import re
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

from rv.core import HarnessError

TITLES = {
    "monobit": "Frequency (Monobit) Test",
    "frequency_within_block": "Frequency within Block Test",
    "runs": "Runs Test",
    "longest_runs": "Longest Runs in Block Test",
    "binary_matrix_rank": "Matrix Rank Test",
    "spectral": "Discrete Fourier Transform (Spectral) Test",
    "non_overlapping_template_matching": "Non-Overlapping Template Matching Test",
    "overlapping_template_matching": "Overlapping Template Matching Test",
    "maurers_universal": "Maurer's Universal Test",
    "linear_complexity": "Linear Complexity Test",
    "serial": "Serial Test",
    "approximate_entropy": "Approximate Entropy Test",
    "cusum": "Cumulative Sums (Cusum) Test",
    "random_excursions": "Random Excursions Test",
    "random_excursions_variant": "Random Excursions Variant Test",
}
NAMES = {v: k for k, v in TITLES.items()}
SEQUENCE, SUMMARY = "Sequence To Test", "Test Results Summary"
CPU_S = 250


class Run:
    def __init__(self, code, out, err, opened):
        self.code = code
        self.out = out
        self.err = err
        self.opened = opened  # in a web browser

    def __repr__(self):
        tail = (self.err or self.out).strip().splitlines()[-1:] or [""]
        return f"exit code {self.code}, {tail[0][:200]!r}"


def _child(func, cwd, stdout, stderr, opened, columns, fsize, env, encoding):
    os.chdir(cwd)
    os.dup2(os.open(stdout, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644), 1)
    os.dup2(os.open(stderr, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644), 2)
    sys.stdout = io.TextIOWrapper(os.fdopen(1, "wb", closefd=False), encoding=encoding)
    sys.stderr = io.TextIOWrapper(os.fdopen(2, "wb", closefd=False), encoding=encoding, errors="backslashreplace", write_through=True)
    sys.__stdout__, sys.__stderr__ = sys.stdout, sys.stderr
    os.environ.pop("COLUMNS", None)
    if columns:
        os.environ["COLUMNS"] = str(columns)
    os.environ.update(env or {})
    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    resource.setrlimit(resource.RLIMIT_CPU, (CPU_S, CPU_S + 5))
    if fsize is not None:
        resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))

    import webbrowser

    class Stub(webbrowser.BaseBrowser):
        def open(self, url, *args, **kwargs):
            os.write(opened, (str(url) + "\n").encode("utf-8", "replace")[:4000])
            return True

    webbrowser.register("rv", None, Stub("rv"), preferred=True)
    code = 1
    try:
        func()
        code = 0
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    except BaseException:
        traceback.print_exc()
    try:
        sys.stdout.flush()
    except BaseException:
        code = code or 120
    os._exit(code & 0xFF)


def call(func, cwd, columns=None, fsize=None, env=None, stdout=None, encoding="utf-8"):
    """Calls a function in a process of its own, with its output captured"""
    d = tempfile.mkdtemp(prefix="rv-io-")
    try:
        out, err = (os.path.join(d, x) for x in ("out", "err"))
        reader, opened = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                _child(func, cwd, stdout or out, err, opened, columns, fsize, env, encoding)
            finally:
                os._exit(99)
        _, status = os.waitpid(pid, 0)
        os.close(opened)
        with os.fdopen(reader, "rb") as f:
            urls = f.read().decode("utf-8", "replace").split()

        def text(path):
            if not os.path.exists(path):
                return ""
            with open(path, "rb") as f:
                return f.read().decode(encoding, "replace")

        if os.WIFSIGNALED(status):
            sig = os.WTERMSIG(status)
            if sig == signal.SIGKILL:
                raise HarnessError("a process was killed")
            code = -sig
        else:
            code = os.WEXITSTATUS(status)
        return Run(code, text(out), text(err), urls)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def invoke(args, cwd, **kwargs):
    """``coinflip ARGS``"""
    from coinflip.cli.commands import main

    return call(lambda: main.main(args=[str(a) for a in args], prog_name="coinflip"), cwd, **kwargs)


ANSI = re.compile(r"\x1b\[[0-9;?]*[A-Za-z]|\x1b\][^\x07]*\x07")


def in_terminal(func, cwd, width, height=50):
    """Calls a function in a process of its own, at a terminal of some size"""
    import fcntl
    import struct
    import termios

    ours, theirs = os.openpty()
    fcntl.ioctl(theirs, termios.TIOCSWINSZ, struct.pack("HHHH", height, width, 0, 0))
    pid = os.fork()
    if pid == 0:
        try:
            os.close(ours)
            os.setsid()
            for fd in (0, 1, 2):
                os.dup2(theirs, fd)
            os.chdir(cwd)
            sys.stdin = io.TextIOWrapper(os.fdopen(0, "rb", closefd=False), encoding="utf-8")
            sys.stdout = io.TextIOWrapper(os.fdopen(1, "wb", closefd=False), encoding="utf-8", line_buffering=True)
            sys.stderr = io.TextIOWrapper(os.fdopen(2, "wb", closefd=False), encoding="utf-8", write_through=True)
            sys.__stdin__, sys.__stdout__, sys.__stderr__ = sys.stdin, sys.stdout, sys.stderr
            for x in ("COLUMNS", "LINES"):
                os.environ.pop(x, None)
            os.environ["TERM"] = "xterm-256color"
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            resource.setrlimit(resource.RLIMIT_CPU, (CPU_S, CPU_S + 5))
            code = 1
            try:
                func()
                code = 0
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except BaseException:
                traceback.print_exc()
            sys.stdout.flush()
            os._exit(code & 0xFF)
        finally:
            os._exit(99)
    os.close(theirs)
    data = b""
    while True:
        try:
            got = os.read(ours, 65536)
        except OSError:
            break
        if not got:
            break
        data += got
    os.close(ours)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        if os.WTERMSIG(status) == signal.SIGKILL:
            raise HarnessError("a process was killed")
        code = -os.WTERMSIG(status)
    else:
        code = os.WEXITSTATUS(status)
    text = ANSI.sub("", data.decode("utf-8", "replace")).replace("\r\n", "\n")
    return Run(code, text, "", [])


class Scratch:
    """A scratch directory which is removed afterwards"""

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="rv-")
        return self

    def __exit__(self, *exc):
        shutil.rmtree(self.path, ignore_errors=True)

    def file(self, name, data):
        path = os.path.join(self.path, name)
        with open(path, "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode("utf-8"))
        return path

    def __truediv__(self, name):
        return os.path.join(self.path, name)

    def listing(self):
        out = {}
        for root, _, names in os.walk(self.path):
            for name in names:
                path = os.path.join(root, name)
                with open(path, "rb") as f:
                    out[os.path.relpath(path, self.path)] = f.read()
        return out


RULE = re.compile(r"^─+ (\S.*\S) ─+$")


def sections(out):
    """(title, lines) of the parts of a console output; None is what comes first"""
    parts = [(None, [])]
    for line in out.split("\n"):
        m = RULE.match(line)
        if m:
            parts.append((m.group(1), []))
        else:
            parts[-1][1].append(line.rstrip())
    return [(t, strip(b)) for t, b in parts]


def strip(lines):
    lines = list(lines)
    while lines and not lines[-1].strip():
        lines.pop()
    while lines and not lines[0].strip():
        lines.pop(0)
    return lines


def by_title(out):
    found = {}
    for t, b in sections(out):
        if t is not None:
            found.setdefault(t, b)
    return found


OMIT = re.compile(r"^ *\.\.omitting (\d+) rows\.\.$")


def printed_rows(out):
    """Rows of the printed sequence, an integer for that many rows which are omitted"""
    rows = []
    inside = False
    for line in out.split("\n"):
        m = RULE.match(line)
        if m:
            if m.group(1) == SEQUENCE:
                inside = True
                continue
            if inside:
                break
        if not inside:
            continue
        if line.startswith(("  | ", " <  ")) and line.endswith((" |  ", "  > ")):
            rows.append(line[4:-4])
        elif OMIT.match(line.rstrip()):
            rows.append(int(OMIT.match(line.rstrip()).group(1)))
        elif rows and not line.startswith("  +"):
            break
    return rows


def matches_printed(rows, chars):
    """Whether printed rows agree with a sequence of characters"""
    widths = [len(r) for r in rows if isinstance(r, str)]
    if not widths:
        return "no sequence was printed"
    w = widths[0]
    at = 0
    for i, r in enumerate(rows):
        if isinstance(r, int):
            at += r * w
            if at >= len(chars):
                return f"{r} rows omitted, which is more than there are"
        else:
            if r != chars[at : at + w]:
                return f"row {i} shows {r!r}, expected {chars[at:at + w]!r}"
            at += w
    if at < len(chars):
        return f"{len(chars) - at} of {len(chars)} values are missing"
    return None


SUMMARY_ROW = re.compile(r"^║ (.+?) +║ (\S+) +║ (\S+) +║$")


def summary(out):
    """{title: (p-value, verdict)} and the tests listed as not summarisable"""
    rows, listed = {}, []
    for t, body in sections(out):
        if t != SUMMARY:
            continue
        for line in body:
            m = SUMMARY_ROW.match(line)
            if m and m.group(1) != "Statistical Test":
                rows[m.group(1)] = (m.group(2), m.group(3))
            elif line.strip().startswith("•"):
                listed.append(line.strip()[1:].strip())
    return rows, listed


def warm():
    """Imports what forked processes will need"""
    import coinflip.cli.commands  # noqa
    import coinflip.cli.report  # noqa

    time.time()
