"""Worker processes which share no locks: one which dies, or is ended, cannot hold up the others"""
import ctypes
import multiprocessing as mp
import os
import resource
import signal
import time
from multiprocessing.connection import wait

PR_SET_PDEATHSIG = 1
BLOCKED_S = 150
MEMORY = 3500 << 20  # of each process
ctx = mp.get_context("fork")


class Died:
    """Stands for the outcome of a case whose process ended before it gave one"""

    def __init__(self, case, exitcode, blocked=False):
        self.case = case
        self.exitcode = exitcode
        self.blocked = blocked


def _serve(conn, work, parent):
    os.setpgid(0, 0)
    ctypes.CDLL(None).prctl(PR_SET_PDEATHSIG, signal.SIGKILL)
    if os.getppid() != parent:
        return
    resource.setrlimit(resource.RLIMIT_DATA, (MEMORY, resource.getrlimit(resource.RLIMIT_DATA)[1]))
    while True:
        try:
            case = conn.recv()
        except EOFError:
            return
        if case is None:
            return
        conn.send(work(case))


def processor_ticks():
    """{process: (parent, ticks of the processor which it has used, whether it wants to go on)}"""
    found = {}
    for pid in filter(str.isdigit, os.listdir("/proc")):
        try:
            with open(f"/proc/{pid}/stat", "rb") as f:
                fields = f.read().rsplit(b")", 1)[1].split()
        except OSError:
            continue
        found[int(pid)] = int(fields[1]), int(fields[11]) + int(fields[12]), fields[0] in (b"R", b"D")
    return found


class Worker:
    def __init__(self, work):
        self.conn, theirs = ctx.Pipe()
        self.process = ctx.Process(target=_serve, args=(theirs, work, os.getpid()), daemon=True)
        self.process.start()
        theirs.close()
        self.done = 0
        self.case = None

    def give(self, case):
        self.case = case
        self.seen, self.since = None, time.time()
        try:
            self.conn.send(case)
        except OSError:
            pass  # it died, which the next wait() tells

    def take(self):
        try:
            got = self.conn.recv() if self.conn.poll() else None
        except (EOFError, OSError):
            got = None
        if got is None:
            self.process.join(5)
            return Died(self.case, self.process.exitcode)
        self.done += 1
        return got

    def blocked(self, table):
        """Whether neither it nor its children have run for long"""
        family, grown = {self.process.pid}, True
        while grown:
            more = {pid for pid, (parent, _, _) in table.items() if parent in family} - family
            grown = bool(more)
            family |= more
        now = [(pid, table[pid][1]) for pid in sorted(family) if pid in table]
        if now != self.seen or any(table[pid][2] for pid, _ in now):
            self.seen, self.since = now, time.time()
        return time.time() - self.since > BLOCKED_S

    def retire(self):
        try:
            self.conn.send(None)
        except OSError:
            pass
        self.conn.close()
        self.process.join(5)
        self.kill()

    def kill(self):
        try:
            os.killpg(self.process.pid, signal.SIGKILL)  # with the processes it started
        except OSError:
            pass
        if self.process.is_alive():
            self.process.kill()
        self.process.join(5)


def outcomes(work, cases, nproc, tasks_per_child, deadline):
    """Yields the outcome of each case as it comes, until ``deadline()``; whatever still runs then is ended"""
    todo = iter(cases)
    workers = []
    left = True
    try:
        while True:
            busy = [w for w in workers if w.case is not None]
            while left and len(busy) < nproc:
                case = next(todo, None)
                if case is None:
                    left = False
                    break
                idle = next((w for w in workers if w.case is None), None)
                if idle is None:
                    idle = Worker(work)
                    workers.append(idle)
                idle.give(case)
                busy.append(idle)
            if not busy:
                return
            ready = []
            while not ready:
                rest = deadline() - time.time()
                if rest <= 0:
                    return
                ready = wait([x for w in busy for x in (w.conn, w.process.sentinel)], min(rest, 5))
                if not ready:
                    table = processor_ticks()
                    stuck = [w for w in busy if w.blocked(table)]
                    for w in stuck:
                        w.kill()
                        workers.remove(w)
                        yield Died(w.case, None, blocked=True)
                    if stuck:
                        break
            for w in busy:
                if w.conn in ready or w.process.sentinel in ready:
                    got = w.take()
                    w.case = None
                    if isinstance(got, Died):
                        w.kill()
                        workers.remove(w)
                    elif tasks_per_child and w.done >= tasks_per_child:
                        w.retire()
                        workers.remove(w)
                    yield got
    finally:
        for w in workers:
            w.kill()
