"""The scheduler: runs simulated processes in lock-step at storage-operation granularity.

A World owns one scratch directory (the simulated disk), a set of simulated
processes (forks of the runner that execute the real tools under the preload
seam), a fault plan and a schedule.  Every storage operation of every simulated
process arrives here and is granted, altered or refused; at any time at most one
simulated process runs.  All decisions come from the scenario, so a scenario is
one exactly repeatable execution.
"""
import errno
import os
import random
import select
import signal
import struct
import time

REQ = struct.Struct("<iiqqii1024s")
REP = struct.Struct("<iiqq")
KINDS = [None, "open", "write", "read", "close", "trunc", "rename", "unlink", "mkdir", "rmdir",
         "fsync", "mmapw", "msync", "link", "opendir", "choose", "note"]
GO, FAIL, LIMIT, CRASH = 0, 1, 2, 3
MUTATING = {"write", "close", "trunc", "rename", "unlink", "mkdir", "rmdir", "mmapw", "msync", "link"}
BASE_NS = 1_700_000_000 * 10**9


class HarnessError(Exception):
    """The simulator itself failed (never a property violation)."""


class Decider:
    """Choice source: a recorded list (then 0 for ever) or a seed; records what it answered."""

    def __init__(self, spec=None):
        spec = spec or {}
        self.fixed = list(spec["list"]) if "list" in spec else None
        self.rng = None if self.fixed is not None else random.Random(f"choices:{spec.get('seed', 0)}")
        self.bias = spec.get("bias", 0.0)     # probability of answering 0 (keeps some runs near-FIFO)
        self.record = []

    def choose(self, n):
        if self.fixed is not None:
            v = self.fixed[len(self.record)] if len(self.record) < len(self.fixed) else 0
            v = min(v, n - 1)
        elif n <= 1 or self.rng.random() < self.bias:
            v = 0
        else:
            v = self.rng.randrange(n)
        self.record.append(v)
        return v


class Proc:
    def __init__(self, idx, job):
        self.idx, self.job = idx, job
        self.pid = self.rd = self.wr = self.pidfd = None
        self.pending = None
        self.exited = False
        self.status = None            # ("exit", code) | ("signal", n) | ("timeout",)
        self.log = []                 # (kind, path, a, b, action)
        self.counts = {}              # per class op counters
        self.nops = 0
        self.preempted = -1
        self.notes = []
        self.workers = {}
        self.sticky = []              # active persistent faults
        self.crashed = False
        self.now = BASE_NS
        self.bytes_written = 0
        self.rawstatus = None
        self.paths = set()            # paths written/created/removed by this process

    def decided(self):
        """The pool/thread decisions taken in this process, in order."""
        return [(e[2], e[3], e[4]) for e in self.log if e[1] == "choose"]

    def name(self):
        return self.job.get("name", f"p{self.idx}")


def classes(kind, flags, proc):
    """The fault-matching classes an operation belongs to."""
    out = ["any", kind]
    if kind == "open":
        out.append("creat" if flags & os.O_CREAT else "openr")
        if flags & 3:
            out.append("openw")
    if kind in MUTATING or (kind == "open" and flags & (os.O_CREAT | os.O_TRUNC)):
        out.append("mut")
    if kind in ("write", "mkdir", "link") or (kind == "open" and flags & os.O_CREAT) or kind == "mmapw":
        out.append("space")
    return out


# fault kind -> class of operations among which its position k is counted
FAULT_CLASS = {
    "crash": "any", "crash_mut": "mut", "torn": "write", "enospc": "space", "enospc_once": "space", "eio": "write",
    "closelost": "close", "closefail": "close", "short": "write", "eintr": "write", "eintr_r": "read",
    "eio_read": "read", "short_read": "read", "open_eacces": "openw", "open_emfile": "openr", "open_eio": "openr",
    "enomem_map": "mmapw", "fsync_eio": "fsync", "rename_fail": "rename", "unlink_fail": "unlink",
    "enospc_w": "write", "enospc_once_w": "write", "torn_w": "write", "crash_w": "write", "crash_c": "close",
    "mkdir_fail": "mkdir", "clock_jump": "any", "msync_fail": "msync",
}


class World:
    def __init__(self, root, logdir, spawn, scenario, timeout=60.0):
        """spawn(job, root, logdir, rd, wr, world) -> pid   (forks the simulated process)"""
        self.root, self.logdir, self.spawn = root, logdir, spawn
        self.sc = scenario
        self.procs = []
        self.decider = Decider(scenario.get("choices"))
        self.faults = [dict(f) for f in scenario.get("faults", [])]
        for f in self.faults:
            f["fired"] = 0
        self.switches = {int(a): b for a, b in scenario.get("switches", [])}
        c = scenario.get("crit")      # preempt before operations of certain kinds: {"seed", "p", "kinds"}
        self.crit = (random.Random(f"crit:{c['seed']}"), c["p"], set(c["kinds"])) if c else None
        self.step = 0
        self.timeout = timeout
        self.tick = scenario.get("tick_ns", 1_000_000)
        self.t0 = scenario.get("clock_ns", BASE_NS)
        self.now = self.t0
        self.jumps = 0
        self.interleaving = []
        self.watch = None             # callable(world, proc, kind, path) run before every operation is granted

    # -- process control ------------------------------------------------
    def start(self, job):
        p = Proc(len(self.procs), job)
        r1, w1 = os.pipe()            # child -> scheduler
        r2, w2 = os.pipe()            # scheduler -> child
        p.now = self.now
        pid = self.spawn(job, self.root, self.logdir, r2, w1, self, p.idx)
        os.close(w1)
        os.close(r2)
        p.pid, p.rd, p.wr = pid, r1, w2
        p.pidfd = os.pidfd_open(pid)
        self.procs.append(p)
        self._wait(p)
        return p

    def _reap(self, p):
        try:
            pid, st = os.waitpid(p.pid, 0)
        except ChildProcessError:
            st = 0
        p.rawstatus = st
        if p.status is None:
            p.status = ("exit", os.WEXITSTATUS(st)) if os.WIFEXITED(st) else ("signal", os.WTERMSIG(st))
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        for fd in (p.rd, p.wr, p.pidfd):
            os.close(fd)
        p.exited, p.pending = True, None

    def _wait(self, p):
        """Run p until its next operation or its end."""
        deadline = time.monotonic() + self.timeout
        while True:
            left = deadline - time.monotonic()
            if left <= 0:
                p.status = ("timeout", 0)
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                os.kill(p.pid, signal.SIGKILL)
                self._reap(p)
                return
            r, _, _ = select.select([p.rd, p.pidfd], [], [], left)
            if p.rd in r:
                buf = b""
                while len(buf) < REQ.size:
                    k = os.read(p.rd, REQ.size - len(buf))
                    if not k:
                        break
                    buf += k
                if len(buf) == REQ.size:
                    kind, flags, a, b, pid, plen, path = REQ.unpack(buf)
                    p.pending = (KINDS[kind], flags, a, b, pid, path[:plen].decode("utf-8", "replace"))
                    return
                self._reap(p)
                return
            if p.pidfd in r:
                self._reap(p)
                return

    def _reply(self, p, action, err=0, n=0):
        p.pending = None
        os.write(p.wr, REP.pack(action, err, n, p.now))
        self._wait(p)

    # -- one operation -----------------------------------------------------
    def grant(self, p):
        kind, flags, a, b, pid, path = p.pending
        w = p.workers.setdefault(pid, len(p.workers))
        if kind == "choose":
            v = self.decider.choose(int(a))
            p.log.append((w, "choose", path, int(a), v, 0))
            self._reply(p, GO, 0, v)
            return
        if kind == "note":
            p.notes.append((path, int(a), int(b)))
            p.log.append((w, "note", path, int(a), int(b), 0))
            self._reply(p, GO)
            return
        self.step += 1
        p.nops += 1
        self.now += self.tick
        p.now = self.now
        cl = classes(kind, flags, p)
        for c in cl:
            p.counts[c] = p.counts.get(c, 0) + 1
        if "mut" in cl or (kind == "open" and flags & 3):
            for q in path.split("\t"):
                p.paths.add(q)
        if self.watch:
            self.watch(self, p, kind, flags, path)
        action, err, n, tag = self._fault(p, kind, flags, a, b, path, cl)
        if kind == "write" and action == GO:
            p.bytes_written += a
        p.log.append((w, kind, path, int(a), int(b) if kind in ("write", "read") else flags & (3 | os.O_CREAT) if kind == "open" else 0, tag))
        if len(self.procs) > 1:
            self.interleaving.append((p.idx, kind, path))
        if action == CRASH:
            p.crashed = True
        self._reply(p, action, err, n)

    def _fault(self, p, kind, flags, a, b, path, cl):
        for s in p.sticky:
            if s == "enospc" and "space" in cl:
                if kind == "open" and os.path.exists(os.path.join(self.root, path)):
                    continue                       # truncating an existing file needs no new space
                return FAIL, errno.ENOSPC, 0, "enospc+"
            if isinstance(s, tuple) and s[0] == "eio" and s[1] == path and kind in ("write", "fsync", "msync"):
                return FAIL, errno.EIO, 0, "eio+"
        for f in self.faults:
            if f["fired"] and not f.get("repeat"):
                continue
            if f.get("proc", 0) != p.idx:
                continue
            fk = f["kind"]
            c = FAULT_CLASS[fk]
            if c not in cl or p.counts[c] != f["k"]:
                continue
            if f.get("path") and f["path"] not in path:
                continue
            f["fired"] += 1
            arg = f.get("arg", 0.5)
            if fk in ("crash", "crash_mut", "crash_w", "crash_c"):
                return CRASH, 0, 0, fk
            if fk in ("torn", "torn_w"):
                return CRASH, 0, int(a * arg), fk
            if fk in ("enospc", "enospc_w"):
                p.sticky.append("enospc")
                if kind == "open" and os.path.exists(os.path.join(self.root, path)):
                    return GO, 0, 0, "enospc-armed"
                if kind == "write" and a > 1 and arg > 0.5:
                    return LIMIT, 0, max(1, int(a * (arg - 0.5))), "enospc-partial"
                return FAIL, errno.ENOSPC, 0, fk
            if fk in ("enospc_once", "enospc_once_w"):
                if kind == "open" and os.path.exists(os.path.join(self.root, path)):
                    return GO, 0, 0, "enospc-none"
                return FAIL, errno.ENOSPC, 0, fk
            if fk == "eio":
                p.sticky.append(("eio", path))
                return FAIL, errno.EIO, 0, fk
            if fk == "closelost" and not self._unsaved(p, path):
                return FAIL, errno.EIO, 0, "closefail"     # synchronised or closed before: nothing left to lose
            if fk == "closelost":
                return LIMIT, errno.EIO, int(max(0, a) * arg), fk
            if fk == "closefail":
                return FAIL, errno.EDQUOT, 0, fk
            if fk in ("short", "short_read"):
                return LIMIT, 0, max(1, int(a * arg)), fk
            if fk in ("eintr", "eintr_r"):
                return FAIL, errno.EINTR, 0, fk
            if fk == "clock_jump":
                self.now += int(f.get("delta_ns", 0))
                self.jumps += 1
                p.now = self.now
                return GO, 0, 0, fk
            e = {"eio_read": errno.EIO, "open_eacces": errno.EACCES, "open_emfile": errno.EMFILE,
                 "open_eio": errno.EIO, "enomem_map": errno.ENOMEM, "fsync_eio": errno.EIO,
                 "rename_fail": errno.EIO, "unlink_fail": errno.EACCES, "mkdir_fail": errno.EACCES,
                 "msync_fail": errno.EIO}[fk]
            return FAIL, e, 0, fk
        return GO, 0, 0, 0

    def _unsaved(self, p, path):
        """Has the file, under whatever name it had, data written to it since its last close or sync?"""
        for w, kind, q, *_ in reversed(p.log):
            if kind == "rename" and q.startswith(path + "\t"):
                path = q.split("\t")[1]
            elif q == path and kind == "write":
                return not any(e[1] == "mmapw" and e[2] == path for e in p.log)
            elif q == path and kind in ("close", "fsync", "msync", "mmapw"):
                return False
        return False

    # -- schedules -------------------------------------------------------
    def run(self, jobs, max_steps=2000000):
        """Start all jobs and run them to their end under the scenario's switch points."""
        ps = [self.start(j) for j in jobs]
        cur = 0
        while True:
            live = [p for p in ps if not p.exited]
            if not live:
                break
            if self.step in self.switches:
                want = self.switches[self.step]
                cur = live[want % len(live)].idx if len(live) > 1 else live[0].idx
            p = next((q for q in live if q.idx == cur), live[0])
            if self.crit and len(live) > 1 and p.pending[0] in self.crit[2] and p.preempted != p.nops:
                p.preempted = p.nops                   # once per operation
                if self.crit[0].random() < self.crit[1]:
                    p = self.crit[0].choice([q for q in live if q is not p])
            cur = p.idx
            if self.step > max_steps:
                for q in live:
                    q.status = ("timeout", 0)
                    os.killpg(q.pid, signal.SIGKILL)
                    self._reap(q)
                break
            self.grant(p)
        return ps

    def fired(self):
        out = {}
        for f in self.faults:
            if f["fired"]:
                out[f["kind"]] = out.get(f["kind"], 0) + 1
        return out
