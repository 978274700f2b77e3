"""What a property module uses: a simulated disk (a dict of files), and runs of simulated processes on it."""
import hashlib
import os
import shutil
import stat
import zlib

from . import child
from .world import HarnessError, World


class Violation(Exception):
    """The property is broken.  cls: short stable class (kept while minimising); key: identity for known findings."""

    def __init__(self, cls, msg, key=None):
        super().__init__(msg)
        self.cls, self.msg, self.key = cls, msg, key or cls


class ProcResult:
    def __init__(self, p, logdir):
        self.idx, self.status, self.crashed = p.idx, p.status, p.crashed
        self.counts, self.log, self.notes, self.nops = p.counts, p.log, p.notes, p.nops
        self.pool = {n[0][5:]: n[1] for n in p.notes if n[0].startswith("pool:")}
        self.pool["faults"] = [n[0][6:] for n in p.notes if n[0].startswith("fault:")]
        self.paths = p.paths
        self.job = p.job
        base = os.path.join(logdir, f"{p.job.get('name', 'p')}.{p.idx}")
        self.out = _read_text(base + ".out")
        self.err = _read_text(base + ".err")

    @property
    def code(self):
        return self.status[1] if self.status[0] == "exit" else None

    @property
    def ok(self):
        return self.status == ("exit", 0)

    @property
    def hung(self):
        return self.status == ("exit", 250) or self.status[0] == "timeout"

    def describe(self):
        tail = " | ".join(x for x in self.err.strip().splitlines()[-2:])
        j = self.job
        what = " ".join([j["tool"]] + [str(a) for a in j["argv"]]) if j.get("kind", "cmd") == "cmd" else j["func"]
        return f"`{what}` -> {self.status}{' (crash injected)' if self.crashed else ''} {tail[-300:]}"


def _read_text(p):
    try:
        with open(p, "rb") as f:
            return f.read().decode("utf-8", "replace")
    except OSError:
        return ""


class Run:
    def __init__(self, procs, files, world):
        self.procs, self.files, self.world = procs, files, world

    @property
    def p(self):
        return self.procs[0]


class Sim:
    """One per runner; `base` is private scratch space."""

    def __init__(self, base, timeout=60.0):
        self.base = base
        self.root = os.path.join(base, "w")
        self.logdir = os.path.join(base, "log")
        self.timeout = timeout
        self.override, self.recorded, self.nworld, self.lastrun = {}, {}, 0, None
        self.known, self.noted = set(), []
        self.reset_stats()

    def reset_stats(self):
        self.stats = {"processes": 0, "ops": 0, "sim_ns": 0, "faults": {}, "tasks": 0, "worlds": 0, "probes": {},
                      "interleavings": set(), "tools": {}, "jumps": 0}
        self.loghash = hashlib.sha256()

    def fail(self, v):
        """Raise v; a known finding is noted instead, so that the rest of the scenario is still judged."""
        if v.key not in self.known:
            raise v
        self.noted.append(v)

    def probe(self, name, n=1):
        self.stats["probes"][name] = self.stats["probes"].get(name, 0) + n

    # -- disk -------------------------------------------------------------
    def put(self, files, mtime=None):
        if os.path.lexists(self.root):
            shutil.rmtree(self.root)
        os.makedirs(self.root)
        for d in sorted(k for k in files if k.endswith("/")):
            os.makedirs(os.path.join(self.root, d), exist_ok=True)
        for k in sorted(files):
            if k.endswith("/"):
                continue
            p = os.path.join(self.root, k)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(files[k])
            t = 1_600_000_000 if mtime is None else zlib.crc32(f"{mtime} {k}".encode())
            os.utime(p, (t, t))

    def get(self):
        out = {}
        for d, ds, fs in os.walk(self.root):
            rel = os.path.relpath(d, self.root)
            rel = "" if rel == "." else rel + "/"
            if rel and not ds and not fs:
                out[rel] = b""
            for n in fs:
                p = os.path.join(d, n)
                if stat.S_ISREG(os.lstat(p).st_mode):
                    with open(p, "rb") as f:
                        out[rel + n] = f.read()
                elif os.path.islink(p):
                    out[rel + n] = b"-> " + os.readlink(p).encode()
        return out

    # -- runs -----------------------------------------------------------
    def run(self, files, jobs, watch=None, keep=False, mtime=None, **sc):
        """Run the jobs on a disk holding `files` (None: go on with the present disk).
        mtime: a seed, every file gets a modification time of its own; sc: faults, switches, choices, clock_ns, tick_ns."""
        if files is not None:
            self.put(files, mtime)
        shutil.rmtree(self.logdir, ignore_errors=True)
        os.makedirs(self.logdir)
        if isinstance(jobs, dict):
            jobs = [jobs]
        world_no = self.nworld
        self.nworld += 1
        if world_no in self.override:
            sc = dict(sc, choices={"list": self.override[world_no]})
        w = World(self.root, self.logdir, child.spawn, sc, timeout=self.timeout)
        w.watch = watch
        procs = w.run(jobs)
        if os.path.isdir("/dev/shm"):
            mine = tuple(f"sem.rts{p.pid}-" for p in procs)
            for n in os.listdir("/dev/shm"):
                if n.startswith(mine):
                    os.unlink("/dev/shm/" + n)
        res = [ProcResult(p, self.logdir) for p in procs]
        st = self.stats
        st["worlds"] += 1
        for p, r in zip(procs, res):
            st["processes"] += 1
            st["ops"] += p.nops
            t = p.job.get("tool") or p.job.get("func")
            st["tools"][t] = st["tools"].get(t, 0) + 1
            st["tasks"] += sum(1 for e in p.log if e[1] == "choose")
            self.loghash.update(repr((p.idx, r.status, p.log)).encode())
            if r.status == ("exit", 121):
                raise HarnessError("simulated process failed in the harness: " + r.err[-2000:])
            if p.decided():
                st["interleavings"].add(hashlib.sha1(repr(p.decided()).encode()).hexdigest()[:16])
        if len(procs) > 1:
            st["interleavings"].add(hashlib.sha1(repr(w.interleaving).encode()).hexdigest()[:16])
        st["sim_ns"] += abs(w.now - w.t0) if not w.jumps else w.step * w.tick
        st["jumps"] += w.jumps
        for k, v in w.fired().items():
            st["faults"][k] = st["faults"].get(k, 0) + v
        for r in res:
            for line in r.notes:
                if line[0].startswith("fault:"):
                    k = line[0][6:]
                    st["faults"][k] = st["faults"].get(k, 0) + line[1]
        run = Run(res, self.get(), w)
        if w.decider.record:
            self.recorded[world_no] = list(w.decider.record)
        self.lastrun = run
        return run


def cmd(tool, *argv, **kw):
    d = {"tool": tool, "argv": [str(a) for a in argv]}
    d.update(kw)
    return d


def lib(func, *args, **kw):
    d = {"kind": "lib", "func": func, "args": list(args)}
    d.update(kw)
    return d
