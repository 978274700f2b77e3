"""What runs inside a simulated process: a fork of the runner that executes one real tool."""
import gc
import importlib
import io
import os
import random
import sys
import traceback

from . import pools, shim

# console scripts of the package (setup.py) -> module, function
TOOLS = {
    "rmsynth3d": ("RMtools_3D.do_RMsynth_3D", "main"),
    "rmclean3d": ("RMtools_3D.do_RMclean_3D", "main"),
    "rmsynth1d": ("RMtools_1D.do_RMsynth_1D", "main"),
    "rmclean1d": ("RMtools_1D.do_RMclean_1D", "main"),
    "rmsynth1dFITS": ("RMtools_1D.do_RMsynth_1D_fromFITS", "main"),
    "qufit": ("RMtools_1D.do_QUfit_1D_mnest", "main"),
    "rmtools_freqfile": ("RMtools_3D.make_freq_file", "save_freq_file"),
    "rmtools_calcRMSF": ("RMtools_1D.calculate_RMSF", "main"),
    "rmtools_testdata1D": ("RMtools_1D.mk_test_ascii_data", "main"),
    "rmtools_createchunks": ("RMtools_3D.create_chunks", "main"),
    "rmtools_assemblechunks": ("RMtools_3D.assemble_chunks", "main"),
    "rmtools_fitIcube": ("RMtools_3D.do_fitIcube", "main"),
    "rmtools_peakfitcube": ("RMtools_3D.RMpeakfit_3D", "main"),
    "rmtools_testdata3D": ("RMtools_3D.mk_test_cube_data", "main"),
    "rmtools_extractregion": ("RMtools_3D.extract_region", "main"),
    "rmtools_bwdepol": ("RMtools_1D.rmtools_bwdepol", "main"),
    "rmtools_bwpredict": ("RMtools_1D.rmtools_bwpredict", "main"),
    "rmtools_3DIrescale": ("RMtools_3D.rescale_I_model_3D", "command_line"),
}


def preload(tools):
    """Import the tools' modules once in the runner (after the pool seam is in place)."""
    for t in tools:
        if t in TOOLS:
            importlib.import_module(TOOLS[t][0])
        else:
            importlib.import_module(t)


def _shuffle_dirs(seed):
    """Directory listing order is the simulator's choice, as it is the file system's."""
    rng = random.Random(f"dirs:{seed}")
    real_listdir, real_scandir = os.listdir, os.scandir

    def listdir(path="."):
        out = sorted(real_listdir(path))
        rng.shuffle(out)
        return out

    class Scan:
        def __init__(self, path):
            it = real_scandir(path)
            self.ents = sorted(it, key=lambda e: e.name)
            it.close()
            rng.shuffle(self.ents)
            self.i = iter(self.ents)

        def __iter__(self):
            return self

        def __next__(self):
            return next(self.i)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

        def close(self):
            self.i = iter(())

    os.listdir = listdir
    os.scandir = lambda path=".": Scan(path)


def _other_host(h):
    """The same machine under another name, with another user and another number of cores."""
    import getpass
    import platform
    import socket

    u = os.uname()
    un = os.uname_result((u.sysname, h["name"], u.release, u.version, u.machine))
    os.uname = lambda: un
    socket.gethostname = lambda: h["name"]
    socket.getfqdn = lambda name="": h["name"]
    platform.node = lambda: h["name"]
    getpass.getuser = os.getlogin = lambda: h["user"]
    n = h["cpus"]
    os.cpu_count = lambda: n
    os.sched_getaffinity = lambda pid: set(range(n))
    import multiprocessing

    multiprocessing.cpu_count = lambda: n
    os.environ.update(USER=h["user"], LOGNAME=h["user"], HOSTNAME=h["name"])


def spawn(job, root, logdir, rd, wr, world, idx):
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid:
        return pid
    code = 121
    try:
        if job.get("hashseed") is not None:
            _exec(job, root, logdir, rd, wr, world, idx)
        code = _child(job, root, logdir, rd, wr, world, idx)
    except BaseException:
        traceback.print_exc()
    finally:
        try:
            sys.stdout.flush()
            sys.stderr.flush()
        except Exception:
            pass
        os._exit(code)


class _Sub:
    """What _child needs to know about the world when it runs in an interpreter of its own."""

    def __init__(self, now):
        self.procs, self.now = [], now


def _exec(job, root, logdir, rd, wr, world, idx):
    """Run the job in a fresh interpreter with its own hash seed instead of a fork of the runner."""
    import json

    for fd in (rd, wr):
        os.set_inheritable(fd, True)
    j = dict(job)
    env = dict(os.environ, PYTHONHASHSEED=str(j.pop("hashseed")))
    arg = json.dumps([j, root, logdir, rd, wr, world.now, idx])
    for f in os.listdir("/proc/self/fd"):
        if int(f) > 2 and int(f) not in (rd, wr):
            try:
                os.set_inheritable(int(f), False)
            except OSError:
                pass
    os.execve(sys.executable, [sys.executable, "-m", "sim.child", arg], env)


def _exec_main():
    import json

    job, root, logdir, rd, wr, now, idx = json.loads(sys.argv[1])
    repo = os.environ.get("RMTSIM_REPO", "/repo")
    sys.path[:] = [p for p in sys.path if os.path.realpath(p or ".") != os.path.realpath(repo)]
    sys.path.insert(0, repo)
    shim.lib()
    pools.install()
    preload([job["tool"]] if job.get("kind", "cmd") == "cmd" else [job["func"].split(":")[0]])
    code = 121
    try:
        code = _child(job, root, logdir, rd, wr, _Sub(now), idx)
    except BaseException:
        traceback.print_exc()
    finally:
        try:
            sys.stdout.flush()
            sys.stderr.flush()
        except Exception:
            pass
        os._exit(code)


def _child(job, root, logdir, rd, wr, world, idx):
    os.setsid()
    shim.die_with_parent()
    for p in world.procs:                        # the scheduler's ends of the other processes' pipes
        for fd in (p.rd, p.wr, p.pidfd):
            if fd is not None and not p.exited:
                try:
                    os.close(fd)
                except OSError:
                    pass
    base = os.path.join(logdir, f"{job.get('name', 'p')}.{idx}")
    null = os.open(os.devnull, os.O_RDONLY)
    os.dup2(null, 0)
    if job.get("stdin"):
        a, b = os.pipe()
        os.write(b, job["stdin"].encode())
        os.close(b)
        os.dup2(a, 0)
        os.close(a)
    for fd, ext in ((1, ".out"), (2, ".err")):
        f = os.open(base + ext, os.O_CREAT | os.O_WRONLY | os.O_TRUNC, 0o644)
        os.dup2(f, fd)
        os.close(f)
    sys.stdout = io.TextIOWrapper(os.fdopen(1, "wb", closefd=False), encoding="utf-8", line_buffering=True)
    sys.stderr = io.TextIOWrapper(os.fdopen(2, "wb", closefd=False), encoding="utf-8", line_buffering=True)
    cwd = os.path.join(root, job.get("cwd", ""))
    os.makedirs(cwd, exist_ok=True)
    os.chdir(cwd)
    seed = int(job.get("seed", 1))
    random.seed(seed)
    import numpy as np

    np.random.seed(seed % 2**32)
    for k, v in job.get("env", {}).items():
        os.environ[k] = v
    if job.get("host"):
        _other_host(job["host"])
    os.umask(0o022)
    arm = (os.path.realpath(root).encode(), wr, rd, world.now, (seed * 2654435761 + 12345) % 2**63 or 1)
    import multiprocessing.process as mpp        # semaphores live outside the simulated disk: names of our own, removed by the runner

    mpp.current_process()._config["semprefix"] = f"/rts{os.getpid()}-{idx}"
    pools.S.arm = lambda: shim.lib().vsim_arm(*arm)
    pools.activate(job, idx)
    if job.get("shuffle_dirs") is not None:
        _shuffle_dirs(job["shuffle_dirs"])
    for m, vals in job.get("set", {}).items():   # module settings that the tool documents as user-editable
        mm = importlib.import_module(m)
        for k, v in vals.items():
            if hasattr(mm, k):
                setattr(mm, k, v)
    if job.get("setup"):
        mod, fn = job["setup"].split(":")
        getattr(importlib.import_module(mod), fn)(job)
    kind = job.get("kind", "cmd")
    if kind == "cmd":
        mod, fn = TOOLS[job["tool"]]
        func = getattr(importlib.import_module(mod), fn)
        here = os.path.realpath(root)
        sys.argv = [job["tool"]] + [str(a).replace("{root}", here) for a in job["argv"]]
        call = func
    else:
        mod, fn = job["func"].split(":")
        func = getattr(importlib.import_module(mod), fn)
        call = lambda: func(*job.get("args", []), **job.get("kwargs", {}))
    gc.collect()
    gc.freeze()
    gc.collect()
    shim.lib().vsim_arm(*arm)
    shim.note("start")
    if job.get("trace"):
        mod, fn = job["trace"].split(":")
        getattr(importlib.import_module(mod), fn)(job)
    code = 0
    intr = None
    if job.get("interrupt") or job.get("count_lines"):
        from .interrupt import Interrupt

        intr = Interrupt(job.get("interrupt"))
        intr.start()
    try:
        r = call()
        if kind == "cmd" and r is not None:
            code = _status(r)
    except SystemExit as e:
        code = _status(e.code)
    except pools.Hung as e:
        sys.stderr.write(f"simulator: {e}\n")
        code = 250
    except KeyboardInterrupt:
        code = 130
    except BaseException:
        traceback.print_exc()
        code = 1
    if intr is not None:
        intr.stop()
    if pools.S.orphans:
        sys.stderr.write("simulator: the interpreter waits at exit for pool workers that nothing stops\n")
        code = 250
    for k, v in sorted(pools.S.stats.items()):
        if k.startswith("fault:"):
            shim.note(k, v)
    if pools.S.forks or pools.S.tasks:
        shim.note("pool:tasks", pools.S.tasks)
        shim.note("pool:forks", pools.S.forks)
    sys.last_value = sys.last_traceback = sys.last_type = None
    try:
        del r
    except NameError:
        pass
    try:
        gc.collect()
        sys.stdout.flush()
        sys.stderr.flush()
    except BaseException:
        pass
    return code


def _status(v):
    if v is None:
        return 0
    if isinstance(v, bool) or isinstance(v, int):
        return int(v) & 0xFF
    print(v, file=sys.stderr)
    return 1


if __name__ == "__main__":
    from sim.child import _exec_main as _m

    _m()
