"""The process/thread-pool seam: deterministic stand-ins for the standard worker pools.

Workers are real forked processes that run the repository's real worker code on
really pickled inputs, but they run one at a time and every decision (which
worker advances, when a finished chunk is reported, whether inputs are pickled
early or late, when a worker dies) is the simulator's.
"""
import collections
import contextlib
import functools
import itertools
import os
import pickle
import signal
import socket
import struct
import sys
import time
import traceback

from . import shim


class Hung(BaseException):
    """The tool now waits for ever (for example: a pool worker died with its chunk)."""


class State:
    active = False
    faults = ()          # pool fault plan of this simulated process
    tasks = 0            # tasks started so far, over all pools
    forks = 0
    eager = True
    zygote = None        # socket to the pristine process that forks 'spawn' workers
    stats = None
    override = None      # platform default start method
    orphans = False      # workers were started that nothing will stop
    arm = None           # arms the storage seam in a spawned worker


S = State()
S.stats = collections.Counter()


def _fault(kind, n):
    for f in S.faults:
        if f["kind"] == kind and f["at"] == n:
            return f
    return None


# ---------------------------------------------------------------- framing
def _send(sock, obj, dumps=pickle.dumps):
    b = dumps(obj)
    sock.sendall(struct.pack("<q", len(b)) + b)


def _recv_bytes(sock):
    h = b""
    while len(h) < 8:
        k = sock.recv(8 - len(h))
        if not k:
            raise EOFError
        h += k
    n = struct.unpack("<q", h)[0]
    parts = []
    while n:
        k = sock.recv(min(n, 1 << 20))
        if not k:
            raise EOFError
        parts.append(k)
        n -= len(k)
    return b"".join(parts)


# ---------------------------------------------------------------- workers
class RemoteError(Exception):
    def __init__(self, tb):
        self.tb = tb

    def __str__(self):
        return self.tb


def _worker_loop(sock, initializer, initargs, dumps, loads):
    """Runs in a worker.  Messages: ('chunk', bytes), ('step',), ('quit',)."""
    try:
        if initializer is not None:
            initializer(*initargs)
        _send(sock, ("ready",))
    except BaseException:
        try:
            _send(sock, ("initfail", traceback.format_exc()))
        except BaseException:
            pass
        os._exit(1)
    gen = None
    while True:
        try:
            msg = loads(_recv_bytes(sock))
        except EOFError:
            os._exit(0)
        if msg[0] == "quit":
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(0)
        if msg[0] == "chunk":
            try:
                func, star, items = loads(msg[1])
                gen = (func, star, items, [])
                _send(sock, ("loaded",))
            except BaseException as e:
                gen = None
                _send(sock, ("fail", _pack_exc(e, dumps)))
            continue
        # step: run one task
        func, star, items, out = gen
        fault = msg[1]
        if fault == "die":
            os.kill(os.getpid(), signal.SIGKILL)
        try:
            with _raising(fault):
                x = items[len(out)]
                v = func(*x) if star == 1 else func(*x[0], **x[1]) if star == 2 else func(x)
            out.append(v)
        except Exception as e:
            gen = None
            _send(sock, ("fail", _pack_exc(e, dumps)))
            continue
        except SystemExit:
            os._exit(1)
        if len(out) == len(items):
            gen = None
            try:
                b = dumps(out)
                _send(sock, ("done", b))
            except Exception as e:
                _send(sock, ("fail", _pack_exc(RuntimeError(f"result not picklable: {e!r}"), dumps)))
        else:
            _send(sock, ("stepped",))


@contextlib.contextmanager
def _raising(fault):
    """fault "raise:<exception>:<line>": the exception comes up when the task is about to execute that many lines of the
    tools' own code (0: before it starts; if the task ends earlier: at its end)."""
    if not fault or not fault.startswith("raise"):
        yield
        return
    _, name, line = fault.split(":")
    exc = {"MemoryError": MemoryError, "OSError": OSError}.get(name, RuntimeError)
    left = int(line)
    if left <= 0:
        raise exc("injected in worker")
    top = os.path.realpath(os.environ.get("RMTSIM_REPO", "/repo")) + os.sep
    ours = {}

    def local(frame, event, arg):
        nonlocal left
        if event == "line" and left > 0:
            left -= 1
            if left == 0:
                raise exc("injected in worker")
        return local

    def trace(frame, event, arg):
        if left <= 0:
            return None
        f = frame.f_code.co_filename
        if f not in ours:
            r = os.path.realpath(f)
            ours[f] = r.startswith(top) and r[len(top):] in TASK_CODE
        return local if ours[f] else None

    old = sys.gettrace()
    sys.settrace(trace)
    try:
        yield
    finally:
        sys.settrace(old)
    if left > 0:
        raise exc("injected in worker")


# where the tools' own task code is (the polynomial fit below it takes any exception for a failed fit, by design)
TASK_CODE = {"RMutils/util_RM.py", "RMtools_3D/do_RMclean_3D.py", "RMtools_3D/do_fitIcube.py", "RMtools_3D/rescale_I_model_3D.py"}


def _pack_exc(e, dumps):
    tb = "".join(traceback.format_exception(type(e), e, e.__traceback__))
    try:
        b = dumps(e)
        pickle.loads(b)
    except Exception:
        b = dumps(RuntimeError(repr(e)))
    return b, tb


def _unpack_exc(p, loads):
    b, tb = p
    e = loads(b)
    e.__cause__ = RemoteError('\n"""\n%s"""' % tb)
    return e


def _fork_worker(method, initializer, initargs, dumps, loads):
    """Start one worker; returns (pid, socket)."""
    S.forks += 1
    if _fault("fork_fail", S.forks):
        S.stats["fault:fork_fail"] += 1
        raise BlockingIOError(11, "Resource temporarily unavailable")
    a, b = socket.socketpair()
    if method == "fork":
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                a.close()
                _worker_loop(b, initializer, initargs, dumps, loads)
            finally:
                os._exit(1)
        b.close()
        return pid, a
    z = S.zygote
    with _spawning():
        payload = dumps((initializer, initargs))
    socket.send_fds(z, [struct.pack("<q", len(payload))], [b.fileno()])
    z.sendall(payload)
    pid = struct.unpack("<q", _exact(z, 8))[0]
    b.close()
    return pid, a


class _Spawning:
    """Marks that a worker is being started, so that locks may be pickled for it (as in a real spawn)."""

    def duplicate_for_child(self, fd):
        return fd


@contextlib.contextmanager
def _spawning():
    import multiprocessing.context as c1

    cs = [c1]
    if "multiprocess.context" in sys.modules:
        cs.append(sys.modules["multiprocess.context"])
    for c in cs:
        c.set_spawning_popen(_Spawning())
    try:
        yield
    finally:
        for c in cs:
            c.set_spawning_popen(None)


def _exact(sock, n):
    out = b""
    while len(out) < n:
        k = sock.recv(n - len(out))
        if not k:
            raise EOFError
        out += k
    return out


def start_zygote():
    """Fork the pristine process from which 'spawn' workers come (state as after import)."""
    a, b = socket.socketpair()
    pid = os.fork()
    if pid:
        b.close()
        S.zygote = a
        return
    a.close()
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    while True:
        try:
            msg, fds, _, _ = socket.recv_fds(b, 8, 1)
            if not msg:
                os._exit(0)
            payload = _exact(b, struct.unpack("<q", msg)[0])
            pid = os.fork()
            if pid == 0:
                signal.signal(signal.SIGCHLD, signal.SIG_DFL)
                s = socket.socket(fileno=fds[0])
                b.close()
                try:
                    import dill

                    init, args = dill.loads(payload)
                    if S.arm:
                        S.arm()
                    _worker_loop(s, init, args, _dill_dumps, _dill_loads)
                finally:
                    os._exit(1)
            os.close(fds[0])
            b.sendall(struct.pack("<q", pid))
        except EOFError:
            os._exit(0)


def _dill_dumps(o):
    import dill

    return dill.dumps(o)


def _dill_loads(b):
    import dill

    return dill.loads(b)


def _std_dumps(o):
    import multiprocessing.reduction as red

    return bytes(red.ForkingPickler.dumps(o))


class Worker:
    def __init__(self, pool):
        self.pool = pool
        self.pid, self.sock = _fork_worker(pool._method, pool._initializer, pool._initargs, pool._dumps, pool._loads)
        self.chunk = None
        self.done = 0
        msg = self._recv()
        if msg[0] == "initfail":
            raise Hung("worker initialiser failed:\n" + msg[1])

    def _recv(self):
        return self.pool._loads(_recv_bytes(self.sock))

    def stop(self):
        try:
            _send(self.sock, ("quit",), self.pool._dumps)
        except OSError:
            pass
        self.sock.close()
        if self.pool._method == "fork":
            try:
                os.waitpid(self.pid, 0)
            except ChildProcessError:
                pass

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.sock.close()
        if self.pool._method == "fork":
            try:
                os.waitpid(self.pid, 0)
            except ChildProcessError:
                pass


class Chunk:
    __slots__ = ("func", "star", "items", "blob", "deliver", "n", "err", "cancelled", "started")

    def __init__(self, func, star, items, deliver):
        self.func, self.star, self.items, self.deliver = func, star, items, deliver
        self.n = len(items)
        self.blob = self.err = None
        self.cancelled = self.started = False

    def pickle(self, dumps):
        if self.blob is None and self.err is None:
            try:
                self.blob = dumps((self.func, self.star, self.items))
            except Exception as e:
                self.err = e


class Core:
    """Worker set + FIFO chunk queue, advanced one task at a time."""

    def __init__(self, nproc, method, initializer, initargs, dumps, loads, maxtasks=None, lazy=False):
        self._method, self._initializer, self._initargs = method, initializer, initargs
        self._dumps, self._loads = dumps, loads
        self.maxtasks = maxtasks
        self.queue = collections.deque()
        self.workers = []
        self.finished = []        # (chunk, ok, value): completed but not yet reported
        self.broken = False
        self.nproc = nproc
        self.lazy = lazy
        self.launched = False
        if not lazy:
            for _ in range(nproc):
                self.workers.append(Worker(self))
        S.stats["pools"] += 1
        S.stats["workers"] += nproc

    def submit(self, chunk):
        if S.eager:
            chunk.pickle(self._dumps)
        self.queue.append(chunk)
        if self.lazy and self._method == "fork" and not self.workers and not self.launched:
            self.launched = True
            try:                            # all at once, before the executor's manager thread exists
                for _ in range(self.nproc):
                    self.workers.append(Worker(self))
            except OSError:
                # nobody will ever tell the workers already started to stop: the interpreter waits for them at exit
                S.orphans = bool(self.workers)
                self.queue.clear()          # and no manager thread hands out the chunk
                raise
        elif self.lazy and self._method != "fork" and len(self.workers) < self.nproc:
            self.workers.append(Worker(self))

    def busy(self):
        return bool(self.queue or self.finished or any(w.chunk for w in self.workers))

    def pump(self):
        """One simulator step: advance one worker by one task, or report one finished chunk."""
        opts = []
        idle = [w for w in self.workers if w.chunk is None]
        opts += [("step", w) for w in self.workers if w.chunk is not None]
        while self.queue and self.queue[0].cancelled:
            self.queue.popleft()
        if self.queue and idle:
            opts += [("take", w) for w in idle]
        opts += [("report", c) for c in self.finished[:1]] if not S.eager else [("report", c) for c in self.finished]
        if not opts:
            raise Hung("the tool waits for pool results that can never arrive")
        what, x = opts[shim.choose(len(opts), "pool")]
        if what == "report":
            self.finished.remove(x)
            chunk, ok, val = x
            chunk.deliver(ok, val)
            return
        if what == "take":
            c = self.queue.popleft()
            c.started = True
            c.pickle(self._dumps)
            if c.err is not None:
                self.finished.append((c, False, c.err))
                return
            x.chunk = c
            try:
                _send(x.sock, ("chunk", c.blob), self._dumps)
                m = x._recv()
            except (OSError, EOFError):
                return self._died(x)
            if m[0] == "fail":
                x.chunk = None
                self.finished.append((c, False, _unpack_exc(m[1], self._loads)))
            return
        S.tasks += 1
        S.stats["tasks"] += 1
        f = _fault("task_raise", S.tasks)
        fault = None
        if f:
            fault = f"raise:{f.get('exc', 'MemoryError')}:{f.get('line', 0)}"
            S.stats["fault:task_raise"] += 1
        elif _fault("worker_die", S.tasks):
            fault = "die"
            S.stats["fault:worker_die"] += 1
        try:
            _send(x.sock, ("step", fault), self._dumps)
            m = x._recv()
        except (OSError, EOFError):
            return self._died(x)
        if m[0] == "stepped":
            return
        c, x.chunk = x.chunk, None
        x.done += 1
        if m[0] == "done":
            self.finished.append((c, True, self._loads(m[1])))
        else:
            self.finished.append((c, False, _unpack_exc(m[1], self._loads)))
        if self.maxtasks and x.done >= self.maxtasks:
            i = self.workers.index(x)
            x.stop()
            self.workers[i] = Worker(self)

    def _died(self, w):
        lost = w.chunk
        w.chunk = None
        try:
            w.kill()
        except Exception:
            pass
        self.on_death(w, lost)

    def on_death(self, w, lost):            # multiprocessing.Pool: replaced, its chunk is lost
        self.workers.remove(w)
        try:
            self.workers.append(Worker(self))
        except OSError:
            pass                            # the pool's handler thread dies; nobody notices

    def stop(self):
        for w in self.workers:
            w.stop()
        self.workers = []

    def kill(self):
        for w in self.workers:
            w.kill()
        self.workers = []
        self.queue.clear()
        self.finished = []


# ---------------------------------------------------------------- multiprocessing.Pool
class AsyncResult:
    def __init__(self, pool, n, single, callback=None, error_callback=None):
        self.pool, self.left, self.single = pool, n, single
        self.parts = [None] * n
        self.ok, self.exc = True, None
        self.cb, self.ecb = callback, error_callback
        if n == 0:
            self._finish()

    def _finish(self):
        if self.ok and self.cb:
            self.cb(self._value())
        if not self.ok and self.ecb:
            self.ecb(self.exc)

    def _value(self):
        if self.single:
            return self.parts[0][0]
        return list(itertools.chain.from_iterable(self.parts))

    def deliver(self, i, ok, val):
        if ok:
            self.parts[i] = val
        elif self.ok:
            self.ok, self.exc = False, val
        self.left -= 1
        if self.left == 0:
            self._finish()

    def ready(self):
        return self.left == 0

    def successful(self):
        if self.left:
            raise ValueError("not ready")
        return self.ok

    def wait(self, timeout=None):
        while self.left:
            self.pool._core.pump()

    def get(self, timeout=None):
        self.wait()
        if not self.ok:
            raise self.exc
        return self._value()


class IMapIterator:
    def __init__(self, pool, ordered):
        self.pool, self.ordered = pool, ordered
        self.ready = {}
        self.order = collections.deque()
        self.next_chunk = 0
        self.n = None
        self.buf = collections.deque()
        self.taken = 0

    def deliver(self, i, ok, val):
        self.ready[i] = (ok, val)
        self.order.append(i)

    def __iter__(self):
        return self

    def next(self, timeout=None):
        return self.__next__()

    def __next__(self):
        while True:
            if self.buf:
                return self.buf.popleft()
            if self.taken >= self.n:
                raise StopIteration
            i = None
            if self.ordered:
                if self.next_chunk in self.ready:
                    i = self.next_chunk
            elif self.order:
                i = self.order.popleft()
            if i is None:
                self.pool._core.pump()
                continue
            self.next_chunk += 1
            self.taken += 1
            ok, val = self.ready.pop(i)
            if not ok:
                raise val
            self.buf.extend(val)


class SimPool:
    """Deterministic multiprocessing.pool.Pool (also the base of schwimmbad's MultiPool)."""
    _sim_dumps = staticmethod(_std_dumps)
    _sim_loads = staticmethod(pickle.loads)
    _sim_mp = "multiprocessing"

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        if processes is None:
            processes = os.cpu_count() or 1
        if processes < 1:
            raise ValueError("Number of processes must be at least 1")
        if initializer is not None and not callable(initializer):
            raise TypeError("initializer must be a callable")
        self._processes = processes
        self._state = "RUN"
        self._core = Core(processes, _method(context, self._sim_mp), initializer, tuple(initargs),
                          self._sim_dumps, self._sim_loads, maxtasksperchild)

    def _check(self):
        if self._state != "RUN":
            raise ValueError("Pool not running")

    @staticmethod
    def _chunks(items, size):
        for i in range(0, len(items), size):
            yield items[i:i + size]

    def _submit(self, func, items, size, star, res):
        for i, c in enumerate(self._chunks(items, size)):
            self._core.submit(Chunk(func, star, c, functools.partial(res.deliver, i)))

    def _map(self, func, iterable, chunksize, star, callback=None, error_callback=None):
        self._check()
        items = list(iterable)
        if chunksize is None:
            chunksize, extra = divmod(len(items), self._processes * 4)
            if extra:
                chunksize += 1
        if len(items) == 0:
            chunksize = 0
        if chunksize is not None and chunksize < 1 and items:
            raise ValueError("Chunksize must be 1+, not %d" % chunksize)
        n = -(-len(items) // chunksize) if items else 0
        res = AsyncResult(self, n, False, callback, error_callback)
        if items:
            self._submit(func, items, chunksize, star, res)
        return res

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map(func, iterable, chunksize, 0, callback, error_callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map(func, iterable, chunksize, 1, callback, error_callback)

    def map(self, func, iterable, chunksize=None):
        return self._map(func, iterable, chunksize, 0).get()

    def starmap(self, func, iterable, chunksize=None):
        return self._map(func, iterable, chunksize, 1).get()

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        self._check()
        res = AsyncResult(self, 1, True, callback, error_callback)
        self._core.submit(Chunk(func, 2, [(args, kwds)], functools.partial(res.deliver, 0)))
        return res

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def _imap(self, func, iterable, chunksize, ordered):
        self._check()
        if chunksize < 1:
            raise ValueError("Chunksize must be 1+, not {0:n}".format(chunksize))
        it = IMapIterator(self, ordered)
        items = list(iterable)
        it.n = -(-len(items) // chunksize)
        self._submit(func, items, chunksize, 0, it)
        return it

    def imap(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, chunksize, True)

    def imap_unordered(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, chunksize, False)

    def close(self):
        if self._state == "RUN":
            self._state = "CLOSE"

    def terminate(self):
        self._state = "TERMINATE"
        self._core.kill()

    def join(self):
        if self._state == "RUN":
            raise ValueError("Pool is still running")
        while self._state == "CLOSE" and self._core.busy():
            self._core.pump()
        self._core.stop()

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.terminate()

    def __reduce__(self):
        raise NotImplementedError("pool objects cannot be passed between processes or pickled")


def _method(context, mpname):
    import importlib

    mp = importlib.import_module(mpname)
    m = None
    if context is not None:
        try:
            m = context.get_start_method()
        except Exception:
            m = None
    if m is None:
        m = mp.get_start_method(allow_none=True) or S.override or "fork"
    return "fork" if m == "fork" else "spawn"


class DillPool(SimPool):
    _sim_dumps = staticmethod(_dill_dumps)
    _sim_loads = staticmethod(_dill_loads)
    _sim_mp = "multiprocess"


class SimThreadPool:
    """multiprocessing.pool.ThreadPool: same interface, tasks run in this process in a chosen order."""

    def __init__(self, processes=None, initializer=None, initargs=()):
        self._processes = processes or os.cpu_count() or 1
        self._state = "RUN"
        if initializer:
            for _ in range(self._processes):
                initializer(*initargs)
        self._core = ThreadCore()

    for _n in ("_check", "_submit", "_map", "map_async", "starmap_async", "map", "starmap", "apply_async", "apply",
               "_imap", "imap", "imap_unordered", "close", "join", "__enter__", "__exit__", "terminate"):
        locals()[_n] = SimPool.__dict__[_n]
    _chunks = staticmethod(SimPool._chunks)
    del _n


class ThreadCore:
    def __init__(self):
        self.q = []

    def submit(self, c):
        self.q.append(c)

    def busy(self):
        return bool(self.q)

    def pump(self):
        self.q = [c for c in self.q if not c.cancelled]
        if not self.q:
            raise Hung("the tool waits for pool results that can never arrive")
        c = self.q.pop(shim.choose(len(self.q), "threadpool"))
        c.started = True
        S.tasks += 1
        S.stats["tasks"] += 1
        f = _fault("task_raise", S.tasks)
        if f:
            S.stats["fault:task_raise"] += 1
        try:
            with _raising(f and f"raise:{f.get('exc', 'MemoryError')}:{f.get('line', 0)}"):
                out = [c.func(*x) if c.star == 1 else c.func(*x[0], **x[1]) if c.star == 2 else c.func(x) for x in c.items]
        except Exception as e:
            c.deliver(False, e)
        else:
            c.deliver(True, out)

    def stop(self):
        pass

    kill = stop


# ---------------------------------------------------------------- concurrent.futures
class ExecCore(Core):
    def __init__(self, ex, *a, **k):
        self.ex = ex
        super().__init__(*a, **k)

    def on_death(self, w, lost):            # ProcessPoolExecutor: everything pending is broken
        from concurrent.futures.process import BrokenProcessPool

        e = BrokenProcessPool("A process in the process pool was terminated abruptly while the future was "
                              "running or pending.")
        self.broken = e
        todo = ([lost] if lost else []) + [x.chunk for x in self.workers if x.chunk] + list(self.queue)
        self.queue.clear()
        for x in self.workers:
            if x is not w:
                x.kill()
        self.workers = []
        for c in todo:
            c.deliver(False, e)


def _make_executor(kind):
    import concurrent.futures as cf
    from concurrent.futures._base import CANCELLED, CANCELLED_AND_NOTIFIED, FINISHED, RUNNING

    class SimFuture(cf.Future):
        _core = None
        _chunk = None

        def _pump_until(self):
            while not self.done():
                if self._core is None:
                    raise Hung("waiting on a future that nothing completes")
                self._core.pump()

        def result(self, timeout=None):
            self._pump_until()
            return super().result(0)

        def exception(self, timeout=None):
            self._pump_until()
            return super().exception(0)

        def cancel(self):
            if self._chunk is not None and self._chunk.started:
                return False
            r = super().cancel()
            if r and self._chunk is not None:
                self._chunk.cancelled = True
            return r

    class SimExecutor(cf.Executor):
        def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), *,
                     max_tasks_per_child=None, thread_name_prefix=""):
            if max_workers is None:
                max_workers = os.cpu_count() or 1
            if max_workers <= 0:
                raise ValueError("max_workers must be greater than 0")
            self._max_workers = max_workers
            self._shut = False
            if kind == "process":
                self._core = ExecCore(self, max_workers, _method(mp_context, "multiprocessing"), initializer,
                                      tuple(initargs), _std_dumps, pickle.loads, max_tasks_per_child, lazy=True)
            else:
                if initializer:
                    initializer(*initargs)
                self._core = ThreadCore()

        def submit(self, fn, /, *args, **kwargs):
            if self._shut:
                raise RuntimeError("cannot schedule new futures after shutdown")
            if getattr(self._core, "broken", False):
                raise self._core.broken
            f = SimFuture()
            f._core = self._core

            def deliver(ok, val):
                if f._state in (CANCELLED, CANCELLED_AND_NOTIFIED, FINISHED):
                    return
                f.set_running_or_notify_cancel()
                if ok:
                    f.set_result(val[0])
                else:
                    f.set_exception(val)

            f._chunk = Chunk(fn, 2, [(args, kwargs)], deliver)
            self._core.submit(f._chunk)
            return f

        def map(self, fn, *iterables, timeout=None, chunksize=1):
            if chunksize < 1:
                raise ValueError("chunksize must be >= 1.")
            tasks = list(zip(*iterables))
            if kind == "thread":
                chunksize = 1
            fs = [self.submit(_run_chunk, fn, tasks[i:i + chunksize]) for i in range(0, len(tasks), chunksize)]

            def gen():
                try:
                    fs.reverse()
                    while fs:
                        yield from fs.pop().result()
                finally:
                    for f in fs:
                        f.cancel()

            return gen()

        def shutdown(self, wait=True, *, cancel_futures=False):
            self._shut = True
            if cancel_futures:
                for c in list(getattr(self._core, "queue", [])):
                    c.cancelled = True
            while not getattr(self._core, "broken", False) and self._core.busy() and getattr(self._core, "workers", True):
                q = getattr(self._core, "queue", None)
                while q and q[0].cancelled:
                    q.popleft()
                if not self._core.busy():
                    break
                self._core.pump()
            self._core.stop()

    def as_completed(fs, timeout=None):
        fs = list(fs)
        pend = list(dict.fromkeys(fs))
        while pend:
            ready = [f for f in pend if f.done()]
            if ready:
                f = ready[shim.choose(len(ready), "as_completed")]
                pend.remove(f)
                yield f
            else:
                f = pend[0]
                if not isinstance(f, SimFuture):
                    yield from _real_ac(pend)
                    return
                f._core.pump()

    _real_ac = cf._base.as_completed

    def wait(fs, timeout=None, return_when=cf.ALL_COMPLETED):
        fs = list(dict.fromkeys(fs))
        while True:
            done = {f for f in fs if f.done()}
            nd = set(fs) - done
            if not nd or (return_when == cf.FIRST_COMPLETED and done) or (
                    return_when == cf.FIRST_EXCEPTION and any(f.exception() for f in done if not f.cancelled())):
                return cf._base.DoneAndNotDoneFutures(done, nd)
            next(iter(f for f in fs if not f.done()))._core.pump()

    return SimExecutor, as_completed, wait


def _run_chunk(fn, chunk):
    return [fn(*a) for a in chunk]


# ---------------------------------------------------------------- installation
def install():
    """Replace the pools before the repository (or schwimmbad) imports them."""
    import concurrent.futures
    import concurrent.futures.process
    import concurrent.futures.thread
    import multiprocessing
    import multiprocessing.context
    import multiprocessing.dummy
    import multiprocessing.pool

    def ctx_pool(cls):
        def Pool(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
            return cls(processes, initializer, initargs, maxtasksperchild, context=self.get_context())
        return Pool

    multiprocessing.pool.Pool = SimPool
    multiprocessing.pool.ThreadPool = SimThreadPool
    multiprocessing.context.BaseContext.Pool = ctx_pool(SimPool)
    multiprocessing.Pool = multiprocessing.context._default_context.Pool
    multiprocessing.dummy.Pool = lambda processes=None, initializer=None, initargs=(): SimThreadPool(
        processes, initializer, initargs)
    try:
        import multiprocess
        import multiprocess.context
        import multiprocess.pool

        multiprocess.pool.Pool = DillPool
        multiprocess.pool.ThreadPool = SimThreadPool
        multiprocess.context.BaseContext.Pool = ctx_pool(DillPool)
        multiprocess.Pool = multiprocess.context._default_context.Pool
    except ImportError:
        pass
    PE, ac, wt = _make_executor("process")
    TE, _, _ = _make_executor("thread")
    for m in (concurrent.futures, concurrent.futures.process):
        m.ProcessPoolExecutor = PE
    for m in (concurrent.futures, concurrent.futures.thread):
        m.ThreadPoolExecutor = TE
    concurrent.futures.as_completed = ac
    concurrent.futures.wait = wt
    try:
        import tqdm

        tqdm.tqdm.monitor_interval = 0
        import tqdm.std

        tqdm.std.tqdm.monitor_interval = 0
    except ImportError:
        pass


def activate(job, idx):
    """In the simulated process, before the tool starts."""
    p = job.get("pool") or {}
    S.faults = p.get("faults", ())
    S.eager = bool(p.get("eager", True))
    S.tasks = S.forks = 0
    S.orphans = False
    S.stats.clear()
    start_zygote()
    for name in ("multiprocessing.resource_tracker", "multiprocess.resource_tracker"):
        try:                       # named semaphores are removed by the simulator after the run
            m = __import__(name, fromlist=["x"])
            m.register = m.unregister = lambda *a: None
        except ImportError:
            pass
    if p:
        m = p.get("start_method")
        S.override = m
        if m:
            import multiprocessing

            multiprocessing.set_start_method(m, force=True)
            try:
                import multiprocess

                multiprocess.set_start_method(m, force=True)
            except ImportError:
                pass
