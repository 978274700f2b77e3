"""Build and talk to the storage/clock/entropy seam (csrc/vsim.c)."""
import ctypes
import hashlib
import os
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SRC = os.path.join(HERE, "csrc", "vsim.c")


def build():
    """Compile the preload library if this source was not compiled yet; return its path."""
    with open(SRC, "rb") as f:
        tag = hashlib.sha256(f.read()).hexdigest()[:16]
    for d in (os.path.join(HERE, "build"), os.path.join(tempfile.gettempdir(), "rmtsim-build")):
        try:
            os.makedirs(d, exist_ok=True)
            so = os.path.join(d, f"libvsim-{tag}.so")
            if not os.path.exists(so):
                tmp = so + f".{os.getpid()}"
                subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-w", "-o", tmp, SRC, "-ldl"], check=True)
                os.replace(tmp, so)
            return so
        except OSError:
            continue
    raise RuntimeError("cannot build the simulator's preload library")


_lib = None


def lib():
    """The preloaded library; raises if this process was not started under it."""
    global _lib
    if _lib is None:
        L = ctypes.CDLL(None)
        try:
            L.vsim_present
        except AttributeError:
            raise RuntimeError("not running under the simulator's preload library")
        L.vsim_arm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_int, ctypes.c_int64, ctypes.c_uint64]
        L.vsim_choose.argtypes = [ctypes.c_int64, ctypes.c_char_p]
        L.vsim_choose.restype = ctypes.c_int64
        L.vsim_note.argtypes = [ctypes.c_char_p, ctypes.c_int64, ctypes.c_int64]
        L.vsim_now.restype = ctypes.c_int64
        _lib = L
    return _lib


def armed():
    return bool(lib().vsim_armed())


def choose(n, label="choose"):
    """A scheduler decision in [0, n)."""
    if n <= 1:
        return 0
    v = int(lib().vsim_choose(n, label.encode()))
    return min(max(v, 0), n - 1)


def note(label, a=0, b=0):
    lib().vsim_note(label.encode()[:900], int(a), int(b))


def die_with_parent():
    """Have the kernel end this process when the one that started it ends (no leftovers of a check that was stopped)."""
    ctypes.CDLL(None).prctl(1, 9, 0, 0, 0)
