"""Reference runs and whole-disk comparisons used by the storage properties."""
import os
import re

import numpy as np

from . import catalog, cmpf
from .simctx import Violation

PDFDATE = re.compile(rb"/(CreationDate|ModDate) \(D:[^)]*\)")


def complete(path, blob, cls="incomplete", key=None):
    """A product is a complete file of its kind (without knowing its content)."""
    if path.endswith(".fits"):
        cmpf.parse(blob, path)
        if len(blob) % 2880:
            raise Violation(cls, f"{path} ({len(blob)} bytes) is not a whole number of FITS blocks", key)
    elif path.endswith(".pdf"):
        if not blob.startswith(b"%PDF") or not blob.rstrip().endswith(b"%%EOF"):
            raise Violation(cls, f"{path} ({len(blob)} bytes) is not a complete PDF", key)
    elif path.endswith(".png"):
        if not blob.startswith(b"\x89PNG") or b"IEND" not in blob[-16:]:
            raise Violation(cls, f"{path} ({len(blob)} bytes) is not a complete PNG", key)
    elif path.endswith(".json"):
        import json

        try:
            json.loads(blob.decode())
        except ValueError as e:
            raise Violation(cls, f"{path} is not valid JSON: {e}", key)


def same_product(path, a, b, what, rtol=None, cls="differs", key=None):
    """a: reference bytes, b: bytes of the run being judged."""
    if a == b:
        return
    if path.endswith(".fits"):
        cmpf.same_fits({path: a}, {path: b}, path, what, exact=cmpf.ROUNDING if rtol is None else False, rtol=rtol or 0, cls=cls, key=key)
        if len(a) != len(b):
            raise Violation(cls, f"{what} {path}: {len(b)} bytes instead of {len(a)}", key)
        return
    if path.endswith((".pdf", ".png")):
        complete(path, b, cls, key)
        if path.endswith(".pdf") and len(b) < 0.9 * len(a):
            raise Violation(cls, f"{what} {path}: {len(b)} bytes instead of {len(a)}", key)
        return
    if same_numbers(a, b):
        return
    n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    raise Violation(cls, f"{what} {path}: differs from byte {n} on: {b[max(0, n - 20):n + 40]!r} instead of "
                         f"{a[max(0, n - 20):n + 40]!r} ({len(b)} and {len(a)} bytes)", key)


NUMBER = re.compile(rb"[-+]?(?:\d+\.\d*|\.\d+|\d+(?=[eE]))(?:[eE][-+]?\d+)?")


def same_numbers(a, b):
    """Texts that differ only in the last digits of results (see cmpf.rounding)."""
    if NUMBER.sub(b"#", a) != NUMBER.sub(b"#", b):
        return False
    x, y = (np.array([float(v) for v in NUMBER.findall(t)]) for t in (a, b))
    single = (x.astype("f4").astype("f8") == x) & (y.astype("f4").astype("f8") == y)
    return bool((np.abs(x - y) <= np.where(single, 1e-6, 1e-10) * np.maximum(np.abs(x), np.abs(y))).all())


def same_products(products, ref, got, what, cls="differs", key=None, rtol=None):
    for p in products:
        if p not in got:
            raise Violation(cls, f"{what}: product {p} is missing", key)
        same_product(p, ref[p], got[p], what, rtol, cls, key)


class Ref:
    """One configuration of one tool with its fault-free run."""

    def __init__(self, e, sim, extra=None, **kw):
        self.e = e
        self.files, self.job = catalog.prepare(e, sim)
        self.job.update(kw)
        if extra:
            self.files = {**extra, **self.files}
        r = sim.run(self.files, self.job)
        cmpf.must_ok(r.p, "fault-free run")
        self.after, self.proc, self.counts = r.files, r.p, r.p.counts
        self.products = [p for p in cmpf.new_files(self.files, r.files) + cmpf.changed_files(self.files, r.files)
                         if p in r.files and not catalog.scratch(e, p)]
        if not self.products:
            # every product may have been there before with the same content (in-place regeneration)
            self.products = sorted(p for p in r.p.paths if p in r.files and p in self.files and not catalog.scratch(e, p))
        for p in self.products:
            complete(p, self.after[p])


POS_FAULTS = {   # fault kinds for generation: kind -> op class its position counts in
    "enospc": "space", "enospc_once": "space", "eio": "write", "closelost": "close", "closefail": "close",
    "open_eacces": "openw", "open_emfile": "openr", "open_eio": "openr", "eio_read": "read", "enomem_map": "mmapw",
    "msync_fail": "msync", "mkdir_fail": "mkdir", "rename_fail": "rename", "unlink_fail": "unlink", "fsync_eio": "fsync",
    "enospc_w": "write", "enospc_once_w": "write", "torn_w": "write", "crash_w": "write", "crash_c": "close", "short": "write", "short_read": "read", "crash": "any", "crash_mut": "mut", "torn": "write",
}


def file_ops(log, kind):
    """{path: [positions among the run's operations of this kind]} of a reference run."""
    out, n = {}, 0
    for e in log:
        if e[1] == kind or e[1] == "open" and (kind == "openw" and e[4] & 3 or kind == "openr" and not e[4] & os.O_CREAT):
            n += 1
            out.setdefault(e[2], []).append(n)
    return out


def place(faults, counts, log=()):
    """Turn relative positions u in [0,1) into operation numbers using a reference run's counts.
    With "file" (also in [0,1)): position u among the operations on one of the files."""
    out = []
    for f in faults:
        if "file" in f:
            per = file_ops(log, POS_FAULTS[f["kind"]])
            if per:
                pos = per[sorted(per)[int(f["file"] * len(per))]]
                k = pos[min(len(pos) - 1, int(f["u"] * len(pos)))]
                out.append({"kind": f["kind"], "k": k, "arg": f.get("arg", 0.5)})
            continue
        n = counts.get(POS_FAULTS[f["kind"]], 0)
        if not n:
            continue
        g = {k: v for k, v in f.items() if k != "u"}
        u = f["u"]
        # positions are drawn over the whole run, with extra weight on its first and last operations
        if u < 0.1:
            k = 1 + int(u * 10 * min(n, 12))
        elif u > 0.8:
            k = n - int((1 - u) * 5 * min(n, 12))
        else:
            k = 1 + int((u - 0.1) / 0.7 * n)
        g["k"] = max(1, min(n, k))
        out.append(g)
    return out


FILE_KINDS = ["enospc_w", "enospc_once_w", "eio", "closelost", "closefail", "short"]


def gen_fault(rng, kinds, byfile=FILE_KINDS):
    if byfile and rng.random() < 0.5:
        return {"kind": rng.choice(byfile), "u": rng.random(), "file": rng.random(), "arg": round(rng.random(), 3)}
    return {"kind": rng.choice(kinds), "u": rng.random(), "arg": round(rng.random(), 3)}


def pick_tool(rng, i, tools, slow=("rmsynth1d", "rmclean1d", "rmsynth1dFITS", "rmtools_calcRMSF", "rmtools_bwpredict", "qufit")):
    """Every tool in turn; slow (plotting) ones only in every third round."""
    t = tools[i % len(tools)]
    if t in slow and (i // len(tools)) % 3:
        t = rng.choice([x for x in tools if x not in slow])
    return t
