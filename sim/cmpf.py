"""Comparing products.  All helpers raise Violation (never a bare exception) on unreadable products."""
import io
import warnings

import numpy as np
from astropy.io import fits as pf

from .simctx import Violation


def hdus(files, path):
    """[(header, data)] of a FITS product; Violation if absent or not completely readable."""
    if path not in files:
        raise Violation("missing", f"product {path} was not written")
    return parse(files[path], path)


def parse(blob, path="product"):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with pf.open(io.BytesIO(blob), memmap=False, ignore_missing_simple=False) as h:
                out = []
                for x in h:
                    x.verify("silentfix")
                    d = None if x.data is None else np.array(x.data)
                    if d is None and x.header.get("NAXIS", 0) > 0:
                        raise ValueError("data missing")
                    out.append((x.header.copy(), d))
    except Violation:
        raise
    except Exception as e:
        raise Violation("unreadable", f"product {path} ({len(blob)} bytes) is not a complete FITS file: {e!r}")
    # completeness: header-declared size must be present
    need = 0
    for hd, _ in out:
        need += len(hd.tostring())
        n = hd.get("NAXIS", 0)
        if n:
            sz = abs(hd["BITPIX"]) // 8
            for i in range(1, n + 1):
                sz *= hd[f"NAXIS{i}"]
            need += sz
    if len(blob) < need:
        raise Violation("truncated", f"product {path} has {len(blob)} bytes, its headers announce at least {need}")
    return out


def data(files, path, ext=0):
    h = hdus(files, path)
    if ext >= len(h):
        raise Violation("missing", f"product {path} lacks extension {ext}")
    return h[ext][1]


ROUNDING = "rounding"     # for exact=: the same computation in another process, whose memory is laid out differently


def rounding(a, b):
    """How far two results of the same arithmetic may be apart: sums are taken in another order when an array happens to start at
    another address (vector instructions), so their last bits are not a function of the input."""
    eps = max([np.finfo(x.dtype).eps for x in (a, b) if x.dtype.kind in "fc"], default=0)
    m = np.maximum(np.abs(a), np.abs(b))
    return (8 * eps if eps > 1e-10 else 1e-10) * m if eps else 0.0


def same_array(a, b, what, rtol=1e-5, exact=False, scale=None, cls="differs", key=None):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Violation(cls, f"{what}: shapes {a.shape} and {b.shape}", key)
    if a.size == 0:
        return
    na, nb = ~np.isfinite(a), ~np.isfinite(b)
    if (na != nb).any():
        i = tuple(int(v) for v in np.argwhere(na != nb)[0])
        raise Violation(cls, f"{what}: at {i} one value is finite and the other is not ({a[i]} against {b[i]}; "
                             f"{int((na != nb).sum())} such elements)", key)
    ok = ~na
    if not ok.any():
        return
    d = np.abs(a[ok].astype("complex128" if np.iscomplexobj(a) else "float64") -
               b[ok].astype("complex128" if np.iscomplexobj(b) else "float64"))
    if exact:
        tol = rounding(a[ok], b[ok]) if exact == ROUNDING and d.any() else 0.0
        bad = d > tol
    else:
        m = max(np.max(np.abs(a[ok])), np.max(np.abs(b[ok]))) if scale is None else np.broadcast_to(scale, a.shape)[ok]
        tol = rtol * m + 1e-30
        bad = d > tol
    if bad.any():
        full = np.zeros(a.shape, bool)
        full[ok] = bad
        i = tuple(int(v) for v in np.argwhere(full)[0])
        raise Violation(cls, f"{what}: {int(bad.sum())} of {a.size} values differ, first at {i}: {a[i]} against {b[i]} "
                             f"(largest difference {d.max():.3g}, tolerance {np.max(tol):.3g})", key)


VOLATILE = ("CHECKSUM", "DATASUM")
TEXT = ("COMMENT", "HISTORY", "")


def same_header(h1, h2, what, ignore=(), cls="header", key=None):
    skip = set(VOLATILE) | set(ignore)

    def cards(h):
        out = {}
        for c in h.cards:
            k = c.keyword
            if k in skip or k in TEXT:
                continue
            out[k] = c.value
        return out

    a, b = cards(h1), cards(h2)
    for k in sorted(set(a) | set(b)):
        if k not in a or k not in b:
            raise Violation(cls, f"{what}: header card {k} only on one side ({a.get(k)!r} / {b.get(k)!r})", key)
        x, y = a[k], b[k]
        if isinstance(x, float) or isinstance(y, float):
            try:
                if abs(float(x) - float(y)) <= 1e-7 * max(abs(float(x)), abs(float(y)), 1e-300):
                    continue
            except (TypeError, ValueError):
                pass
        if x != y:
            raise Violation(cls, f"{what}: header card {k} is {x!r} against {y!r}", key)
    for k in TEXT:
        if k not in skip:
            x, y = ([str(c.value) for c in h.cards if c.keyword == k and (k or str(c.value))] for h in (h1, h2))
            if x != y:
                raise Violation(cls, f"{what}: {k or 'keyword-less'} cards are {x!r} against {y!r}", key)


def same_fits(f1, f2, path, what, path2=None, rtol=1e-5, exact=False, headers=True, ignore=(), cls="differs", key=None):
    a, b = hdus(f1, path), hdus(f2, path2 or path)
    if len(a) != len(b):
        raise Violation(cls, f"{what} {path}: {len(a)} and {len(b)} extensions", key)
    for i, ((h1, d1), (h2, d2)) in enumerate(zip(a, b)):
        if (d1 is None) != (d2 is None):
            raise Violation(cls, f"{what} {path}[{i}]: data on one side only", key)
        if d1 is not None:
            same_array(d1, d2, f"{what} {path}[{i}]", rtol=rtol, exact=exact, cls=cls, key=key)
        if headers:
            same_header(h1, h2, f"{what} {path}[{i}]", ignore=ignore, cls=cls, key=key)


def new_files(before, after):
    return sorted(k for k in after if k not in before and not k.endswith("/"))


def changed_files(before, after):
    return sorted(k for k in before if not k.endswith("/") and after.get(k) != before[k])


def must_ok(proc, what="command"):
    if not proc.ok:
        raise Violation("failed", f"{what} failed without any fault: {proc.describe()}", key="failed:" + first_exc(proc))


def first_exc(proc):
    lines = [x for x in proc.err.strip().splitlines() if x.strip()]
    return (lines[-1].split(":")[0] if lines else str(proc.status))[:60]
