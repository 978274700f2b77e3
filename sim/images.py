"""Images of two to four dimensions and several number types for the chunking and cutting tools."""
import io

import numpy as np
from astropy.io import fits as pf

from . import data

CT = {1: ("RA---SIN", 83.6, -1 / 3600, "deg"), 2: ("DEC--SIN", 22.0, 1 / 3600, "deg")}


def random_image(rng, ny=(1, 6), nx=(1, 6), dims=None, dtype=None):
    dims = dims or rng.choice([2, 3, 3, 4, 4])
    s = {"seed": rng.randrange(2**31), "ny": rng.randint(*ny), "nx": rng.randint(*nx), "dims": dims,
         "dtype": dtype or rng.choice(["f4", "f4", "f4", "f8", "i2", "i4"]), "nan": rng.random() < 0.4,
         "crpix": [rng.choice([1.0, 0.0, -3.0, 2.5, 100.0]) for _ in range(4)]}
    if dims == 3:
        s["extra"] = [rng.randint(1, 7)]
    elif dims == 4:
        s["extra"] = rng.choice([[rng.randint(2, 6), 1], [1, rng.randint(2, 6)], [1, 1], [rng.randint(2, 4), rng.randint(2, 3)]])
    else:
        s["extra"] = []
    if rng.random() < 0.5:
        s["hdr"] = sorted(rng.sample(data.ODD, rng.choice([1, 1, 2, 4, 8])))
    return s


def array(s):
    """numpy array in FITS order reversed (..., y, x)."""
    r = np.random.RandomState(s["seed"] % 2**32)
    shape = tuple(reversed([s["nx"], s["ny"]] + s["extra"]))
    n = int(np.prod(shape))
    a = np.arange(n).reshape(shape)                     # every value is different, so each can be told from the others
    if s["dtype"] in ("i2", "f4"):
        a = a % 30000
    if s["dtype"].startswith("f"):
        a = (a + r.uniform(0, 0.5, shape)).astype(">" + s["dtype"])
        if s["nan"]:
            a.flat[r.randint(0, n, max(1, n // 7))] = np.nan
    else:
        a = a.astype(">" + s["dtype"])
    return a


def header(s):
    h = pf.Header()
    h["SIMPLE"], h["BITPIX"], h["NAXIS"] = True, {"f4": -32, "f8": -64, "i2": 16, "i4": 32}[s["dtype"]], 2 + len(s["extra"])
    for k, n in enumerate([s["nx"], s["ny"]] + s["extra"], 1):
        h[f"NAXIS{k}"] = n
    freq = 3 + (len(s["extra"]) == 2 and s["extra"][0] == 1)
    for k in range(1, 3 + len(s["extra"])):
        ct = CT.get(k) or (("FREQ", 1.0e9, 4.0e6, "Hz") if k == freq else ("STOKES", 1.0, 1.0, ""))
        h[f"CTYPE{k}"], h[f"CRVAL{k}"], h[f"CDELT{k}"], h[f"CRPIX{k}"], h[f"CUNIT{k}"] = ct[0], ct[1], ct[2], s["crpix"][k - 1], ct[3]
    h["BUNIT"] = "Jy/beam"
    h["OBJECT"] = "SIM"
    h["BMAJ"] = 0.001
    h["LONGSTRN"] = "x" * 60
    for k in s.get("hdr", []):
        data.oddity(h, k)
    return h


def image_bytes(s):
    b = io.BytesIO()
    pf.PrimaryHDU(array(s), header(s)).writeto(b, output_verify="fix")
    return b.getvalue()


SLOW_DISK = ["short", "short_read"]     # things a healthy disk may do


def hiccups(rng, n=3):
    return [{"kind": rng.choice(SLOW_DISK), "u": rng.random(), "arg": round(rng.random(), 3)} for _ in range(rng.randint(0, n))]
