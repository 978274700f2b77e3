"""Synthetic inputs: small spectral cubes and 1D spectra, a pure function of their spec."""
import io

import numpy as np
from astropy.io import fits as pf

C = 2.997924538e8


def freqs(spec):
    f0, df, n = spec.get("f0", 1.0e9), spec.get("df", 4.0e6), spec["nchan"]
    f = f0 + df * np.arange(n)
    if spec.get("irregular"):
        r = np.random.RandomState(spec["seed"] + 7)
        f = f + df * 0.3 * r.uniform(-1, 1, n)
    return f


def iqu(spec):
    """(I, Q, U) float32 cubes (nchan, ny, nx) and the frequency vector."""
    r = np.random.RandomState(spec["seed"] % 2**32)
    n, ny, nx = spec["nchan"], spec["ny"], spec["nx"]
    f = freqs(spec)
    l2 = (C / f) ** 2
    shp = (ny, nx)
    I0 = r.uniform(0.5, 3.0, shp)
    alpha = r.uniform(-1.2, 0.4, shp)
    curv = r.uniform(-0.3, 0.3, shp) if spec.get("curved") else np.zeros(shp)
    x = np.log(f / f.mean())[:, None, None]
    I = I0 * np.exp(alpha * x + curv * x * x)
    Q, U = np.zeros_like(I), np.zeros_like(I)
    for _ in range(spec.get("ncomp", 2)):
        rm = r.uniform(-1, 1, shp) * spec.get("rmmax", 150.0)
        p = r.uniform(0.05, 0.5, shp)
        psi = r.uniform(0, np.pi, shp)
        a = 2 * (psi + rm * l2[:, None, None])
        Q += I * p * np.cos(a)
        U += I * p * np.sin(a)
    s = spec.get("noise", 0.02)
    I = I + s * r.randn(*I.shape)
    Q = Q + s * r.randn(*Q.shape)
    U = U + s * r.randn(*U.shape)
    out = [a.astype("float64" if spec.get("f8") else "float32") for a in (I, Q, U)]
    for (y, x_, k) in spec.get("lines", []):      # channels far off the continuum
        rr = np.random.RandomState(k)
        c = rr.rand(n) < rr.choice([0.1, 0.3, 0.5])
        out[0][c, y % ny, x_ % nx] *= rr.uniform(0.2, 5.0, int(c.sum()))
    for (y, x_, k) in spec.get("bright", []):
        for a in out:
            a[:, y % ny, x_ % nx] *= k
    for c in spec.get("nanchan", []):
        for a in out:
            a[c % n] = np.nan
    for (y, x_) in spec.get("nanpix", []):
        for a in out:
            a[:, y % ny, x_ % nx] = np.nan
    for (c, y, x_) in spec.get("nanvox", []):
        for a in out:
            a[c % n, y % ny, x_ % nx] = np.nan
    if spec.get("faint"):                    # pixels without signal: never reach a CLEAN cutoff
        for (y, x_) in spec["faint"]:
            for a in out[1:]:
                a[:, y % ny, x_ % nx] = (1e-4 * r.randn(n)).astype("float32")
    return out[0], out[1], out[2], f


LAYOUT = {"3D": "xyf", "4DFS": "xyfs", "4DSF": "xysf", "FXY": "fxy", "XFY": "xfy"}


def header(spec, axis="3D", stokes=1, n=None):
    """FITS header of a spectral cube; axis: 3D (x,y,f), 4DFS (x,y,f,s), 4DSF (x,y,s,f), FXY, XFY."""
    h = pf.Header()
    h["SIMPLE"] = True
    h["BITPIX"] = -32
    n = n or spec["nchan"]
    order = LAYOUT[axis]
    h["NAXIS"] = len(order)
    size = {"x": spec["nx"], "y": spec["ny"], "f": n, "s": 1}
    for k, t in enumerate(order, 1):
        h[f"NAXIS{k}"] = size[t]
    for k, t in enumerate(order, 1):
        ct, v, d, u = {"x": ("RA---SIN", 83.6, -1 / 3600, "deg"), "y": ("DEC--SIN", 22.0, 1 / 3600, "deg"),
                       "f": ("FREQ", spec.get("f0", 1.0e9), spec.get("df", 4.0e6), "Hz"), "s": ("STOKES", float(stokes), 1.0, "")}[t]
        h[f"CTYPE{k}"], h[f"CRVAL{k}"], h[f"CDELT{k}"] = ct, v, d
        h[f"CRPIX{k}"], h[f"CUNIT{k}"] = 1.0, u
    h["BUNIT"] = "Jy/beam"
    h["BMAJ"], h["BMIN"], h["BPA"] = 3 / 3600, 3 / 3600, 0.0
    h["EQUINOX"] = 2000.0
    h["OBJECT"] = "SIM"
    for k in spec.get("hdr", []):
        oddity(h, k)
    return h


ODD = ["wcsaxes", "history", "comment", "long", "spec", "dates", "hier", "pc", "pole", "blank", "many", "casa", "sum"]


def oddity(h, k):
    """Header cards that real images carry and that no tool may stumble over."""
    if k == "wcsaxes":
        h.insert("CTYPE1", ("WCSAXES", h["NAXIS"]))
    elif k == "history":
        for i in range(4):
            h["HISTORY"] = f"CLEAN BMAJ= {i}.0E-04 BMIN= 1.0E-04 BPA= {i * 10}.0 step {i}"
    elif k == "comment":
        h["COMMENT"] = "FITS (Flexible Image Transport System) format is defined in 'Astronomy and Astrophysics'"
    elif k == "long":
        h["FILTER"] = ("a rather long value " * 6).strip()
    elif k == "spec":
        h["SPECSYS"], h["RESTFRQ"], h["VELREF"] = "TOPOCENT", 1.420405752e9, 257
    elif k == "dates":
        h["DATE-OBS"], h["TIMESYS"], h["MJD-OBS"] = "2019-03-01T00:00:00.0", "UTC", 58543.0
    elif k == "hier":
        h["HIERARCH pipeline version string"] = "1.2"
    elif k == "pc":
        for i in range(1, h["NAXIS"] + 1):
            for j in range(1, h["NAXIS"] + 1):
                h[f"PC{i}_{j}"] = 1.0 if i == j else 0.0
    elif k == "pole":
        h["LONPOLE"], h["LATPOLE"], h["RADESYS"] = 180.0, 22.0, "FK5"
    elif k == "blank":
        h[""] = "a card without a keyword"
        h[""] = ""
    elif k == "many":
        for i in range(60):
            h[f"PAR{i}"] = (i * 1.5, "parameter")
    elif k == "casa":
        h["BTYPE"], h["TELESCOP"], h["OBSERVER"] = "Intensity", "ASKAP", "nobody"
        h["OBSGEO-X"], h["OBSGEO-Y"], h["OBSGEO-Z"] = -2.55e6, 5.1e6, -2.8e6
    elif k == "sum":
        h["ORIGIN"], h["BLOCKED"], h["DATAMAX"], h["DATAMIN"] = "sim", True, 12.5, -3.25


def cube_bytes(arr, spec, axis="3D", stokes=1):
    a = arr
    if axis == "4DFS":
        a = arr[None]
    elif axis == "4DSF":
        a = arr[:, None]
    elif axis in ("FXY", "XFY"):
        a = np.moveaxis(arr, 0, 2 if axis == "FXY" else 1)
    b = io.BytesIO()
    pf.PrimaryHDU(np.ascontiguousarray(a), header(spec, axis, stokes, arr.shape[0])).writeto(b, output_verify="fix")
    return b.getvalue()


def freq_bytes(f):
    return "".join("%.6f\n" % v for v in f).encode()


def cubes(spec, d="", axis="3D"):
    """Input disk for the 3D tools: Q.fits U.fits I.fits freq.dat (and rms.dat) below d."""
    I, Q, U, f = iqu(spec)
    out = {d + "Q.fits": cube_bytes(Q, spec, axis, 2), d + "U.fits": cube_bytes(U, spec, axis, 3),
           d + "I.fits": cube_bytes(I, spec, axis, 1), d + "freq.dat": freq_bytes(f)}
    r = np.random.RandomState(spec["seed"] % 2**31 + 3)
    out[d + "rms.dat"] = "".join("%.6f\n" % v for v in 0.02 * r.uniform(0.7, 1.3, len(f))).encode()
    return out


def spectrum(spec, cols=7):
    """ASCII 1D input of rmsynth1d: freq I Q U dI dQ dU (or freq Q U dQ dU), 8 and 6 columns: with the channel widths second."""
    s = dict(spec, ny=1, nx=1)
    I, Q, U, f = iqu(s)
    I, Q, U = I[:, 0, 0], Q[:, 0, 0], U[:, 0, 0]
    r = np.random.RandomState(spec["seed"] % 2**31 + 5)
    e = spec.get("noise", 0.02) * r.uniform(0.8, 1.2, (3, len(f)))
    rows = [f, I, Q, U, e[0], e[1], e[2]] if cols > 6 else [f, Q, U, e[1], e[2]]
    if cols in (6, 8):                       # with channel widths, as rmtools_bwdepol takes them
        rows.insert(1, spec.get("df", 4.0e6) * r.uniform(0.6, 1.0, len(f)))
    return "".join(" ".join("%.9e" % v for v in row) + "\n" for row in zip(*rows)).encode()


def flags(rng, spec):
    """Single samples that are flagged: scattered ones, or in each pixel a block of channels of its own (of the same width or not)."""
    n, pix = spec["nchan"], [(y, x) for y in range(spec["ny"]) for x in range(spec["nx"])]
    if rng.random() < 0.5:
        return [[rng.randrange(n), *rng.choice(pix)] for _ in range(rng.randint(1, 6))]
    width = rng.choice([0, 1, 2, 4, n // 4])
    out = []
    for y, x in pix if rng.random() < 0.5 else rng.sample(pix, rng.randint(1, len(pix))):
        w = width or rng.randint(1, n // 3)
        a = rng.randrange(n - w + 1)
        out += [[a + k, y, x] for k in range(w)]
    return out


def random_spec(rng, ny=(2, 5), nx=(2, 5), nchan=(24, 48), **kw):
    s = {"seed": rng.randrange(2**31), "nchan": rng.randint(*nchan), "ny": rng.randint(*ny), "nx": rng.randint(*nx),
         "ncomp": rng.randint(1, 3), "noise": rng.choice([0.005, 0.02, 0.06]), "rmmax": rng.choice([60.0, 150.0, 300.0]),
         "f0": rng.choice([0.9e9, 1.1e9, 1.3e9]), "df": rng.choice([4.0e6, 6.0e6, 8.0e6])}
    if rng.random() < 0.3:
        s["nanchan"] = sorted(rng.sample(range(s["nchan"]), rng.randint(1, 4)))
    if rng.random() < 0.3:
        s["nanpix"] = [[rng.randrange(s["ny"]), rng.randrange(s["nx"])]]
    if rng.random() < 0.3:
        s["faint"] = [[rng.randrange(s["ny"]), rng.randrange(s["nx"])] for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.5:
        s["hdr"] = sorted(rng.sample(ODD, rng.choice([1, 1, 2, 4, 8])))
    if rng.random() < 0.2:                   # one source far above the rest
        s["bright"] = [[rng.randrange(s["ny"]), rng.randrange(s["nx"]), rng.choice([30, 300, 5000])]]
    s.update(kw)
    return s
