"""The 3D stages hand cubes over consistently, for every axis layout, output layout and way of naming the files."""
import io

import numpy as np

from sim import catalog, cmpf, data, images
from sim.simctx import Violation, cmd, lib

TOOLS = ["rmsynth3d", "rmclean3d", "rmtools_peakfitcube"]
CL = 299792458.0


def gen(rng, i, tier):
    spec = data.random_spec(rng, ny=(1, 5), nx=(1, 5), nchan=(16, 40))
    if rng.random() < 0.35:
        spec["irregular"] = True
    if rng.random() < 0.35:
        spec["nanvox"] = data.flags(rng, spec)
    sc = {"spec": spec, "axis": ["3D", "4DFS", "4DSF"][i % 3] if i % 8 != 5 else rng.choice(["FXY", "XFY"]), "d": rng.choice(["", "in/", "set_images/", "x_real/y_total/"]),
          "pre": rng.choice(["", "", "pre_", "f_im_", "f_tot_g_"]), "uflag": rng.random() < 0.3,
          "freqname": rng.choice(["FREQ", "FREQ", "FREQ-LSR", "Frequency"]), "desc": rng.random() < 0.2,
          "grid": rng.choice([[], [], ["-s", "3"], ["-l", "250"], ["-l", "120", "-d", "7"], ["-d", "12"]]),
          "w": rng.choice([None, None, "noise", "variance"]), "I": rng.random() < 0.25, "fit": rng.random() < 0.4, "super": rng.random() < 0.2,
          "cutoff": rng.choice([0.02, 0.1, -1.0, 0.5]), "maxIter": rng.choice([5, 60, 500]), "gain": rng.choice([0.1, 0.3]),
          "window": rng.choice([None, None, 0.05]), "via": [rng.choice(["real", "im", "tot"]) for _ in range(4)],
          "peak": rng.choice(["dirty", "clean", "clean", None]), "peakopts": rng.choice([[], ["-a"], ["-p"]]),
          "pn": rng.choice([None, "uniform", "variance"]), "pi": rng.random() < 0.2,
          "hic": [images.hiccups(rng) for _ in range(5)], "decoy": rng.random() < 0.4}
    if sc["cutoff"] < 0:
        sc["cutoff"] = 0.05
    if sc["super"]:                             # a long axis
        spec["ny"], spec["nx"] = min(2, spec["ny"]), min(2, spec["nx"])
    sc["pi"] = sc["pi"] or sc["I"]
    if sc["peak"] and (sc["pn"] or sc["pi"]) and rng.random() < 0.7:
        sc["peakopts"] = ["-a"]
    if sc["I"]:
        sc["w"] = None                          # documented as not supported together
    return sc


def shrink(sc):
    for k, v in (("hic", [[]] * 5), ("decoy", False), ("axis", "3D"), ("d", ""), ("pre", ""), ("grid", []), ("w", None), ("I", False), ("fit", False),
                 ("super", False), ("window", None), ("peak", None), ("pn", None), ("pi", False), ("peakopts", []), ("uflag", False), ("desc", False), ("freqname", "FREQ"),
                 ("via", ["real"] * 4)):
        if sc[k] != v:
            yield dict(sc, **{k: v})
    for k in ("nanchan", "nanpix", "faint", "bright", "nanvox", "irregular"):
        if sc["spec"].get(k):
            s = dict(sc["spec"])
            s.pop(k)
            yield dict(sc, spec=s)
    for k in ("ny", "nx"):
        if sc["spec"][k] > 1:
            s = dict(sc["spec"], **{k: 1})
            for q in ("nanpix", "faint", "bright", "nanvox"):
                s.pop(q, None)
            yield dict(sc, spec=s)


def rename_freq(blob, name):
    from astropy.io import fits as pf

    with pf.open(io.BytesIO(blob)) as h:
        for k in range(3, h[0].header["NAXIS"] + 1):
            if h[0].header[f"CTYPE{k}"] == "FREQ":
                h[0].header[f"CTYPE{k}"] = name
        b = io.BytesIO()
        h.writeto(b)
    return b.getvalue()


def cube(files, path, kind="FDEP", ext=0):
    """(cube with the spectral axis first, its values, header) by the file's own header."""
    hd = cmpf.hdus(files, path)
    if ext >= len(hd):
        raise Violation("missing", f"product {path} lacks extension {ext}")
    h, a = hd[ext]
    n = hd[0][0]["NAXIS"]
    h0 = hd[0][0] if ext else h
    ax = [k for k in range(1, n + 1) if kind in str(h0.get(f"CTYPE{k}")).upper()]
    if len(ax) != 1:
        raise Violation("axis", f"{path} has {len(ax)} axes of Faraday depth")
    ax = ax[0]
    if a.shape != tuple(h0[f"NAXIS{k}"] for k in range(n, 0, -1)):
        raise Violation("axis", f"{path}[{ext}] has shape {a.shape}, its first header another")
    k = np.arange(1, h0[f"NAXIS{ax}"] + 1)
    v = h0[f"CRVAL{ax}"] + (k - h0[f"CRPIX{ax}"]) * h0[f"CDELT{ax}"]
    a = np.moveaxis(a, n - ax, 0).astype("f8")
    nx, ny = [h0[f"NAXIS{k}"] for k in range(1, n + 1) if k != ax][:2]
    return a.reshape(a.shape[0], ny, nx), v, h0


def own(path, sc, what):
    """In a simulated process, read with plain astropy: complex cube, depths."""
    from astropy.io import fits as pf

    out = []
    for c in ("real", "im"):
        with pf.open(path % c, memmap=False) as h:
            hd, a = h[0].header, h[0].data
            n = hd["NAXIS"]
            ax = next(k for k in range(1, n + 1) if "FDEP" in str(hd[f"CTYPE{k}"]).upper())
            a = np.moveaxis(a, n - ax, 0)
            nx, ny = [hd[f"NAXIS{k}"] for k in range(1, n + 1) if k != ax][:2]
            out.append(a.reshape(a.shape[0], ny, nx))
            k = np.arange(1, hd[f"NAXIS{ax}"] + 1)
            v = hd[f"CRVAL{ax}"] + (k - hd[f"CRPIX{ax}"]) * hd[f"CDELT{ax}"]
    return out[0] + 1j * out[1], v.astype("f4"), hd


def alone(sc, out):
    """In a simulated process: the 1D library on every pixel of the stored cubes."""
    from astropy.io import fits as pf
    from RMutils.util_RM import do_rmclean_hogbom, get_rmsf_planes, measure_FDF_parms

    p = sc["d"] + sc["pre"]
    fdf, phi, hd = own(p + "FDF_%s_dirty.fits", sc, "FDF")
    rmsf, phi2, _ = own(p + "RMSF_%s.fits", sc, "RMSF")
    ny, nx = fdf.shape[1:]
    with pf.open(p + "RMSF_FWHM.fits", memmap=False) as h:
        fw = h[0].data.reshape(ny, nx)
    d = {"c": np.zeros_like(fdf), "cc": np.zeros_like(fdf), "it": np.zeros((ny, nx)), "fw": np.zeros((ny, nx)), "f": np.zeros((ny, nx))}
    f = np.loadtxt(sc["d"] + "freq.dat")
    l2 = (CL / f) ** 2
    msk = np.load(sc["d"] + "mask.npy")
    w = None
    if sc["w"] == "variance":
        w = 1 / np.loadtxt(sc["d"] + "rms.dat") ** 2
    for y in range(ny):
        for x in range(nx):
            if not msk[:, y, x].all():
                r = get_rmsf_planes(l2, phi, None if w is None else w.copy(), msk[:, y, x], lam0Sq_m2=hd["LAMSQ0"], fitRMSF=sc["fit"] or sc["super"],
                                    fitRMSFreal=sc["super"])
                d["fw"][y, x], d["f"][y, x] = r.fwhmRMSFArr, r.statArr
            r = do_rmclean_hogbom(fdf[:, y, x].copy(), phi, rmsf[:, y, x].copy(), phi2, np.array(fw[y, x]), sc["cutoff"], maxIter=sc["maxIter"],
                                  gain=sc["gain"], window=np.nan if sc["window"] is None else sc["window"])
            d["c"][:, y, x], d["cc"][:, y, x], d["it"][y, x] = r[0], r[1], r[2]
    if sc["peak"]:
        c = fdf if sc["peak"] == "dirty" else own(p + "FDF_clean_%s.fits", sc, "clean")[0]
        th = theory(sc, f, np.loadtxt(sc["d"] + "rms.dat"), np.load(sc["d"] + "amp.npy"))
        for y in range(ny):
            for x in range(nx):
                if not np.isfinite(c[:, y, x]).all():
                    continue
                try:
                    m = measure_FDF_parms(c[:, y, x].copy(), phi, fw[y, x], dFDF=None if th is None else th[y, x], lamSqArr_m2=l2, lam0Sq=hd["LAMSQ0"])
                except Exception:
                    m = {}
                for k, v in m.items():
                    d.setdefault("peak:" + k, np.full((ny, nx), np.nan))[y, x] = np.nan if v is None else v
    np.savez(out, **d)


def theory(sc, f, rms, amp):
    """Noise of the FDF from that of the channels."""
    if sc["pn"] is None:
        return None
    w = np.ones(len(f)) if sc["pn"] == "uniform" else 1 / rms ** 2
    return (amp if sc["pi"] else np.ones_like(amp)) * np.sqrt((w ** 2 * rms ** 2).sum()) / w.sum()


def near(a, b, what, scale, tol, cls):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Violation(cls, f"{what}: shape {a.shape} instead of {b.shape}")
    bad = ~((np.abs(a - b) <= tol * scale) | (~np.isfinite(a) & ~np.isfinite(b)))
    if bad.any():
        j = tuple(int(v) for v in np.argwhere(bad)[0])
        raise Violation(cls, f"{what}: {a[j]} instead of {b[j]} at {j} ({int(bad.sum())} such elements)")


def coords(files, path, src, what):
    """A map has the image axes of the input, in their order."""
    h = cmpf.hdus(files, path)[0][0]
    a, b = ([k for k in range(1, q["NAXIS"] + 1) if str(q.get(f"CTYPE{k}"))[:3] in ("RA-", "DEC")] for q in (h, src))
    if len(a) != len(b):
        raise Violation("mapaxis", f"{what}{path} has {[h.get(f'CTYPE{k}') for k in range(1, h['NAXIS'] + 1)]} for axes")
    for k, s in zip(a, b):
        for q in ("NAXIS", "CTYPE", "CRVAL", "CRPIX", "CDELT", "CUNIT"):
            if h.get(f"{q}{k}") != src.get(f"{q}{s}"):
                raise Violation("mapaxis", f"{what}{path}: {q}{k} is {h.get(f'{q}{k}')!r}, that image axis of the input has {src.get(f'{q}{s}')!r}")


def run(sc, sim):
    spec, d = sc["spec"], sc["d"]
    I, Q, U, f = data.iqu(spec)
    if sc["uflag"]:                              # flags need not be the same in Q and U
        r = np.random.RandomState(spec["seed"] % 2**31)
        U[r.rand(*U.shape) < 0.05] = np.nan
    if sc["desc"]:
        I, Q, U, f = I[::-1].copy(), Q[::-1].copy(), U[::-1].copy(), f[::-1].copy()
    files = data.cubes(spec, d, sc["axis"])
    clean = {k: v for k, v in spec.items() if not k.startswith("nan") and k != "faint"}
    I = data.iqu(clean)[0][:: -1 if sc["desc"] else 1].copy()
    for n, a, s in (("I", I, 1), ("Q", Q, 2), ("U", U, 3)):
        files[f"{d}{n}.fits"] = rename_freq(data.cube_bytes(a, spec, sc["axis"], s), sc["freqname"])
    files[d + "freq.dat"] = data.freq_bytes(f)
    f = np.loadtxt(io.BytesIO(files[d + "freq.dat"]))
    rms = np.loadtxt(io.BytesIO(files[d + "rms.dat"]))
    msk = ~(np.isfinite(Q) & np.isfinite(U))
    b = io.BytesIO()
    np.save(b, msk)
    files[d + "mask.npy"] = b.getvalue()
    p = d + sc["pre"]
    if sc["decoy"]:                              # files whose names a careless replacement would hit
        junk = data.cube_bytes(np.ones((3, 2, 2), "f4"), {"nchan": 3, "ny": 2, "nx": 2})
        for x in ("real", "im", "tot"):
            q = p.replace("_im", "_" + x).replace("_real", "_" + x).replace("_tot", "_" + x)
            if q != p:
                for n in ("FDF_real_dirty", "FDF_im_dirty", "RMSF_real", "RMSF_im", "RMSF_FWHM"):
                    files[q + n + ".fits"] = junk

    def do(k, job, files):
        r = sim.run(files, job, faults=[{"kind": x["kind"], "k": 1 + int(x["u"] * 80), "arg": x["arg"]} for x in sc["hic"][k]])
        if not r.p.ok:
            raise Violation("failed", f"a stage failed without any fault: {r.p.describe()}", key=f"failed:{job['tool']}:{cmpf.first_exc(r.p)}")
        return r.files

    o = list(sc["grid"]) + (["-o", sc["pre"]] if sc["pre"] else []) + (["-t"] if sc["fit"] else []) + (["-r"] if sc["super"] else [])
    o += {"noise": ["-n", d + "rms.dat"], "variance": ["-n", d + "rms.dat", "-w", "variance"], None: []}[sc["w"]]
    o += ["-i", d + "I.fits"] if sc["I"] else []
    base = (d + "Q.fits", d + "U.fits", d + "freq.dat")
    files = do(0, cmd("rmsynth3d", *base, *o), files)
    ny, nx = spec["ny"], spec["nx"]
    what = f"{nx}x{ny} {sc['axis']} cube: "
    # --- the dirty spectra, from the definition of the transform
    fdf = {}
    for c in ("real", "im", "tot"):
        fdf[c], phi, h = cube(files, f"{p}FDF_{c}_dirty.fits")
        if fdf[c].shape[1:] != (ny, nx):
            raise Violation("axis", f"{what}FDF_{c}_dirty.fits holds a cube of shape {fdf[c].shape}")
        src = cmpf.hdus(files, d + "Q.fits")[0][0]
        for k in range(1, h["NAXIS"] + 1):
            if "FDEP" in h[f"CTYPE{k}"]:
                continue
            for q in ("CTYPE", "CDELT", "CUNIT", "NAXIS") + (("CRVAL", "CRPIX") if "STOKES" not in h[f"CTYPE{k}"] else ()):
                if src.get(f"{q}{k}") != h.get(f"{q}{k}"):
                    raise Violation("axis", f"{what}FDF_{c}_dirty.fits: {q}{k} is {h.get(f'{q}{k}')!r}, in the input {src.get(f'{q}{k}')!r}")
    l2 = (CL / f) ** 2
    w = 1 / rms ** 2 if sc["w"] == "variance" else np.ones(len(f))
    wg = np.where(msk.all((1, 2)), 0, w)
    l0 = 0.0 if sc["super"] else (wg * l2).sum() / wg.sum()
    if abs(h["LAMSQ0"] - l0) > 1e-6 * max(l0, 1e-9):
        raise Violation("lamsq0", f"{what}LAMSQ0 is {h['LAMSQ0']}, the weighted mean of the channels is {l0}")
    check_grid(sc, phi, l2, what)
    wc = np.where(msk, 0, w[:, None, None])
    P = np.where(msk, 0, Q + 1j * U.astype("c16"))
    f0 = CL / np.sqrt(l0) if l0 > 0 else f.mean()
    amp = (I[np.where(f <= f0, f0 - f, np.inf).argmin()].astype("f8") + I[np.where(f >= f0, f - f0, np.inf).argmin()]) / 2    # at the reference
    b = io.BytesIO()
    np.save(b, amp)
    files[d + "amp.npy"] = b.getvalue()
    if sc["I"]:
        P = P / I
    scaled = amp if sc["I"] else np.ones((ny, nx))
    blank = msk.all(0)
    with np.errstate(invalid="ignore", divide="ignore"):
        K = 1 / wc.sum(0)
        E = np.exp(-2j * np.outer(phi, l2 - l0))
        F = np.einsum("pc,cyx->pyx", E, P * wc) * K * scaled
    F[:, blank] = np.nan
    got = fdf["real"] + 1j * fdf["im"]
    scale = np.nanmax(np.abs(F)) if np.isfinite(F).any() else 1.0
    near(got, F, what + "dirty spectra against the transform of each pixel's spectrum", scale, 2e-4, "dirty")
    near(fdf["tot"], np.abs(got), what + "FDF_tot_dirty", scale, 1e-6, "tot")
    # --- the RMSF
    rm = {}
    for c in ("real", "im", "tot"):
        rm[c], phi2, h2 = cube(files, f"{p}RMSF_{c}.fits")
        if rm[c].shape[1:] != (ny, nx):
            raise Violation("axis", f"{what}RMSF_{c}.fits holds a cube of shape {rm[c].shape}")
    dphi = np.diff(phi).mean()
    if len(phi2) < 2 * len(phi) or abs(np.diff(phi2).mean() - dphi) > 1e-4 * dphi or np.abs(phi2).min() > 1e-3 * dphi:
        raise Violation("axis", f"{what}the RMSF axis ({len(phi2)} depths by {np.diff(phi2).mean()} from {phi2[0]}) does not fit the FDF's ({len(phi)} by {dphi})")
    if h2["LAMSQ0"] != h["LAMSQ0"]:
        raise Violation("lamsq0", f"{what}LAMSQ0 of the RMSF is {h2['LAMSQ0']}, of the FDF {h['LAMSQ0']}")
    with np.errstate(invalid="ignore"):
        R = np.einsum("pc,cyx->pyx", np.exp(-2j * np.outer(phi2, l2 - l0)), wc.astype("c16")) * K
    g = (rm["real"] + 1j * rm["im"])
    near(g[:, ~blank], R[:, ~blank], what + "RMSF against the transform of each pixel's weights", 1.0,
         5e-4 + 2 * np.abs(l2 - l0).max() * np.abs(phi2).max() * 5e-5, "rmsf")      # the outer half is extrapolated in single precision
    near(rm["tot"], np.abs(g), what + "RMSF_tot", 1.0, 1e-6, "tot")
    # --- peak maps
    mx, pk = cmpf.data(files, p + "FDF_maxPI.fits"), cmpf.data(files, p + "FDF_peakRM.fits")
    if mx.size != ny * nx or pk.size != ny * nx:
        raise Violation("axis", f"{what}peak maps have shape {mx.shape} and {pk.shape}")
    near(mx.reshape(ny, nx), np.where(blank, np.nan, np.max(fdf["tot"], 0)), what + "FDF_maxPI against the spectra", scale, 1e-6, "peakmap")
    top = np.where(blank, np.nan, phi[np.argmax(np.nan_to_num(fdf["tot"]), 0)])
    near(pk.reshape(ny, nx), top, what + "FDF_peakRM against the spectra", np.abs(phi).max(), 1e-5, "peakmap")
    src = cmpf.hdus(files, d + "Q.fits")[0][0]
    for n in ("RMSF_FWHM", "FDF_maxPI", "FDF_peakRM"):
        coords(files, f"{p}{n}.fits", src, what)
    sim.probe("dirty_pixels", int((~blank).sum()))
    # --- the same in extensions
    e = do(1, cmd("rmsynth3d", *base, *[x for x in o if x not in ("-o", sc["pre"])], "-f", "-o", sc["pre"] + "x."), {k: v for k, v in files.items()})
    for x, n in (("FDF", ["FDF_real_dirty", "FDF_im_dirty", "FDF_tot_dirty"]), ("RMSF", ["RMSF_real", "RMSF_im", "RMSF_tot", "RMSF_FWHM"])):
        name = f"{p}x.{x}{'_dirty' if x == 'FDF' else ''}.fits"
        hd = cmpf.hdus(e, name)
        if len(hd) != len(n):
            raise Violation("extensions", f"{what}{name} has {len(hd)} extensions")
        for k, s in enumerate(n):
            a = cmpf.hdus(files, f"{p}{s}.fits")[0]
            cmpf.same_array(a[1], hd[k][1], f"{what}{s}.fits against extension {k} of {name}", exact=cmpf.ROUNDING, cls="extensions")
            for c in ("CTYPE", "CRVAL", "CRPIX", "CDELT", "CUNIT"):
                for q in range(1, a[0]["NAXIS"] + 1):
                    if a[0].get(f"{c}{q}") != hd[k][0].get(f"{c}{q}"):
                        raise Violation("extensions", f"{what}{s}.fits has {c}{q} {a[0].get(f'{c}{q}')!r}, extension {k} of {name} {hd[k][0].get(f'{c}{q}')!r}")
    # --- the next stages, from any of the files
    a = [f"{p}FDF_{sc['via'][0]}_dirty.fits", f"{p}RMSF_{sc['via'][1]}.fits", "-c", sc["cutoff"], "-n", sc["maxIter"], "-g", sc["gain"]]
    a += ["-w", sc["window"]] if sc["window"] is not None else []
    po = ["-o", sc["pre"]] if sc["pre"] else []
    files = do(2, cmd("rmclean3d", *a, *po), files)
    if sc["peak"]:
        t = "FDF_%s_dirty" if sc["peak"] == "dirty" else "FDF_clean_%s"
        if sc["peak"] == "clean" and sc["pre"] == "":
            sim.probe("peaks_of_clean")
        po = list(sc["peakopts"]) + (["-i", d + "I.fits"] if sc["pi"] else []) + (["-n", d + "rms.dat", "-w", sc["pn"]] if sc["pn"] else [])
        files = do(3, cmd("rmtools_peakfitcube", p + t % sc["via"][2] + ".fits", d + "freq.dat", p + "peak_", *po), files)
    x = sim.run(files, lib("sim.props.c12:alone", sc, "one.npz"))
    if "one.npz" not in x.files:
        raise Violation("failed", f"{what}the 1D library failed on the pixels: {x.p.describe()}")
    one = dict(np.load(io.BytesIO(x.files["one.npz"])))
    fw = cmpf.data(files, p + "RMSF_FWHM.fits")
    if fw.size != ny * nx:
        raise Violation("axis", f"{what}RMSF_FWHM.fits has shape {fw.shape}")
    near(fw.reshape(ny, nx)[~blank], one["fw"][~blank], what + "RMSF_FWHM against the 1D library", 1.0, 5e-3 * np.nanmax(one["fw"]), "fwhm")
    for k, n in (("c", "clean"), ("cc", "CC")):
        cub = {}
        for c in ("real", "im", "tot"):
            cub[c], ph, hc = cube(files, f"{p}FDF_{n}_{c}.fits")
            hd = cmpf.hdus(files, f"{p}FDF_real_dirty.fits")[0][0]
            cmpf.same_header(hd, hc, f"{what}dirty against FDF_{n}_{c}", ignore=("HISTORY", "STOKES") + tuple(f"{q}{z}" for z in (3, 4) for q in ("CRVAL", "CRPIX") if "STOKES" in str(hd.get(f"CTYPE{z}"))), cls="axis")
        z = cub["real"] + 1j * cub["im"]
        near(z, one[k], what + f"FDF_{n} against each pixel cleaned by the 1D method", scale, 1e-4, "clean")
        near(cub["tot"], np.abs(z), what + f"FDF_{n}_tot", scale, 1e-6, "tot")
    it = cmpf.data(files, p + "CLEAN_nIter.fits")
    if it.shape != (1,) * (h["NAXIS"] - 2) + (ny, nx):
        raise Violation("axis", f"{what}CLEAN_nIter.fits has shape {it.shape}")
    coords(files, p + "CLEAN_nIter.fits", src, what)
    near(it.reshape(ny, nx), one["it"], what + "CLEAN_nIter against each pixel cleaned by the 1D method", 1, 0, "niter")
    sim.probe("cleaned_pixels", int((one["it"] > 0).sum()))
    e = do(4, cmd("rmclean3d", *a, "-f", "-o", sc["pre"] + "x."), files)
    for n in ("clean", "CC"):
        hd = cmpf.hdus(e, f"{p}x.FDF_{n}.fits")
        for k, c in enumerate(("real", "im", "tot")):
            s = cmpf.hdus(files, f"{p}FDF_{n}_{c}.fits")[0]
            cmpf.same_array(s[1], hd[k][1], f"{what}FDF_{n}_{c}.fits against extension {k} of FDF_{n}.fits", exact=cmpf.ROUNDING, cls="extensions")
    cmpf.same_array(it, cmpf.data(e, f"{p}x.CLEAN_nIter.fits"), what + "CLEAN_nIter of both output layouts", exact=cmpf.ROUNDING, cls="extensions")
    if sc["peak"]:
        ok = np.isfinite(one["peak:ampPeakPIfit"]) if "peak:ampPeakPIfit" in one else np.zeros((ny, nx), bool)
        f0 = CL / np.sqrt(h["LAMSQ0"]) if h["LAMSQ0"] > 0 else f.mean()
        pamp = amp if sc["pi"] else np.ones((ny, nx))
        full = lambda v: np.full((ny, nx), v, "f8")
        also = {"lam0Sq_m2": full(h["LAMSQ0"]), "freq0_Hz": full(f0), "fwhmRMSF": fw.reshape(ny, nx), "Ifreq0": pamp, "min_freq": full(f.min()),
                "max_freq": full(f.max()), "N_channels": full(len(f)), "median_channel_width": full(np.median(np.diff(f))),
                "dFDFth": full(np.nan) if sc["pn"] is None else theory(sc, f, rms, amp),
                "fracPol": one["peak:ampPeakPIfit"] / pamp if ok.any() else full(np.nan)}
        sc_ = {"phiPeakPIfit_rm2": np.abs(phi).max(), "dPhiPeakPIfit_rm2": None, "indxPeakPIfit": len(phi)}
        for k in catalog.PEAK[sc["peakopts"][0] if sc["peakopts"] else ""]:
            m = cmpf.data(files, f"{p}peak_{k}.fits")
            coords(files, f"{p}peak_{k}.fits", src, what)
            if m.shape != (ny, nx):
                raise Violation("axis", f"{what}peak map {k} has shape {m.shape}")
            if k in also:
                near(m[ok], also[k][ok], what + f"peak map {k}", max(np.nanmax(np.abs(also[k][ok]), initial=0.0), 1e-9), 1e-5 if k != "fracPol" else 2e-3, "peak")
                continue
            if not ok.any():
                continue
            v = one["peak:" + k]
            if "Angle" in k and not k.startswith("d"):
                m = v + (m - v + 90) % 180 - 90
                s, tol = 180, 2e-3
            else:
                s, tol = sc_.get(k) or np.nanmax(np.abs(np.append(v, 1e-12))), 2e-3
                if not np.isfinite(s):
                    continue
            near(m, v, what + f"peak map {k} of the {sc['peak']} spectra against the 1D method", s, tol, "peak")
        sim.probe("peaks", int(ok.sum()))


def check_grid(sc, phi, l2, what):
    o = sc["grid"]
    fw = 2 / (l2.max() + l2.min()) if sc["super"] else 3.8 / (l2.max() - l2.min())
    ns = float(o[o.index("-s") + 1]) if "-s" in o else 5.0
    dp = float(o[o.index("-d") + 1]) if "-d" in o else fw / ns
    pm = float(o[o.index("-l") + 1]) if "-l" in o else max(np.sqrt(3) / np.abs(np.diff(l2)).max(), 10 * fw)
    n = int(round(pm / dp)) * 2 + 1
    if abs(len(phi) - n) > (2 if "-l" not in o or "-d" not in o else 0) or abs(np.diff(phi).mean() - dp) > 1e-5 * dp or abs(phi[len(phi) // 2]) > 1e-4 * dp:
        raise Violation("grid", f"{what}Faraday depths are {len(phi)} by {np.diff(phi).mean()} around {phi[len(phi) // 2]}, asked for {n} by {dp} around 0")


def nontrivial(sc, st):
    return st["probes"].get("dirty_pixels", 0) > 0
