"""Parallel RM-CLEAN = serial RM-CLEAN; each pixel depends only on its own spectrum."""
import io

import numpy as np

from sim import cmpf, data
from sim.simctx import Violation, cmd, lib

TOOLS = ["rmsynth3d", "rmclean3d"]


def gen(rng, i, tier):
    big = tier == "thorough" and rng.random() < 0.3
    large = i % 16 == 5                          # more pixels than any batch a tool may form, little work per pixel
    spec = data.random_spec(rng, ny=(9, 15) if large else (1, 7) if big else (1, 4), nx=(9, 15) if large else (2, 8) if big else (2, 5))
    if spec["ny"] == 1 and rng.random() < 0.7:
        spec["ny"] = 2
    if rng.random() < 0.4:                       # isolated flags: every pixel has an RMSF of its own
        spec["nanvox"] = data.flags(rng, spec)
    sc = {"spec": spec, "axis": rng.choice(["3D", "3D", "4DFS", "4DSF"]),
          "synth": rng.choice([[], ["-t"], ["-s", "3"], ["-w", "variance", "-n", "in/rms.dat"]]),
          "cutoff": rng.choice([0.02, 0.08, 0.2, 0.4]), "gain": rng.choice([0.1, 0.1, 0.3]),
          "maxIter": rng.choice([5, 20] if large else [5, 40, 200, 1000]), "separate": rng.random() < 0.7}
    if rng.random() < 0.12:                      # every pixel counts as above the cutoff, also the dead ones
        sc["cutoff"], sc["maxIter"] = 0.0, rng.choice([0, 1, 5, 20])
    elif rng.random() < 0.15:                    # a peak exactly at the cutoff
        sc["exact"] = rng.random()
    if rng.random() < (0.6 if sc["cutoff"] == 0 else 0.1):
        sc["zero"] = [rng.random() for _ in range(rng.randint(1, 2))]          # pixels whose spectrum is zero throughout
    if rng.random() < 0.25:                      # RMSFs that do not all peak in the middle
        sc["shift"] = [[rng.random(), rng.choice([-3, -1, 1, 2])] for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.5:
        sc["window"] = sc["cutoff"] * rng.choice([0.2, 0.5])
    runs = []
    for _ in range(rng.randint(2, 3)):
        r = {"api": rng.choice(["cli", "cli", "cli", "mp", "mp", "thread", "schwim"]), "n": rng.choice([1, 2, 3, 5, 8]),
             "chunk": rng.choice([None, 1, 2, 3, 7, 1000]), "choices": {"seed": rng.randrange(2**31), "bias": rng.choice([0, 0, 0.5, 0.9])},
             "start": rng.choice([None, "fork", "spawn"]), "eager": rng.random() < 0.6, "verbose": rng.random() < 0.3}
        if r["api"] == "cli" and r["n"] == 1 and r["chunk"] is None:
            r["n"] = 2
        runs.append(r)
    if i % 32 == 21:                             # more than a thousand pixels above the cutoff
        sc["spec"] = dict(data.random_spec(rng, ny=(32, 34), nx=(33, 36), nchan=(14, 18)), nanvox=[[3, 2, 2], [5, 8, 3]])
        sc.update(cutoff=0.01, maxIter=rng.choice([2, 4]), synth=[], separate=True, axis="3D")
        sc.pop("exact", None)
        runs[0]["chunk"], runs[0]["n"] = rng.choice([7, 50, 130]), rng.choice([3, 5])
        del runs[2:]
    sc["runs"] = runs
    sc["alone"] = [rng.random() for _ in range(2)]
    if i % 5 == 2:                               # spectra in double precision, through the library as well
        sc["f8"] = True
        if all(r["api"] == "cli" for r in runs):
            runs[-1]["api"] = rng.choice(["mp", "mp", "schwim", "thread"])
    return sc


def shrink(sc):
    if len(sc["runs"]) > 1:
        for i in range(len(sc["runs"])):
            yield dict(sc, runs=[sc["runs"][i]])
    if len(sc["alone"]) > 0 and sc["runs"]:
        yield dict(sc, alone=[])
        yield dict(sc, runs=[])
    for k in ("nanchan", "nanpix", "faint", "bright", "nanvox"):
        if sc["spec"].get(k):
            s = dict(sc["spec"])
            s.pop(k)
            yield dict(sc, spec=s)
    for k in ("ny", "nx"):
        if sc["spec"][k] > 2:
            yield dict(sc, spec=dict(sc["spec"], **{k: 2}))
    if sc["axis"] != "3D":
        yield dict(sc, axis="3D")
    if sc["synth"]:
        yield dict(sc, synth=[])
    for k in ("window", "shift", "f8", "exact", "zero"):
        if k in sc:
            c = dict(sc)
            c.pop(k)
            yield c
    for j, r in enumerate(sc["runs"]):
        for k, v in (("n", 2), ("chunk", 1), ("start", None), ("verbose", False), ("eager", True)):
            if r[k] != v and not (k == "n" and r["n"] < 2):
                rr = list(sc["runs"])
                rr[j] = dict(r, **{k: v})
                yield dict(sc, runs=rr)


def outs(sc):
    if sc["separate"]:
        return [f"FDF_clean_{x}.fits" for x in ("real", "im", "tot")] + [f"FDF_CC_{x}.fits" for x in ("real", "im", "tot")] + ["CLEAN_nIter.fits"]
    return ["FDF_clean.fits", "FDF_CC.fits", "CLEAN_nIter.fits"]


def clean_args(sc):
    a = ["in/FDF_real_dirty.fits", "in/RMSF_real.fits", "-c", sc["cutoff"], "-n", sc["maxIter"], "-g", sc["gain"]]
    if "window" in sc:
        a += ["-w", sc["window"]]
    if not sc["separate"]:
        a += ["-f"]
    return a


def lib_clean(out, sc, api, n, chunk, verbose):
    """In a simulated process: the library entry point with a caller's own pool."""
    import multiprocessing
    import multiprocessing.pool

    from RMtools_3D.do_RMclean_3D import run_rmclean

    pool = None
    if api == "mp":
        pool = multiprocessing.Pool(n)
    elif api == "thread":
        pool = multiprocessing.pool.ThreadPool(n)
    elif api == "schwim":
        import schwimmbad

        pool = schwimmbad.choose_pool(mpi=False, processes=n)
    c, cc, it, res, head = run_rmclean("in/FDF_real_dirty.fits", "in/RMSF_real.fits", sc["cutoff"], maxIter=sc["maxIter"],
                                       gain=sc["gain"], pool=pool, chunksize=chunk, verbose=verbose,
                                       window=sc.get("window", np.nan), log=lambda *a, **k: None)
    np.savez(out, c=c, cc=cc, it=it, res=res)


def fits_data(path):
    from astropy.io import fits as pf

    with pf.open(path, memmap=False) as h:
        return h[0].header, h[0].data


def own_cube(real, imag):
    """(complex cube with the Faraday depth axis first, its depths), read by the harness itself."""
    h, re = fits_data(real)
    _, im = fits_data(imag)
    n = h["NAXIS"]
    ax = next(i for i in range(1, n + 1) if "FDEP" in str(h[f"CTYPE{i}"]).upper())
    c = np.moveaxis(re + 1j * im, n - ax, 0)
    k = np.arange(1, h[f"NAXIS{ax}"] + 1)
    phi = (h[f"CRVAL{ax}"] + (k - h[f"CRPIX{ax}"]) * h[f"CDELT{ax}"]).astype("f4")
    return c.reshape(c.shape[0], h["NAXIS2"], h["NAXIS1"]), phi


def lib_alone(out, sc, pix):
    """In a simulated process: single spectra cleaned on their own (the reference for 'own spectrum only')."""
    from RMutils.util_RM import do_rmclean_hogbom

    fdf, phi = own_cube("in/FDF_real_dirty.fits", "in/FDF_im_dirty.fits")
    rmsf, phi2 = own_cube("in/RMSF_real.fits", "in/RMSF_im.fits")
    ny, nx = sc["spec"]["ny"], sc["spec"]["nx"]
    fw = fits_data("in/RMSF_FWHM.fits")[1].reshape(ny, nx)
    d = {}
    for y, x in pix:
        r = do_rmclean_hogbom(fdf[:, y, x].copy(), phi, rmsf[:, y, x].copy(), phi2, np.array(fw[y, x]), sc["cutoff"],
                              maxIter=sc["maxIter"], gain=sc["gain"], window=sc.get("window", np.nan))
        d[f"c{y}_{x}"], d[f"cc{y}_{x}"] = r[0], r[1]
        d[f"it{y}_{x}"], d[f"res{y}_{x}"] = r[2], r[3]
    np.savez(out, **d)


def shifted(sc, files):
    """The RMSFs of some pixels moved along the Faraday depth axis, in the files; spectra with double precision."""
    from astropy.io import fits as pf

    out = dict(files)
    ny, nx = sc["spec"]["ny"], sc["spec"]["nx"]
    for x in ("real", "im", "tot") if sc.get("shift") else ():
        with pf.open(io.BytesIO(files[f"in/RMSF_{x}.fits"])) as h:
            ax = h[0].data.ndim - next(k for k in range(1, h[0].data.ndim + 1) if "FDEP" in str(h[0].header[f"CTYPE{k}"]).upper())
            a = np.moveaxis(h[0].data, ax, 0)
            for u, n in sc["shift"]:
                p = int(u * ny * nx)
                a[..., p // nx, p % nx] = np.roll(a[..., p // nx, p % nx], n, axis=0)
            b = io.BytesIO()
            h.writeto(b)
        out[f"in/RMSF_{x}.fits"] = b.getvalue()
    for x in ("real", "im", "tot") if sc.get("zero") else ():
        with pf.open(io.BytesIO(out[f"in/FDF_{x}_dirty.fits"])) as h:
            ax = h[0].data.ndim - next(k for k in range(1, h[0].data.ndim + 1) if "FDEP" in str(h[0].header[f"CTYPE{k}"]).upper())
            a = np.moveaxis(h[0].data, ax, 0)
            for u in sc["zero"]:
                p = int(u * ny * nx)
                a[..., p // nx, p % nx] = 0
            b = io.BytesIO()
            h.writeto(b)
        out[f"in/FDF_{x}_dirty.fits"] = b.getvalue()
    if sc.get("f8"):
        r = np.random.RandomState(sc["spec"]["seed"] % 2**31 + 11)
        for x in ("FDF_real_dirty", "FDF_im_dirty", "RMSF_real", "RMSF_im"):
            with pf.open(io.BytesIO(out[f"in/{x}.fits"])) as h:
                b = io.BytesIO()
                pf.PrimaryHDU(h[0].data * (1 + 1e-8 * r.standard_normal(h[0].data.shape)), h[0].header).writeto(b)
            out[f"in/{x}.fits"] = b.getvalue()
    return out


def load(run, path, what):
    if path not in run.files:
        raise Violation("failed", f"{what}: no result; {run.p.describe()}", key="failed:" + cmpf.first_exc(run.p))
    return dict(np.load(io.BytesIO(run.files[path])))


def run(sc, sim):
    files = data.cubes(sc["spec"], "in/", sc["axis"])
    r = sim.run(files, cmd("rmsynth3d", "in/Q.fits", "in/U.fits", "in/freq.dat", *sc["synth"]))
    cmpf.must_ok(r.p, "rmsynth3d")
    base = shifted(sc, r.files)
    if "exact" in sc:
        re, im = (cmpf.data(base, f"in/FDF_{x}_dirty.fits") for x in ("real", "im"))
        peaks = np.abs(np.nan_to_num(re + 1j * im)).reshape(-1, sc["spec"]["ny"] * sc["spec"]["nx"]).max(0)
        peaks = np.sort(peaks[peaks > 0.02])
        if len(peaks):
            sc = dict(sc, cutoff=float(peaks[int(sc["exact"] * len(peaks))]))
            sim.probe("cutoff_is_a_peak")
    s = sim.run(base, cmd("rmclean3d", *clean_args(sc)))
    cmpf.must_ok(s.p, "serial rmclean3d")
    ref = s.files
    serial_lib = None
    niter = cmpf.data(ref, "in/CLEAN_nIter.fits")
    sim.probe("pixels_cleaned", int((niter > 0).sum()))
    sim.probe("pixels_uncleaned", int((niter == 0).sum()))
    sim.probe("pixels_at_maxiter", int((niter == sc["maxIter"]).sum()))
    for q in sc["runs"]:
        pool = {"start_method": q["start"], "eager": q["eager"]}
        how = f"{q['api']} pool of {q['n']}, chunk {q['chunk']}, start method {q['start']}"
        if q["api"] == "cli":
            a = clean_args(sc) + ["--ncores", q["n"]] + (["--chunk", q["chunk"]] if q["chunk"] is not None else [])
            if q["verbose"]:
                a.append("-v")
            p = sim.run(base, cmd("rmclean3d", *a, pool=pool), choices=q["choices"])
            if not p.p.ok:
                raise Violation("failed", f"RM-CLEAN with {how} failed, the serial run did not: {p.p.describe()}",
                                key="failed:" + cmpf.first_exc(p.p))
            for o in outs(sc):
                cmpf.same_fits(ref, p.files, "in/" + o, f"serial against {how}:", exact="nIter" in o)
        else:
            if serial_lib is None:
                x = sim.run(base, lib("sim.props.c01:lib_clean", "ser.npz", sc, "none", 1, None, False))
                serial_lib = load(x, "ser.npz", "serial library run")
            p = sim.run(base, lib("sim.props.c01:lib_clean", "par.npz", sc, q["api"], q["n"], q["chunk"], q["verbose"], pool=pool),
                        choices=q["choices"])
            got = load(p, "par.npz", f"library run with {how}")
            for k, name in (("c", "cleaned FDF"), ("cc", "components"), ("it", "iteration counts"), ("res", "residuals")):
                cmpf.same_array(serial_lib[k], got[k], f"serial against {how}: {name}", exact=k == "it",
                                rtol=1e-11 if serial_lib[k].dtype == np.complex128 else 1e-5)
    if sc["alone"]:
        ny, nx = sc["spec"]["ny"], sc["spec"]["nx"]
        pix = sorted({(int(u * ny * nx) // nx, int(u * ny * nx) % nx) for u in sc["alone"]})
        x = sim.run(base, lib("sim.props.c01:lib_alone", "one.npz", sc, pix))
        got = load(x, "one.npz", "single-spectrum run")
        if sc["separate"]:
            c = cmpf.data(ref, "in/FDF_clean_real.fits") + 1j * cmpf.data(ref, "in/FDF_clean_im.fits")
            cc = cmpf.data(ref, "in/FDF_CC_real.fits") + 1j * cmpf.data(ref, "in/FDF_CC_im.fits")
        else:
            c = cmpf.data(ref, "in/FDF_clean.fits", 0) + 1j * cmpf.data(ref, "in/FDF_clean.fits", 1)
            cc = cmpf.data(ref, "in/FDF_CC.fits", 0) + 1j * cmpf.data(ref, "in/FDF_CC.fits", 1)
        c, cc, it = c.reshape(-1, ny, nx), cc.reshape(-1, ny, nx), niter.reshape(ny, nx)
        for y, xx in pix:
            w = f"pixel ({y},{xx}) in the cube against its spectrum alone:"
            cmpf.same_array(c[:, y, xx], got[f"c{y}_{xx}"], w + " cleaned FDF", rtol=1e-4)
            cmpf.same_array(cc[:, y, xx], got[f"cc{y}_{xx}"], w + " components", rtol=1e-4)
            cmpf.same_array(it[y, xx], got[f"it{y}_{xx}"], w + " iterations", exact=True)


def nontrivial(sc, st):
    return st["probes"].get("pixels_cleaned", 0) > 0 and (st["tasks"] > 0 or not sc["runs"])
