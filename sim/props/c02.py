"""Stokes I cube fits do not depend on workers, order or verbosity; each pixel is the fit of its own spectrum."""
import io

import numpy as np

from sim import cmpf, data
from sim.simctx import Violation, cmd, lib

TOOLS = ["rmtools_fitIcube"]


def gen(rng, i, tier):
    big = tier == "thorough" and rng.random() < 0.3
    large = i % 12 == 5                          # more pixels than any batch a tool may form
    spec = data.random_spec(rng, ny=(6, 11) if large else (1, 7) if big else (1, 4), nx=(6, 11) if large else (2, 8) if big else (2, 5), nchan=(12, 30))
    for k in ("nanpix", "faint"):
        spec.pop(k, None)
    if rng.random() < 0.35:
        spec["nanvox"] = data.flags(rng, spec)
    spec["curved"] = rng.random() < 0.5
    spec["df"] = rng.choice([8e6, 2e7])
    if rng.random() < 0.3:
        spec["irregular"] = True
    sc = {"spec": spec, "axis": rng.choice(["3D", "3D", "4DFS", "4DSF"]), "freqfile": rng.random() < 0.5 or bool(spec.get("irregular")),
          "order": rng.choice([0, 1, 1, 2, 2, 3, 4, 5, -1, -2, -3, -5]), "fun": rng.choice(["log", "log", "linear"]), "runs": []}
    if rng.random() < 0.4:
        sc["mask"] = rng.choice([-3, -5, 0.8, 1.5])
    for _ in range(rng.randint(2, 3)):
        sc["runs"].append({"n": rng.choice([1, 2, 3, 4, 8]), "c": rng.choice([1, 1, 2, 3, 5, 1000]), "v": rng.random() < 0.4,
                           "choices": {"seed": rng.randrange(2**31), "bias": rng.choice([0, 0, 0.5, 0.9])},
                           "start": rng.choice([None, "fork", "spawn"]), "eager": rng.random() < 0.6,
                           "api": rng.choice(["cli", "cli", "lib"]), "o": rng.choice(["", "pre_"])})
    pix = [[y, x] for y in range(spec["ny"]) for x in range(spec["nx"])]
    if i % 6 == 1:                               # pixels with few channels left
        n = spec["nchan"]
        spec["nanvox"] = [[c, y, x] for y, x in rng.sample(pix, rng.randint(1, len(pix) - 1)) for c in rng.sample(range(n), rng.randint(n // 3, n - 8))]
    if i % 6 in (0, 4):                          # spectra no polynomial fits
        spec["lines"] = [[y, x, rng.randrange(2**31)] for y, x in rng.sample(pix, rng.choice([rng.randint(1, len(pix)), len(pix), len(pix)]))]
    if i % 5 == 2:
        spec["f8"] = True                        # a cube in double precision
    return sc


def shrink(sc):
    if len(sc["runs"]) > 1:
        for r in sc["runs"]:
            yield dict(sc, runs=[r])
    elif sc["runs"]:
        yield dict(sc, runs=[])
    for k in ("nanchan", "nanvox", "curved", "irregular", "f8", "lines"):
        if sc["spec"].get(k):
            s = dict(sc["spec"])
            s.pop(k)
            yield dict(sc, spec=s)
    for k in ("ny", "nx"):
        if sc["spec"][k] > 2:
            yield dict(sc, spec=dict(sc["spec"], **{k: 2}))
    if sc["axis"] != "3D":
        yield dict(sc, axis="3D")
    if sc["order"] != 0:
        yield dict(sc, order=0)
    if "mask" in sc:
        c = dict(sc)
        c.pop("mask")
        yield c
    for j, r in enumerate(sc["runs"]):
        for k, v in (("n", 2), ("c", 1), ("v", False), ("eager", True), ("api", "cli"), ("o", ""), ("start", None)):
            if r[k] != v and not (k == "n" and r["n"] < 2):
                rr = list(sc["runs"])
                rr[j] = dict(r, **{k: v})
                yield dict(sc, runs=rr)


def args(sc, n=1, c=1, v=False, o=""):
    a = ["in/I.fits", "-p", sc["order"], "-f", sc["fun"]]
    if n != 1:
        a += ["-n", n]
    if c != 1:
        a += ["-c", c]
    if v:
        a.append("-v")
    if o:
        a += ["-o", o]
    if sc["freqfile"]:
        a += ["-freqFile", "in/freq.dat"]
    if "mask" in sc:
        a += ["-m", "-t", sc["mask"]]
    return a


def prods(sc):
    k = abs(sc["order"]) + 1
    return [f"coeff{i}.fits" for i in range(k)] + [f"coeff{i}err.fits" for i in range(k)] + [
        "model.i.fits", "mask.fits", "reffreq.fits", "covariance.fits", "noise.dat"]


def lib_fit(sc, n, c, v, o):
    """A library caller's route, in a process that goes on to use the module."""
    from RMtools_3D import do_fitIcube as m

    cube, head = m.open_datacube("in/I.fits", v)
    f = m.get_frequencies(cube, head, "in/freq.dat") if sc["freqfile"] else m.get_freq_array("in/I.fits")
    before = cube.copy()
    ret = m.make_model_I(cube, head, f, polyOrd=sc["order"], threshold=sc.get("mask", -3), num_cores=n, chunk_size=c, verbose=v,
                         fit_function=sc["fun"], apply_mask="mask" in sc, outDir="in", prefixOut=o)
    if not np.array_equal(before, cube, equal_nan=True):
        print("INPUT-CHANGED")
    np.save("ret.npy", ret)


def lib_alone(out, sc):
    """In a simulated process: every spectrum fitted on its own, and the model of the saved coefficients."""
    import io as _io

    from astropy.io import fits as pf

    from RMutils.util_misc import calculate_StokesI_model, fit_StokesI_model

    I, _, _, f = data.iqu(sc["spec"])
    if sc["freqfile"]:
        f = np.loadtxt("in/freq.dat").astype(I.dtype)        # the tool works in the precision of its input
    rms = np.loadtxt("in/noise.dat").astype(f.dtype)
    with pf.open("in/mask.fits", memmap=False) as h:
        mask = h[0].data
    ny, nx = I.shape[1:]
    d = {}
    for y in range(ny):
        for x in range(nx):
            if not np.isfinite(mask[y, x]):
                continue
            r = fit_StokesI_model(f, I[:, y, x], rms, polyOrd=sc["order"], fit_function=sc["fun"])
            d[f"m{y}_{x}"] = calculate_StokesI_model(r, f)
            d[f"p{y}_{x}"], d[f"e{y}_{x}"], d[f"c{y}_{x}"] = (
                r.params, r.perror, np.full((6, 6), np.nan) if r.pcov is None else r.pcov)      # no covariance: saved as NaN
            d[f"f{y}_{x}"] = r.reference_frequency_Hz
    np.savez(out, **d)


def model(fun, p, x):
    """The documented models, written out (p from highest to lowest order, x = frequency over reference frequency)."""
    if fun == "linear":
        return sum(c * x ** (5 - i) for i, c in enumerate(p))
    L = np.log10(x)
    return p[5] * 10 ** (sum(c * L ** (5 - i) for i, c in enumerate(p[:5])))


def run(sc, sim):
    files = data.cubes(sc["spec"], "in/", sc["axis"])
    r = sim.run(files, cmd("rmtools_fitIcube", *args(sc)))
    cmpf.must_ok(r.p, "fit with one worker")
    ref = r.files
    for q in sc["runs"]:
        pool = {"start_method": q["start"], "eager": q["eager"]}
        how = f"{q['api']}: {q['n']} workers, chunk {q['c']}{', verbose' if q['v'] else ''}"
        if q["api"] == "cli":
            p = sim.run(files, cmd("rmtools_fitIcube", *args(sc, q["n"], q["c"], q["v"], q["o"]), pool=pool), choices=q["choices"])
        else:
            p = sim.run(files, lib("sim.props.c02:lib_fit", sc, q["n"], q["c"], q["v"], q["o"], pool=pool), choices=q["choices"])
        if not p.p.ok:
            raise Violation("failed", f"fit with {how} failed, with one worker it did not: {p.p.describe()}", key="failed:" + cmpf.first_exc(p.p))
        if "INPUT-CHANGED" in p.p.out:
            raise Violation("input-changed", f"make_model_I changed the array it was given ({how})")
        for o in prods(sc):
            if o == "noise.dat":
                if p.files.get("in/" + q["o"] + o) != ref["in/" + o]:
                    raise Violation("differs", f"one worker against {how}: noise list differs")
                continue
            cmpf.same_fits(ref, p.files, "in/" + o, f"one worker against {how}:", path2="in/" + q["o"] + o, exact=cmpf.ROUNDING)
        if q["api"] == "lib":
            cmpf.same_array(cmpf.data(ref, "in/model.i.fits"), np.load(io.BytesIO(p.files["ret.npy"])),
                            f"one worker against {how}: returned model", exact=cmpf.ROUNDING)
    # every pixel is the fit of its own spectrum
    x = sim.run(ref, lib("sim.props.c02:lib_alone", "one.npz", sc))
    if "one.npz" not in x.files:
        raise Violation("failed", f"fits of single spectra failed: {x.p.describe()}")
    d = dict(np.load(io.BytesIO(x.files["one.npz"])))
    ny, nx, n = sc["spec"]["ny"], sc["spec"]["nx"], sc["spec"]["nchan"]
    cube = cmpf.data(ref, "in/model.i.fits").reshape(n, ny, nx)
    mask = cmpf.data(ref, "in/mask.fits")
    k = abs(sc["order"]) + 1
    P = np.zeros((6, ny, nx))
    E = np.zeros((6, ny, nx))
    for i in range(k):
        P[5 - i] = cmpf.data(ref, f"in/coeff{i}.fits")
        E[5 - i] = cmpf.data(ref, f"in/coeff{i}err.fits")
    rf, cov = cmpf.data(ref, "in/reffreq.fits"), cmpf.data(ref, "in/covariance.fits")
    f = data.freqs(sc["spec"])
    nfit = 0
    for y in range(ny):
        for xx in range(nx):
            w = f"pixel ({y},{xx})"
            if not np.isfinite(mask[y, xx]):
                if np.isfinite(cube[:, y, xx]).any() or np.isfinite(rf[y, xx]) or np.isfinite(P[5, y, xx]):
                    raise Violation("masked", f"{w} is masked but has a fit")
                continue
            nfit += 1
            m, p, e = d[f"m{y}_{xx}"], d[f"p{y}_{xx}"], d[f"e{y}_{xx}"]
            cmpf.same_array(m, cube[:, y, xx], f"{w}: model cube against the fit of its spectrum alone", rtol=1e-4, cls="alone")
            for i in range(6):
                if abs(p[i] - P[i, y, xx]) > 1e-4 * abs(p[i]) + 0.01 * abs(e[i]) + 1e-9:
                    raise Violation("alone", f"{w}: coefficient {5 - i} is {P[i, y, xx]}, the fit of its spectrum alone gives {p[i]} +- {e[i]}")
                if abs(e[i] - E[i, y, xx]) > 1e-2 * abs(e[i]) + 1e-9:
                    raise Violation("alone", f"{w}: error of coefficient {5 - i} is {E[i, y, xx]}, the fit of its spectrum alone gives {e[i]}")
            cmpf.same_array(d[f"c{y}_{xx}"], cov[:, :, y, xx], f"{w}: covariance against the fit of its spectrum alone", rtol=1e-2, cls="alone")
            cmpf.same_array(d[f"f{y}_{xx}"], rf[y, xx], f"{w}: reference frequency against the fit of its spectrum alone", rtol=1e-6, cls="alone")
            cmpf.same_array(model(sc["fun"], P[:, y, xx], f / rf[y, xx]), cube[:, y, xx],
                            f"{w}: model cube against its coefficient maps", rtol=2e-4, cls="coeffs",
                            scale=np.abs(cube[:, y, xx]).max() + (2e-3 * sum(abs(P[:, y, xx]) * 1.5 ** np.arange(5, -1, -1)) if sc["fun"] == "linear" else 0))
    sim.probe("pixels_fitted", nfit)
    sim.probe("pixels_masked", ny * nx - nfit)


def nontrivial(sc, st):
    return st["probes"].get("pixels_fitted", 0) > 1 and (st["tasks"] > 0 or not sc["runs"])
