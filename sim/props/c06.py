"""Processing chunk by chunk and reassembling equals processing the whole cube."""
import numpy as np

from sim import catalog, cmpf, data, images
from sim.simctx import Violation, cmd

TOOLS = ["rmtools_createchunks", "rmtools_assemblechunks", "rmsynth3d", "rmclean3d", "rmtools_peakfitcube"]
SYNTH = ["FDF_real_dirty", "FDF_im_dirty", "FDF_tot_dirty", "FDF_maxPI", "FDF_peakRM", "RMSF_real", "RMSF_im", "RMSF_tot", "RMSF_FWHM"]
CLEAN = ["FDF_clean_real", "FDF_clean_im", "FDF_clean_tot", "FDF_CC_real", "FDF_CC_im", "FDF_CC_tot"]


def gen(rng, i, tier):
    spec = data.random_spec(rng, ny=(1, 4), nx=(1, 4), nchan=(16, 28))
    while spec["ny"] * spec["nx"] < 2:
        spec["ny"], spec["nx"] = rng.randint(1, 4), rng.randint(1, 4)
    n = spec["ny"] * spec["nx"]
    per = rng.choice([rng.randint(1, n), rng.randint(2, n), max(1, n - 1), max(1, n // 2)])
    if rng.random() < 0.5:
        for _ in range(8):
            spec["nanvox"] = data.flags(rng, spec)
            if comparable(spec, per):
                break
    same_reference(spec, per)
    sc = {"spec": spec, "axis": rng.choice(["3D", "3D", "4DFS", "4DSF"]), "per": per, "synth": rng.choice([[], ["-t"], ["-s", "3"]]),
            "cutoff": rng.choice(["0.01", "0.05", "0.2"]), "maxIter": rng.choice(["20", "300"]), "order": rng.randrange(2**31),
            "concurrent": rng.choice([0, 0, 2, 3]), "m": rng.random() < 0.3, "ncores": rng.choice([1, 1, 2]),
            "switches": [[rng.randrange(4000), rng.randrange(3)] for _ in range(rng.randint(0, 12))],
            "hic": images.hiccups(rng), "I": rng.random() < 0.3, "peak": rng.choice([None, "dirty", "clean"]), "dirs": rng.randrange(2**31)}
    if rng.random() < 0.2:
        sc["synth"] = rng.choice([["-w", "variance", "-n", "rms.dat"], ["-l", "200", "-d", "20"], ["-l", "150", "-s", "4", "-t"]])
    if sc["peak"] and rng.random() < 0.6:
        sc["peakopts"] = rng.choice([["-n", "rms.dat"], ["-n", "rms.dat", "-w", "variance"], ["-n", "rms.dat", "-a"], ["-a"], ["-p"]])
        sc["I"] = sc["I"] or rng.random() < 0.6
    if rng.random() < 0.08:                      # a cutoff that is never reached
        sc["cutoff"], sc["maxIter"] = "-0.2", rng.choice(["1", "3"])
    return sc


def comparable(spec, per):
    bad = ~np.isfinite(data.iqu(spec)[1])
    bad = bad.transpose(0, 2, 1).reshape(len(bad), -1)        # pixels in the order the splitter takes them
    return all((bad[:, a:a + per].all(1) == bad.all(1)).all() for a in range(0, bad.shape[1], per))


def same_reference(spec, per):
    """The reference wavelength is a mean over the channels that are not blank everywhere in the file, so it is only the same for
    a chunk and the whole cube if each channel that is blank throughout a chunk is blank throughout the cube.  Other flags go."""
    if spec.get("nanchan"):
        spec.pop("faint", None)                  # a faint pixel has its values replaced, flags included
    for k in (None, "nanpix", "nanvox", "nanchan"):
        if k:
            spec.pop(k, None)
        if comparable(spec, per):
            return
        if k == "nanpix" and spec.get("faint"):
            spec.pop("faint")


def shrink(sc):
    for k, v in (("peakopts", []),) if sc.get("peakopts") else ():
        yield dict(sc, **{k: v})
    for k, v in (("hic", []), ("I", False), ("concurrent", 0), ("axis", "3D"), ("synth", []), ("peak", None), ("ncores", 1), ("m", False)):
        if sc[k] != v:
            yield dict(sc, **{k: v})
    for k in ("nanchan", "nanpix", "faint", "bright", "nanvox"):
        if sc["spec"].get(k):
            s = dict(sc["spec"])
            s.pop(k)
            same_reference(s, sc["per"])
            yield dict(sc, spec=s)


def stages(sc, q, u, pre, i):
    """The commands that turn Q and U into products with this prefix, in order."""
    s = [cmd("rmsynth3d", q, u, "freq.dat", "-o", pre, *sc["synth"], *(["-i", i] if sc["I"] else []), stdin="\n")]      # -n with -i asks
    nc = ["--ncores", sc["ncores"]] if sc["ncores"] > 1 else []
    s.append(cmd("rmclean3d", pre + "FDF_real_dirty.fits", pre + "RMSF_real.fits", "-c", sc["cutoff"], "-n", sc["maxIter"], "-o", pre, *nc))
    po = [*(["-i", i] if sc["I"] else []), *sc.get("peakopts", [])]
    if sc["peak"] == "dirty":
        s.append(cmd("rmtools_peakfitcube", pre + "FDF_tot_dirty.fits", "freq.dat", pre, *po))
    elif sc["peak"] == "clean":
        s.append(cmd("rmtools_peakfitcube", pre + "FDF_clean_tot.fits", "freq.dat", pre, *po))
    return s


def run(sc, sim):
    import random

    rng = random.Random(sc["order"])
    spec = sc["spec"]
    n = spec["ny"] * spec["nx"]
    k = -(-n // sc["per"])
    if k == 1:
        sim.probe("single_chunk")
    start = data.cubes(spec, "", sc["axis"])
    if sc["I"]:      # a Stokes I model has no gaps (documented)
        clean = {k: v for k, v in spec.items() if not k.startswith("nan") and k != "faint"}
        start["I.fits"] = data.cube_bytes(data.iqu(clean)[0], spec, sc["axis"], 1)
    whole = start
    for c in stages(sc, "Q.fits", "U.fits", "w.", "I.fits"):
        r = sim.run(whole, c)
        cmpf.must_ok(r.p, "whole cube: " + c["tool"])
        whole = r.files
    what = f"{spec['nx']}x{spec['ny']} {sc['axis']} cube in chunks of {sc['per']}"
    files = start
    for x in ("Q", "U") + (("I",) if sc["I"] else ()):
        r = sim.run(files, cmd("rmtools_createchunks", x + ".fits", sc["per"], *(["-m"] if sc["m"] else [])))
        ok(r.p, what)
        files = r.files
    w = len(str(k))
    todo = [stages(sc, f"Q.C{i:0{w}d}.fits", f"U.C{i:0{w}d}.fits", f"w.C{i:0{w}d}.", f"I.C{i:0{w}d}.fits") for i in range(k)]
    if sc["concurrent"] > 1:
        # chunks of one stage side by side, preempted at storage operations
        for st in range(len(todo[0])):
            batch = [t[st] for t in todo]
            rng.shuffle(batch)
            for a in range(0, len(batch), sc["concurrent"]):
                jobs = [dict(j, name=f"c{i}") for i, j in enumerate(batch[a:a + sc["concurrent"]])]
                r = sim.run(files, jobs, switches=sorted({s: p for s, p in sc["switches"]}.items()), choices={"seed": rng.randrange(2**31)})
                for p in r.procs:
                    ok(p, what)
                files = r.files
        sim.probe("concurrent")
    else:
        pending = [list(t) for t in todo]
        while any(pending):                      # any order that respects each chunk's own order
            t = rng.choice([t for t in pending if t])
            r = sim.run(files, t.pop(0), choices={"seed": rng.randrange(2**31)},
                        faults=[{"kind": f["kind"], "k": 1 + int(f["u"] * 60), "arg": f["arg"]} for f in sc["hic"]])
            ok(r.p, what)
            files = r.files
    skip = None
    peak = catalog.PEAK[next((o for o in sc.get("peakopts", []) if o in ("-a", "-p")), "")] if sc["peak"] else []
    names = ["CLEAN_nIter"] + SYNTH + CLEAN + peak
    for x in names:
        r = sim.run(files, cmd("rmtools_assemblechunks", f"w.C{0:0{w}d}.{x}.fits", "-f", f"a.{x}.fits", *(["-m"] if sc["m"] else []),
                               shuffle_dirs=sc["dirs"]))
        ok(r.p, what)
        files = r.files
    for x in names:
        key = "differs:" + x
        a, b = cmpf.hdus(whole, f"w.{x}.fits"), cmpf.hdus(files, f"a.{x}.fits")
        d1, d2 = a[0][1], b[0][1]
        if x == "CLEAN_nIter":
            cmpf.same_array(d1.shape, d2.shape, f"{what}: {x} shape", exact=True, key=key)
            if np.any(d1 != d2):                 # rounding in the dirty spectrum may shift the last iteration
                if np.nanmax(np.abs(d1 - d2)) > 1:
                    cmpf.same_array(d1, d2, f"{what}: {x}", exact=True, key=key)
                sim.probe("iteration_count_off_by_rounding")
            same = same_dirty(spec, whole, files)
            sim.probe("pixels_with_the_same_dirty_bits", int(same.sum()))
            skip = (d1 != d2).reshape(spec["ny"], spec["nx"])
            if (skip & same).any():
                raise Violation("differs", f"{what}: iteration counts differ although the dirty spectra do not", key=key)
            continue
        angle = {"polAngle0Fit_deg": 180.0, "polAngleFit_deg": 180.0}.get(x)
        if d1.shape != d2.shape:
            raise Violation("shape", f"{what}: {x} reassembled has shape {d2.shape}, the whole cube's {d1.shape}", key="shape:" + x)
        if angle:
            d2 = d1 + (d2 - d1 + angle / 2) % angle - angle / 2
        if x in CLEAN or (sc["peak"] == "clean" and x in peak):
            if x in CLEAN:
                # where rounding in the dirty spectrum made CLEAN take another component, the result is as good within the cutoff
                with np.errstate(invalid="ignore"):
                    far = (np.abs(d1 - d2) > 1e-4 * per_pixel(d1)).reshape(-1, spec["ny"], spec["nx"]).any(0) & ~same
                    wide = np.nanmax(np.abs(d1 - d2).reshape(-1, spec["ny"], spec["nx"]), axis=0)
                if "CC" not in x and float(sc["cutoff"]) > 0 and (wide[far & ~skip] > 2 * float(sc["cutoff"])).any():
                    raise Violation("differs", f"{what}: {x}: cleaned spectra differ by {np.nanmax(wide)}, more than the cutoff", key=key)
                skip = skip | far
            m = np.broadcast_to(skip, d1.shape)
            d1, d2 = np.where(m, 0, d1), np.where(m, 0, d2)
        loose = x in peak
        scale = per_pixel(a[0][1]) if x in SYNTH + CLEAN and x != "FDF_peakRM" else None      # faint pixels count as bright ones do
        cmpf.same_array(d1, d2, f"{what}: {x}", rtol=2e-3 if loose else 1e-4, scale=scale, key=key)
        cmpf.same_header(a[0][0], b[0][0], f"{what}: {x}", ignore=("DATAMAX", "DATAMIN"), key="header:" + x)
    sim.probe("compared")
    if n % sc["per"] == 1 and k > 1 or sc["per"] == 1:
        sim.probe("chunk_of_one_pixel")


def per_pixel(a):
    """The largest value of each pixel, shaped to compare with the whole array."""
    with np.errstate(invalid="ignore"):
        m = np.nan_to_num(np.abs(a)).max(tuple(range(a.ndim - 2)), keepdims=True)
    return np.where(m > 0, m, 1.0)


def same_dirty(spec, whole, files):
    """Pixels whose dirty spectrum and RMSF are the same to the last bit in both runs."""
    out = np.ones((spec["ny"], spec["nx"]), bool)
    for x in ("FDF_real_dirty", "FDF_im_dirty", "RMSF_real", "RMSF_im", "RMSF_FWHM"):
        a, b = (cmpf.data(f, f"{n}.{x}.fits").reshape(-1, spec["ny"], spec["nx"]) for f, n in ((whole, "w"), (files, "a")))
        if a.shape == b.shape:
            out &= ((a == b) | (np.isnan(a) & np.isnan(b))).all(0)
    return out


def ok(p, what):
    if not p.ok:
        raise Violation("failed", f"{what}: {p.describe()}", key=f"failed:{p.job['tool']}:{cmpf.first_exc(p)}")


def nontrivial(sc, st):
    return st["probes"].get("compared", 0) > 0
