"""1D synthesis and cleaning as separate commands that hand files over give what the library calls give in memory."""
import io
import json
import math

import numpy as np

from sim import cmpf, data, images
from sim.simctx import Violation, cmd, lib

TOOLS = ["rmsynth1d", "rmclean1d", "rmsynth1dFITS"]


def gen_synth(rng, src):
    o = {"t": rng.random() < 0.3, "r": rng.random() < 0.2, "i": src != "ascii5" and rng.random() < 0.2, "b": rng.random() < 0.25,
         "w": rng.choice(["variance", "variance", "uniform"]), "v": rng.random() < 0.3, "o": rng.choice([0, 1, 2, 2, 3, 5, -2, -4]),
         "f": "log" if src == "fits" else rng.choice(["log", "log", "linear"]), "U": rng.choice([None, None, "mJy/beam", "K"]),
         "grid": rng.choice([{}, {}, {"s": 4.0}, {"l": 250.0}, {"l": 120.0, "d": 7.0}, {"d": 12.0}, {"s": 20.0, "l": 90.0}])}
    return o


def gen_clean(rng):
    return {"c": rng.choice([-3, -1, -5, 0.02, 0.1, 0.5]), "w": rng.choice([None, None, 0.05, -2.0]), "n": rng.choice([1000, 1000, 7, 60]),
            "g": rng.choice([0.1, 0.1, 0.3, 0.05]), "v": rng.random() < 0.3}


def gen(rng, i, tier):
    src = rng.choice(["ascii7", "ascii7", "ascii5", "fits", "fits"])
    spec = data.random_spec(rng, ny=(1, 3), nx=(1, 3), nchan=(12, 48))
    spec.pop("faint", None)
    spec.pop("nanpix", None)
    if rng.random() < 0.3:
        spec["irregular"] = src != "fits"
    n = rng.randint(1, 3 if tier == "quick" else 5)
    steps = []
    for k in range(n):
        steps.append({"do": "synth", "o": gen_synth(rng, src)})
        for _ in range(rng.choice([1, 1, 1, 2])):
            steps.append({"do": "clean", "o": gen_clean(rng)})
    if src != "fits" and rng.random() < 0.06:     # many channels
        spec.update(nchan=rng.choice([2100, 4200]), df=2.5e5, nanchan=[])
        for s in steps:
            if s["do"] == "synth":
                s["o"].update(grid={"l": 120.0, "d": 7.0})
    for s in steps:
        s["hic"] = images.hiccups(rng)
        s["path"] = rng.choice(["rel", "rel", "abs", "cwd"])
        s["save"] = s["do"] == "synth" or rng.random() < 0.93
    if src == "fits":
        if rng.random() < 0.45:                   # a square image, off its diagonal
            spec["ny"] = spec["nx"] = rng.choice([2, 3])
        if rng.random() < 0.2:                    # sources whose Stokes I is below zero in some channels
            spec["faint"] = [[y, x] for y in range(spec["ny"]) for x in range(spec["nx"])]
    sc = {"src": src, "spec": spec, "d": rng.choice(["", "in/", "x.y/", "set_RMSF/"]), "steps": steps, "seed": rng.randrange(2**31),
            "name": rng.choice(["src.dat", "src.dat", "a.b.dat", "spec", "s_weight.txt", "RMsynth.dat"]) if src != "fits" else "Q.fits",
            "text": rng.choice(["plain", "plain", "comments", "tabs"]), "nanrow": src != "fits" and rng.random() < 0.2, "desc": src != "fits" and rng.random() < 0.2,
            "pix": [rng.randrange(spec["nx"]), rng.randrange(spec["ny"])], "I": rng.random() < 0.5, "sky": rng.random() < 0.3}
    if src == "fits" and spec["ny"] == spec["nx"] > 1 and rng.random() < 0.7:
        sc["pix"] = rng.sample(range(spec["nx"]), 2)
    return sc


def shrink(sc):
    st = sc["steps"]
    for k in range(len(st)):
        c = st[:k] + st[k + 1:]
        if c and c[0]["do"] == "synth":
            yield dict(sc, steps=c)
    for k, v in (("d", ""), ("text", "plain"), ("nanrow", False), ("desc", False), ("I", False), ("sky", False)):
        if sc[k] != v:
            yield dict(sc, **{k: v})
    for k, s in enumerate(st):
        for a, v in (("hic", []), ("path", "rel"), ("save", True)):
            if s[a] != v:
                yield dict(sc, steps=st[:k] + [dict(s, **{a: v})] + st[k + 1:])
        d = {"t": False, "r": False, "i": False, "b": False, "w": "variance", "v": False, "o": 2, "f": "log", "U": None, "grid": {}} if s["do"] == "synth" else \
            {"c": -3, "w": None, "n": 1000, "g": 0.1, "v": False}
        for a, v in d.items():
            if s["o"][a] != v:
                yield dict(sc, steps=st[:k] + [dict(s, o=dict(s["o"], **{a: v}))] + st[k + 1:])
    for a in ("nanchan", "irregular"):
        if sc["spec"].get(a):
            s = dict(sc["spec"])
            s.pop(a)
            yield dict(sc, spec=s)


def text(sc):
    """The spectrum as a user's text file: comments, blank lines and several separators are allowed by the format."""
    blob = data.spectrum(dict(sc["spec"], nanchan=[]), 5 if sc["src"] == "ascii5" else 7).decode()
    rows = blob.splitlines()
    if sc["desc"]:
        rows = rows[::-1]
    if sc["nanrow"]:
        k = sc["seed"] % len(rows)
        c = rows[k].split()
        rows[k] = " ".join([c[0]] + ["nan"] * (len(c) - 1))
    if sc["text"] == "comments":
        rows = ["# freq I Q U", ""] + rows[:3] + ["  # half way"] + [r + "   # x" for r in rows[3:5]] + rows[5:] + [""]
    if sc["text"] == "tabs":
        rows = ["  " + r.replace(" ", "\t ") for r in rows]
    return ("\n".join(rows) + "\n").encode()


def plain(v):
    """A value as JSON says it."""
    if isinstance(v, np.ndarray):
        return v.tolist()
    return v.item() if isinstance(v, np.generic) else v


def synth_kw(o):
    return dict(polyOrd=o["o"], phiMax_radm2=o["grid"].get("l"), dPhi_radm2=o["grid"].get("d"), nSamples=o["grid"].get("s", 10.0), weightType=o["w"],
                fitRMSF=o["t"], noStokesI=o["i"], nBits=64 if o["b"] else 32, units=o["U"] or "Jy/beam", fit_function=o["f"], super_resolution=o["r"])


def memory(sc, path, out):
    """In a simulated process: the library functions called one after the other, nothing stored in between."""
    from RMtools_1D.do_RMclean_1D import run_rmclean
    from RMtools_1D.do_RMsynth_1D import run_rmsynth

    rep, arrs, m = [], {}, None
    for k, s in enumerate(sc["steps"]):
        o = s["o"]
        if s["do"] == "synth":
            if sc["src"] == "fits":
                from astropy.io import fits as pf

                d, (x, y) = sc["d"], sc["pix"]
                col = {}
                for n in "IQU":
                    with pf.open(f"{d}{n}.fits", memmap=False) as h:
                        col[n] = h[0].data[:, y, x]
                        hd = h[0].header
                f = hd["CRVAL3"] + (np.arange(1, hd["NAXIS3"] + 1) - hd["CRPIX3"]) * hd["CDELT3"]
                e = [np.full(f.shape, 1e-3) for _ in range(3)]
                data_ = [f, col["I"], col["Q"], col["U"]] + e if sc["I"] else [f, col["Q"], col["U"]] + e[:2]
            else:
                data_ = list(np.loadtxt(path, unpack=True, dtype="float64" if o["b"] else "float32"))
            arrs[f"{k}:ok"] = np.all([np.isfinite(c) for c in data_[1:]], axis=0)
            m, a = run_rmsynth(data_, **synth_kw(o))
            # the hand-over between the commands is documented as text, read back in single precision
            a = {q: v.astype("c8" if v.dtype.kind == "c" else "f4") for q, v in a.items()} if o["b"] else a
            rep.append({q: plain(v) for q, v in m.items()})
            for q in ("phiArr_radm2", "phi2Arr_radm2", "RMSFArr", "freqArr_Hz", "weightArr", "dirtyFDF"):
                arrs[f"{k}:{q}"] = np.array(a[q])
        else:
            mc, ac = run_rmclean(m, a, cutoff=o["c"], maxIter=o["n"], gain=o["g"], window=o["w"])
            rep.append({q: plain(v) for q, v in mc.items()})
            for q in ("phiArr_radm2", "cleanFDF", "ccArr"):
                arrs[f"{k}:{q}"] = np.array(ac[q])
    with open(out + ".json", "w") as f:
        json.dump(rep, f)
    np.savez(out + ".npz", **arrs)


def columns(files, path, n, cls):
    if path not in files:
        raise Violation("missing", f"product {path} is missing")
    try:
        a = np.loadtxt(io.BytesIO(files[path]), ndmin=2)
    except ValueError as e:
        raise Violation(cls, f"{path} is not a table of numbers: {e}")
    if a.ndim != 2 or a.shape[1] != n:
        raise Violation(cls, f"{path} has {a.shape} values, not {n} columns")
    return a.T


def same(a, b, what, cls, rtol=0.0):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Violation(cls, f"{what}: {a.shape[0]} rows instead of {b.shape[0]}")
    bad = ~(np.isclose(a, b, rtol=rtol, atol=0, equal_nan=True))
    if bad.any():
        j = int(np.flatnonzero(bad)[0])
        raise Violation(cls, f"{what}: {a[j]!r} instead of {b[j]!r} in row {j + 1} ({int(bad.sum())} rows)")


def value(v):
    if isinstance(v, str):
        try:
            return float(v)
        except ValueError:
            return v
    return float(v) if isinstance(v, (int, float)) else v


def differ(a, b, rtol=0.0):
    a, b = value(a), value(b)
    if isinstance(a, float) and isinstance(b, float):
        return not (a == b or (math.isnan(a) and math.isnan(b)) or abs(a - b) <= rtol * max(abs(a), abs(b)))
    return a != b


def dicts(files, root, ref, what, cls):
    """The JSON and the text dictionary against the in-memory one."""
    for p in (root + ".json", root + ".dat"):
        if p not in files:
            raise Violation("missing", f"product {p} is missing")
    try:
        js = json.loads(files[root + ".json"])
    except ValueError as e:
        raise Violation(cls, f"{root}.json is not JSON: {e}")
    tx = dict(line.split("=", 1) for line in files[root + ".dat"].decode().splitlines())
    for got, name, rtol in ((js, root + ".json", 0.0), (tx, root + ".dat", 1e-6)):
        if set(got) != set(ref):
            raise Violation(cls, f"{what}{name} has the entries {sorted(set(got) ^ set(ref))} more or less than the library's dictionary")
        for k, v in ref.items():
            if name.endswith(".dat"):
                v = "None" if v is None else str(v) if isinstance(v, (str, bool)) else v
            if differ(got[k], v, rtol):
                raise Violation(cls, f"{what}{name} says {k} is {got[k]!r}, the library calls in memory give {v!r}")
    return js


def summary(j, first, tab, what, amp):
    """The numbers of a summary against each other and against the spectrum beside it (first: the summary of the synthesis)."""
    def near(k, got, want, rel=2e-4, ab=0.0, turn=None):
        d = got - want
        if turn:
            d = (d + turn / 2) % turn - turn / 2
        if not abs(d) <= ab + rel * max(abs(got), abs(want)):
            raise Violation("summary", f"{what}{k} is {got}, from the other results it should be {want}", key="summary:" + k)

    phi, F = tab[0], tab[1] + 1j * tab[2]
    a = np.abs(F)
    v, A = j["phiPeakPIfit_rm2"], j["ampPeakPIfit"]
    if v is None or A is None or not (math.isfinite(v) and math.isfinite(A)) or not A > 0 or not np.isfinite(a).all():
        return False
    step = np.diff(phi).mean()
    top = a[1:-1].max()
    at = np.flatnonzero(a[1:-1] >= top * (1 - 1e-5)) + 1
    k = int(at[np.argmin(np.abs(phi[at] - v))])
    if not 1e-3 < top / a.max():
        return False
    l, c, r = a[k - 1:k + 2]
    if l <= c >= r and l + r - 2 * c < -1e-4 * c:      # an inner peak that is no plateau
        x = phi[k] + 0.5 * step * (l - r) / (l - 2 * c + r)
        near("phiPeakPIfit_rm2", v, x, 0, 0.05 * step + 2e-6 * abs(phi).max())
        near("ampPeakPIfit", A, c - (l - r) ** 2 / (l - 2 * c + r) / 8, 5e-3)
    d = j["dAmpPeakPIfit"]
    near("dAmpPeakPIfit", d, first["dFDFth"])
    near("snrPIfit", j["snrPIfit"], A / d)
    near("dPhiPeakPIfit_rm2", j["dPhiPeakPIfit_rm2"], first["fwhmRMSF"] * d / (2 * A))
    near("ampPeakPIfitEff", j["ampPeakPIfitEff"], math.sqrt(A * A - 2.3 * d * d) if A / d >= 5 else A, 2e-3)
    if abs(A / d - 5) < 1e-3:
        return False
    z = complex(np.interp(v, phi, F.real), np.interp(v, phi, F.imag))
    if abs(z) > 1e-3 * top:
        near("peakFDFrealFit", j["peakFDFrealFit"], z.real, 1e-3, 1e-3 * top)
        near("peakFDFimagFit", j["peakFDFimagFit"], z.imag, 1e-3, 1e-3 * top)
        near("polAngleFit_deg", j["polAngleFit_deg"], math.degrees(np.angle(z)) / 2, 0, 0.1 * top / abs(z), 180)
    near("polAngle0Fit_deg", j["polAngle0Fit_deg"], j["polAngleFit_deg"] - math.degrees(v * first["lam0Sq_m2"]), 0, 0.02 + 1e-6 * abs(v), 180)
    near("dPolAngleFit_deg", j["dPolAngleFit_deg"], math.degrees(d / (2 * A)))
    n, l2 = amp
    near("dPolAngle0Fit_deg", j["dPolAngle0Fit_deg"],
         math.degrees(math.sqrt(d ** 2 * n / (4 * (n - 2) * A ** 2) * ((n - 1) / n + first["lam0Sq_m2"] ** 2 / np.var(l2, ddof=1)))), 1e-2)
    if "fracPol" in j:
        near("fracPol", j["fracPol"], j["ampPeakPIfitEff"] / j["Ifreq0"])
    for k, b in (("dPhiObserved_rm2", "dPhiPeakPIfit_rm2"), ("dPolAngleFitObserved_deg", "dPolAngleFit_deg"), ("dPolAngleFit0Observed_deg", "dPolAngle0Fit_deg")):
        if k in j:
            near(k, j[k], j[b] * j["dFDFcorMAD"] / first["dFDFth"])
    if "dAmpObserved" in j:
        near("dAmpObserved", j["dAmpObserved"], j["dFDFcorMAD"])
    return True


def argv(sc, s, path):
    o = s["o"]
    if s["do"] == "clean":
        a = [path, "-c", o["c"], "-n", o["n"], "-g", o["g"]] + (["-w", o["w"]] if o["w"] is not None else [])
    else:
        a = []
        if sc["src"] == "fits":
            x, y = sc["pix"]
            base = path[: -len("Q.fits")]
            pos = [x + 1, y + 1]
            if sc["sky"]:
                from astropy.wcs import WCS

                w = WCS(data.header(sc["spec"]), naxis=(1, 2))
                pos = ["%.9f" % v for v in w.all_pix2world(x, y, 0)] + ["-c"]
            a = [path, base + "U.fits"] + pos + (["-I", base + "I.fits"] if sc["I"] else [])
        else:
            a = [path, "-f", o["f"]]
        a += ["-w", o["w"], "-o", o["o"]] + [x for k in ("t", "r", "i", "b") if o[k] for x in ["-" + k]]
        a += [x for k, v in o["grid"].items() for x in ("-" + k, v)]
        a += ["-U", o["U"]] if o["U"] else (["-U", "Jy/beam"] if sc["src"] == "fits" and sc["seed"] % 2 else [])
    return a + (["-S"] if s["save"] else []) + (["-v"] if o["v"] else [])


def run(sc, sim):
    d, name = sc["d"], sc["name"]
    if sc["src"] == "fits":
        I, Q, U, f = data.iqu(sc["spec"])
        files = {k: v for k, v in data.cubes(sc["spec"], d).items() if k.endswith(".fits")}
        base = {k: v for k, v in sc["spec"].items() if not k.startswith("nan")}
        files[d + "I.fits"] = data.cube_bytes(data.iqu(base)[0], sc["spec"], "3D", 1)
    else:
        files = {d + name: text(sc)}
    inputs = dict(files)
    root = d + name.rsplit(".", 1)[0] if "." in name else d + name
    r = sim.run(files, lib("sim.props.c13:memory", sc, d + name, "mem"))
    if "mem.npz" not in r.files:
        # the library refuses this spectrum with these settings: so must the command, at the same step
        ref, arr = None, None
        sim.probe("library_refused")
    else:
        ref, arr = json.loads(r.files["mem.json"]), dict(np.load(io.BytesIO(r.files["mem.npz"])))
    for k, s in enumerate(sc["steps"]):
        cwd, p = "", d + name
        if s["path"] == "abs":
            p = "{root}/" + p
        elif s["path"] == "cwd" and d:
            cwd, p = d.rstrip("/"), name
        x = sim.run(files, cmd({"synth": "rmsynth1dFITS" if sc["src"] == "fits" else "rmsynth1d", "clean": "rmclean1d"}[s["do"]], *argv(sc, s, p), cwd=cwd),
                    faults=[{"kind": h["kind"], "k": 1 + int(h["u"] * 60), "arg": h["arg"]} for h in s["hic"]])
        what = f"step {k + 1} (`{x.p.job['tool']} {' '.join(map(str, x.p.job['argv']))}`): "
        if ref is None:
            if not x.p.ok:
                return
            files = x.files
            continue
        if not x.p.ok:
            raise Violation("failed", f"the library calls succeed, but {x.p.describe()}", key=f"failed:{x.p.job['tool']}:{cmpf.first_exc(x.p)}")
        for q, v in inputs.items():
            if x.files.get(q) != v:
                raise Violation("input", f"{what}changed its input {q}")
        before, files = files, x.files
        new = {q for q in set(files) | set(before) if files.get(q) != before.get(q)}
        mine = {"synth": ("_FDFdirty.dat", "_RMSF.dat", "_weight.dat", "_RMsynth.dat", "_RMsynth.json", "_spectra-plots.pdf", "_RMSF-dirtyFDF-plots.pdf"),
                "clean": ("_FDFclean.dat", "_FDFmodel.dat", "_RMclean.dat", "_RMclean.json", "_cleanFDF-plots.pdf")}[s["do"]]
        odd = [q for q in new if q not in [root + e for e in mine]]
        if odd or (new and not s["save"]):
            raise Violation("files", f"{what}changed {sorted(odd or new)}, which is not its product")
        if not s["save"]:
            continue
        j = dicts(files, root + {"synth": "_RMsynth", "clean": "_RMclean"}[s["do"]], ref[k], what, "dict")
        exact = 0.0 if s["do"] == "clean" or not s["o"]["b"] else 1.3e-7
        pairs = [("_FDFdirty.dat", "phiArr_radm2", "dirtyFDF"), ("_RMSF.dat", "phi2Arr_radm2", "RMSFArr")] if s["do"] == "synth" else \
            [("_FDFclean.dat", "phiArr_radm2", "cleanFDF"), ("_FDFmodel.dat", "phiArr_radm2", "ccArr")]
        tab = {}
        for e, ax, z in pairs:
            c = tab[e] = columns(files, root + e, 3, "array")
            for got, want, n in ((c[0], arr[f"{k}:{ax}"], "depth"), (c[1], arr[f"{k}:{z}"].real, "Q"), (c[2], arr[f"{k}:{z}"].imag, "U")):
                same(got, want, f"{what}{root}{e}, column {n}, against the library's array", "array", exact)
        # --- what the files say about each other
        if s["do"] == "synth":
            w = columns(files, root + "_weight.dat", 2, "array")
            same(w[0], arr[f"{k}:freqArr_Hz"], f"{what}frequencies in {root}_weight.dat", "array", exact)
            same(w[1], arr[f"{k}:weightArr"], f"{what}weights in {root}_weight.dat", "array", exact)
            u = np.where(arr[f"{k}:ok"], w[1], 0)                 # with uniform weights the file gives flagged channels weight as well
            l2 = (299792458.0 / w[0]) ** 2
            l0 = 0.0 if s["o"]["r"] else (u * l2).sum() / u.sum()
            if abs(j["lam0Sq_m2"] - l0) > 1e-4 * l0 + 1e-12:
                raise Violation("files-agree", f"{what}lam0Sq_m2 is {j['lam0Sq_m2']}, the weights give {l0}")
            good = w[1] != 0
            if j["N_channels"] > good.sum() or j["min_freq"] < w[0].min() * (1 - 1e-6) or j["max_freq"] > w[0].max() * (1 + 1e-6):
                raise Violation("files-agree", f"{what}the summary counts {j['N_channels']} channels from {j['min_freq']} to {j['max_freq']}, the weights {good.sum()}")
            a, b = np.diff(tab["_FDFdirty.dat"][0]).mean(), np.diff(tab["_RMSF.dat"][0]).mean()
            if abs(a - b) > 1e-4 * a or tab["_RMSF.dat"].shape[1] < 2 * tab["_FDFdirty.dat"].shape[1] - 1:
                raise Violation("files-agree", f"{what}the RMSF's depths do not fit the spectrum's")
            dirty = tab["_FDFdirty.dat"]
            if s["o"]["w"] == "variance":
                t = abs(j["Ifreq0"]) / math.sqrt(w[1][good].sum())
                if abs(j["dFDFth"] - t) > 1e-3 * t:
                    raise Violation("summary", f"{what}dFDFth is {j['dFDFth']}, the weights give {t}", key="summary:dFDFth")
            f0 = 299792458.0 / math.sqrt(j["lam0Sq_m2"]) if j["lam0Sq_m2"] else j["freq0_Hz"]
            if abs(j["freq0_Hz"] - f0) > 1e-5 * f0:
                raise Violation("summary", f"{what}freq0_Hz is {j['freq0_Hz']}, lam0Sq_m2 {j['lam0Sq_m2']} is {f0}", key="summary:freq0_Hz")
            lam = (len(l2), l2)
            sim.probe("summaries", int(summary(j, j, dirty, what, lam)))
        else:
            cut = s["o"]["c"] if s["o"]["c"] >= 0 else -s["o"]["c"] * last["dFDFth"]
            if abs(j["cleanCutoff"] - cut) > 1e-6 * cut or j["nIter"] > s["o"]["n"]:
                raise Violation("files-agree", f"{what}cleanCutoff {j['cleanCutoff']} (asked for {cut}), nIter {j['nIter']} of at most {s['o']['n']}")
            nz = int(np.count_nonzero(np.hypot(tab["_FDFmodel.dat"][1], tab["_FDFmodel.dat"][2])))
            if nz > max(j["nIter"], 0):
                raise Violation("files-agree", f"{what}{nz} clean components after {j['nIter']} iterations")
            if (dirty[0] != tab["_FDFclean.dat"][0]).any():
                if not last["b"] or np.abs(dirty[0] - tab["_FDFclean.dat"][0]).max() > 1e-6 * np.abs(dirty[0]).max():
                    raise Violation("files-agree", f"{what}the cleaned spectrum has other depths than the dirty one")
            sim.probe("summaries", int(summary(j, last, tab["_FDFclean.dat"], what, lam)))
            sim.probe("cleaned", int(j["nIter"] > 0))
        if s["do"] == "synth":
            last = dict(j, b=s["o"]["b"])
        sim.probe("compared")
    if ref is None:
        raise Violation("failed", f"the library calls fail on what the commands accept: {r.p.describe()}")


def nontrivial(sc, st):
    return st["probes"].get("compared", 0) > 0
