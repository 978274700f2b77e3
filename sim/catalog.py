"""Every console tool with its inputs: how to build a starting disk and a command line for it.

entry = gen(rng, tool, tier)      a JSON object
files, job = prepare(entry, sim)  the starting disk (prerequisite tools run without faults) and the job to study
"""
import json
import random

import numpy as np

from . import cmpf, data
from .simctx import cmd

TOOLS3 = ["rmsynth3d", "rmclean3d", "rmtools_fitIcube", "rmtools_3DIrescale", "rmtools_peakfitcube", "rmtools_createchunks",
          "rmtools_assemblechunks", "rmtools_extractregion", "rmtools_freqfile", "rmtools_testdata3D"]
TOOLS1 = ["rmsynth1d", "rmclean1d", "rmsynth1dFITS", "rmtools_calcRMSF", "rmtools_testdata1D", "rmtools_bwdepol",
          "rmtools_bwpredict", "qufit"]
ALL = TOOLS3 + TOOLS1
CAT = b"""# catalogue
1, 90.0016, +0.0023, 0.0, 0.0, 0.0, 10.0, -0.7,      0.4, 30.0, 30.0, 0.0
1, 89.9981, +0.0001, 0.0, 0.0, 0.0, 9.0, -0.1,      0.6, 80.0, -50.0, 0.0
"""
SMALL3D = {"RMtools_3D.mk_test_cube_data": {"nChans": 8, "nPixX": 14, "nPixY": 10}}


def gen(rng, tool, tier="quick", **kw):
    """A random configuration of one tool."""
    e = {"tool": tool, "d": rng.choice(["", "in/", "in/"])}
    spec = data.random_spec(rng, ny=(2, 4), nx=(2, 4), nchan=(20, 36))
    e["spec"] = spec
    e["axis"] = rng.choice(["3D", "3D", "4DFS", "4DSF"])
    o = []
    if tool == "rmsynth3d":
        o += rng.choice([[], ["-t"], ["-s", "3"], ["-s", "2", "-t"], ["-r"], ["-t", "-r"]])
        o += rng.choice([[], [], ["-f"], ["-o", "pre_"], ["-R"], ["-v"], ["-f", "-R"]])
        o += rng.choice([[], [], ["-l", "300"], ["-l", "200", "-d", "10"], ["-d", "15"]])
        o += rng.choice([[], [], ["-w", "variance", "-n", "{noise}"], ["-n", "{noise}"], ["-i", "{I}"]])
        e["out"] = ""
    elif tool == "rmclean3d":
        e["synth"] = rng.choice([[], ["-t"], ["-s", "3"], ["-r"]])
        e["pin"] = rng.choice(["", "", "p1_"])
        o += ["-c", rng.choice(["0.05", "0.15", "-3"]), "-n", rng.choice(["30", "200"])]
        o += rng.choice([[], [], ["-o", "pre_"], ["-f"], ["-v"]])
        o += rng.choice([[], [], ["-w", "40"], ["-g", "0.25"]])
        o += rng.choice([[], [], ["--ncores", "2"], ["--ncores", "3", "--chunk", "1"], ["--chunk", "2"]])
    elif tool == "rmtools_fitIcube":
        e["axis"] = rng.choice(["3D", "4DFS"])
        o += rng.choice([["-p", "2"], ["-p", "1"], ["-p", "-3"], ["-p", "0"], ["-p", "-5"]])
        o += rng.choice([[], ["-f", "linear"]])
        o += rng.choice([[], ["-n", "2"], ["-n", "3", "-c", "2"], ["-n", "2", "-v"]])
        o += rng.choice([[], ["-o", "pre_"], ["-freqFile", "{freq}"]])
        o += rng.choice([[], [], ["-m"], ["-t", "-6"], ["-m", "-t", "-2"]])
        spec.pop("nanpix", None)
    elif tool == "rmtools_3DIrescale":
        e["axis"] = "3D"
        e["fit"] = rng.choice([["-p", "2"], ["-p", "1"], ["-p", "-3"]]) + rng.choice([[], ["-f", "linear"]])
        spec.pop("nanpix", None)
        o += rng.choice([[], ["-f", "1.2e9"], ["-n", "2"], ["-w"], ["-l", "{d}FDF_real_dirty.fits"], ["-l", "{d}FDF_real_dirty.fits", "-n", "3"]])
        o += rng.choice([[], [], ["-o", "{d}at_"]])
    elif tool == "rmtools_peakfitcube":
        e["synth"] = rng.choice([[], ["-t"], ["-s", "3"]])
        e["pin"] = rng.choice(["", "", "p1_"])
        e["clean"] = not e["pin"] and rng.random() < 0.3
        o += rng.choice([[], ["-a"], ["-p"]])
        o += rng.choice([[], [], ["-n", "{noise}"], ["-n", "{noise}", "-w", "variance"], ["-v"]])
        o += rng.choice([[], [], ["-i", "{I}"]])
        e["target"] = rng.choice(["peak", "maps/peak", ""]) if e["d"] else rng.choice(["peak", "maps/peak"])
    elif tool == "rmtools_createchunks":
        e["dims"] = rng.choice([2, 3, 4])
        n = spec["ny"] * spec["nx"]
        o += rng.choice([[], ["-m"], ["-v"], ["-p", "pre"]])
        e["per"] = rng.randint(1, max(1, n - 1))
    elif tool == "rmtools_assemblechunks":
        e["dims"] = rng.choice([3, 4])
        n = spec["ny"] * spec["nx"]
        e["per"] = rng.randint(1, max(1, n - 1))
        f = rng.choice(["out.fits", "out2.fits"])
        o += rng.choice([[], ["-m"], ["-f", f], ["-o", "-f", f], ["-m", "-f", f]])
        if rng.random() < 0.25:                  # chunk numbers of two digits
            spec["ny"], spec["nx"], e["per"] = rng.randint(4, 5), rng.randint(3, 4), 1
    elif tool == "rmtools_extractregion":
        x0, y0 = rng.randint(1, spec["nx"]), rng.randint(1, spec["ny"])
        e["box"] = [x0, rng.randint(x0, spec["nx"]), y0, rng.randint(y0, spec["ny"])]
        e["outf"] = rng.choice(["cut.fits", "img.Cut.fits", "sub.fits", "Q.cut.fits"])
        z0 = rng.randint(1, spec["nchan"])
        o += rng.choice([[], [], ["-z", str(z0), str(rng.randint(z0, spec["nchan"]))], ["-o"]])
        if rng.random() < 0.2 and "-z" not in o:
            e["box"] = [rng.randint(1, spec["nx"]), 1, rng.randint(1, spec["ny"]), 1]
            o += ["-c"]
    elif tool == "rmtools_freqfile":
        e["outf"] = rng.choice(["f.out", "f.out", "f2.out"])
    elif tool == "rmtools_testdata3D":
        o += rng.choice([[], ["-f", "1.1e9,1.2e9"]])
        o += rng.choice([[], [], ["-n", "{tmpl}"]])
        e["target"] = rng.choice(["data", "a/b", ".", "data2/"])
    elif tool in ("rmsynth1d", "rmtools_bwdepol"):
        e["cols"] = rng.choice([7, 7, 5])
        e["src"] = rng.choice(SRC)
        if tool == "rmtools_bwdepol":
            e["cols"] = rng.choice([7, 7, 5, 8, 8, 6])
            spec["nchan"] = 20
        o += ["-S"] + rng.choice([[], ["-t"], ["-o", "1"], ["-w", "uniform"], ["-i"], ["-v"], ["-s", "3"], ["-l", "300"], ["-l", "200", "-d", "8"], ["-U", "mJy/beam"]])
        if tool == "rmsynth1d":
            o += rng.choice([[], [], ["-f", "linear"], ["-b"], ["-r"], ["-o", "-3"], ["-b", "-t"]])
    elif tool == "rmclean1d":
        e["cols"] = 7
        e["src"] = rng.choice(SRC)
        e["synth"] = rng.choice([[], [], ["-t"], ["-b"]])
        o += ["-S", "-c", rng.choice(["0.02", "-3"])] + rng.choice([[], ["-n", "50"], ["-v"], ["-g", "0.2"], ["-w", "40"]])
    elif tool == "qufit":
        e["cols"] = rng.choice([7, 7, 5])
        e["src"] = rng.choice(SRC)
        o += ["-m", rng.choice(["1", "2", "11"]), "--sampler", rng.choice(["dynesty", "nestle"])] + rng.choice([[], ["-i"], ["-o", "1"], ["-f", "linear"]])
        o += rng.choice([[], [], ["--ncores", "2"]]) + rng.choice([[], [], ["--nlive", "100"]])
        e["post"] = {"seed": rng.randrange(2**31), "n": rng.choice([25, 80]), "order": rng.randrange(1000), "lnZ": round(rng.uniform(-50, 200), 3),
                     "angle": rng.choice(["any", "wrap"])}
    elif tool == "rmsynth1dFITS":
        e["axis"] = "3D"
        o += ["-S"] + rng.choice([[], ["-I", "{I}"], ["-t"], ["-I", "{I}", "-o", "1"]]) + rng.choice([[], [], ["-b"], ["-l", "300"], ["-r"], ["-w", "uniform"]])
        e["pix"] = [rng.randint(1, spec["nx"]), rng.randint(1, spec["ny"])]
    elif tool == "rmtools_calcRMSF":
        e["freq"] = rng.choice(["file", "file", "two", "weights", "parms"])
        if e["freq"] == "parms":
            o += ["-f", "1.1e9", "1.3e9", rng.choice(["4e6", "1e7"])]
        o += ["-s", "{d}" + rng.choice(["rmsf.png", "rmsf.pdf", "r2.png"])] + rng.choice([[], ["-m", "500"], ["-n", "name"], ["-d", "4"], ["-r"]])
    elif tool == "rmtools_testdata1D":
        e["target"] = rng.choice(["data", "a/b", "data2/"])
        o += rng.choice([[], ["-c", "40"], ["-f", "900", "1500"], ["-f0", "1000"], ["-l", "1.1e9,1.2e9"], ["-n", "0.1"]])
        o += rng.choice([[], [], ["-t", "{tmpl}"]])
    elif tool == "rmtools_bwpredict":
        e["freq"] = rng.choice(["file", "two"])
        o += ["-f", "{d}" + rng.choice(["bw.png", "bw2.pdf"])] + rng.choice([[], [], ["-l", "400"], ["-d", "10"]])
    if tool in ONE:
        spec.pop("nanpix", None)
        spec.pop("nanchan", None)
    e["opts"] = o
    more(e, random.Random(json.dumps(e, sort_keys=True)))
    e.update(kw)
    return e


def more(e, rng):
    """Options beyond the usual ones, in a part of the configurations (drawn apart, so that the others stay as they are)."""
    t, o = e["tool"], e["opts"]
    if rng.random() > 0.35:
        return
    add = []
    if t == "rmsynth3d":
        if "{I}" in o and "{noise}" not in o:
            add = rng.choice([["-n", "{noise}"], ["-n", "{noise}", "-w", "variance"]])
        elif "{noise}" in o:
            add = ["-i", "{I}"]
        if "-v" not in o and rng.random() < 0.4:
            add += ["-v"]
    elif t == "rmtools_fitIcube":
        add = ["-odir", rng.choice(["{d}maps", "{d}maps/"])]
    elif t in ("rmsynth1d", "rmsynth1dFITS"):
        add = rng.choice([["-p"], ["-D"], ["-D", "-p"], ["-D", "-v"], ["-U", "mJy"], ["-v", "-p"]])
        if "-D" in add and "-v" in o:
            add = ["-D"]
    elif t == "rmclean1d":
        add = ["-p"]
    elif t == "qufit":
        add = rng.choice([["-p"], ["-d"], ["-v"], ["-d", "-v"]])
    elif t == "rmtools_bwpredict":
        add = ["-s", rng.choice(["3", "20"])]
    elif t == "rmtools_bwdepol":
        add = ["-p"]
    e["opts"] = o + [a for a in add if not (a in ("-v", "-p", "-D", "-d") and a in o)]


SRC = ["src.dat", "src.dat", "s2.dat", "a.b.dat", "src.txt"]
ONE = ("rmsynth1d", "rmtools_bwdepol", "rmclean1d", "qufit", "rmsynth1dFITS")


def stem(e):
    return e["d"] + e.get("src", "src.dat").rsplit(".", 1)[0]


def subst(e, args):
    d = e["d"]
    m = {"{noise}": d + "rms.dat", "{I}": d + "I.fits", "{freq}": d + "freq.dat", "{tmpl}": d + "tmpl.dat"}
    return [m.get(a, str(a).replace("{d}", d)) for a in args]


def image(e):
    """2D/3D/4D image file for the chunking tools."""
    I, Q, U, f = data.iqu(e["spec"])
    if e.get("dims", 3) == 2:
        import io

        from astropy.io import fits as pf
        import numpy as np

        h = data.header(e["spec"], "3D")
        for k in list(h):
            if k.endswith("3") and k != "":
                del h[k]
        h["NAXIS"] = 2
        b = io.BytesIO()
        pf.PrimaryHDU(np.ascontiguousarray(Q[0]), h).writeto(b, output_verify="fix")
        return b.getvalue()
    return data.cube_bytes(Q, e["spec"], "4DFS" if e.get("dims") == 4 else "3D", 2)


def inputs(e):
    """Raw input files (no tool run yet)."""
    d, s, t = e["d"], e["spec"], e["tool"]
    if t in ("rmtools_createchunks", "rmtools_assemblechunks"):
        return {d + "img.fits": image(e)}
    if t in ("rmsynth1d", "rmclean1d", "rmtools_bwdepol", "qufit"):
        return {d + e.get("src", "src.dat"): data.spectrum(s, e.get("cols", 7))}
    if t in ("rmtools_testdata1D", "rmtools_testdata3D"):
        out = {d + "cat.csv": CAT}
        if "{tmpl}" in e["opts"]:
            out[d + "tmpl.dat"] = "".join("%.6e %.6e\n" % (0.6e9 + 5e7 * k, 0.02 + 0.001 * ((k * 7 + s["seed"]) % 11)) for k in range(30)).encode()
        return out
    if t in ("rmtools_calcRMSF", "rmtools_bwpredict"):
        f = data.freqs(s)
        r = np.random.RandomState(s["seed"] % 2**31 + 11)
        k = e.get("freq", "file")
        if k == "two":
            w = np.full(len(f), s["df"]) if t == "rmtools_bwpredict" else r.uniform(0.5, 1.5, len(f))
            return {d + "freq.dat": "".join("%.6f %.6f\n" % x for x in zip(f, w)).encode()}
        out = {d + "freq.dat": data.freq_bytes(f)}
        if k == "weights":
            out[d + "w.dat"] = "".join("%.6f\n" % x for x in r.uniform(0.5, 1.5, len(f))).encode()
        return out
    out = data.cubes(s, d, e["axis"])
    if "-odir" in e["opts"]:                     # the directory has to be there
        out[d + "maps/README"] = b"maps of the fit\n"
    return out


def chain(e):
    """Prerequisite commands."""
    d, t = e["d"], e["tool"]
    out = []
    if t in ("rmclean3d", "rmtools_peakfitcube"):
        pin = e.get("pin", "")
        out = [cmd("rmsynth3d", d + "Q.fits", d + "U.fits", d + "freq.dat", *e.get("synth", []), *(["-o", pin] if pin else []))]
        if e.get("clean"):
            out += [cmd("rmclean3d", d + "FDF_real_dirty.fits", d + "RMSF_real.fits", "-c", "0.15", "-n", "30")]
    if t == "rmtools_3DIrescale":
        out = [cmd("rmtools_fitIcube", d + "I.fits", *e["fit"])]
        if "-l" in e["opts"]:
            out += [cmd("rmsynth3d", d + "Q.fits", d + "U.fits", d + "freq.dat")]
    if t == "rmtools_assemblechunks":
        out = [cmd("rmtools_createchunks", d + "img.fits", e["per"])]
    if t == "rmclean1d":
        out = [cmd("rmsynth1d", d + e.get("src", "src.dat"), "-S", *e.get("synth", []))]
    return out


def fdf(e):
    """The Faraday cube that peak fitting is given."""
    return e["d"] + ("FDF_clean_real.fits" if e.get("clean") else e.get("pin", "") + "FDF_real_dirty.fits")


def job(e, **kw):
    d, t, s = e["d"], e["tool"], e["spec"]
    o = subst(e, e["opts"])
    if t == "rmsynth3d":
        a = [d + "Q.fits", d + "U.fits", d + "freq.dat"] + o
        if "-i" in o and "-n" in o:              # it warns, and waits for Enter
            kw.setdefault("stdin", "\n")
    elif t == "rmclean3d":
        a = [d + e.get("pin", "") + "FDF_real_dirty.fits", d + e.get("pin", "") + "RMSF_real.fits"] + o
    elif t == "rmtools_fitIcube":
        a = [d + "I.fits"] + o
    elif t == "rmtools_3DIrescale":
        a = [d + "covariance.fits"] + o
    elif t == "rmtools_peakfitcube":
        a = [fdf(e), d + "freq.dat", d + e["target"]] + o
    elif t == "rmtools_createchunks":
        a = [d + "img.fits", e["per"]] + o
    elif t == "rmtools_assemblechunks":
        n = -(-s["ny"] * s["nx"] // e["per"])
        a = [f"{d}img.C{'0' * len(str(n))}.fits"] + o
        if "-f" not in o:
            a += ["-o"] if "-o" not in o else []
    elif t == "rmtools_extractregion":
        a = [d + "Q.fits", d + e.get("outf", "cut.fits")] + e["box"] + o
    elif t == "rmtools_freqfile":
        a = [d + "Q.fits", d + e.get("outf", "f.out")]
    elif t in ("rmtools_testdata3D", "rmtools_testdata1D"):
        a = [d + "cat.csv", d + e["target"]] + o
        if t == "rmtools_testdata3D":
            kw.setdefault("set", SMALL3D)
    elif t == "rmsynth1dFITS":
        a = [d + "Q.fits", d + "U.fits"] + e["pix"] + o
    elif t in ("rmtools_calcRMSF", "rmtools_bwpredict"):
        f = e.get("freq", "file")
        a = ([] if f == "parms" else [d + "freq.dat"]) + ([d + "w.dat"] if f == "weights" else []) + o
    else:
        a = [d + e.get("src", "src.dat")] + o
        if t == "qufit":
            kw.update(setup="sim.stubsampler:setup", sampler={"post": e["post"], "plots": False})
    if "pool" in e:
        kw.setdefault("pool", e["pool"])
    kw.setdefault("seed", e.get("seed", 0))
    return cmd(t, *a, **kw)


def prepare(e, sim):
    files = inputs(e)
    for c in chain(e):
        r = sim.run(files, c)
        cmpf.must_ok(r.p, "preparing stage " + c["tool"])
        files = r.files
    return files, job(e)


def named_inputs(e):
    """Files that the command must read to do its work (used to take them away)."""
    d, t, o = e["d"], e["tool"], e["opts"]
    pin, src, st = e.get("pin", ""), e.get("src", "src.dat"), stem(e)[len(d):]
    need = {"rmsynth3d": ["Q.fits", "U.fits", "freq.dat"],
            "rmclean3d": [pin + x + ".fits" for x in ("FDF_real_dirty", "FDF_im_dirty", "RMSF_real", "RMSF_im", "RMSF_FWHM")],
            "rmtools_fitIcube": ["I.fits"],
            "rmtools_3DIrescale": ["covariance.fits", "reffreq.fits", "coeff0.fits"],
            "rmtools_peakfitcube": [fdf(e)[len(d):], fdf(e)[len(d):].replace("real", "im"), pin + "RMSF_FWHM.fits", "freq.dat"],
            "rmtools_createchunks": ["img.fits"], "rmtools_extractregion": ["Q.fits"], "rmtools_freqfile": ["Q.fits"],
            "rmtools_testdata1D": ["cat.csv"], "rmtools_testdata3D": ["cat.csv"],
            "rmsynth1d": [src], "rmtools_bwdepol": [src], "qufit": [src],
            "rmclean1d": [st + x for x in ("_FDFdirty.dat", "_RMSF.dat", "_RMsynth.json", "_weight.dat")],
            "rmsynth1dFITS": ["Q.fits", "U.fits"], "rmtools_assemblechunks": [],
            "rmtools_calcRMSF": [] if e.get("freq") == "parms" else ["freq.dat"] + (["w.dat"] if e.get("freq") == "weights" else []),
            "rmtools_bwpredict": ["freq.dat"]}[t]
    out = [d + n for n in need]
    for a in o:
        out += {"{noise}": [d + "rms.dat"], "{I}": [d + "I.fits"], "{freq}": [d + "freq.dat"], "{tmpl}": [d + "tmpl.dat"]}.get(a, [])
    if t == "rmtools_3DIrescale" and "-l" in o:
        out.append(d + "FDF_real_dirty.fits")
    if t == "rmtools_assemblechunks":
        n = -(-e["spec"]["ny"] * e["spec"]["nx"] // e["per"])
        w = len(str(n))
        out = [f"{d}img.C{i:0{w}d}.fits" for i in range(n)]
    return out


def scratch(e, path):
    """Is this path working space of the command rather than a product (a sampler's directory)?"""
    return e["tool"] == "qufit" and path.startswith(f"{stem(e)}_m{e['opts'][1]}_{e['opts'][3]}/")


def overwrites(e):
    """Does this configuration replace existing products (rather than refuse)?"""
    t, o = e["tool"], e["opts"]
    if t == "rmtools_extractregion":
        return "-o" in o
    if t == "rmtools_3DIrescale":
        return "-w" in o
    if t == "rmtools_assemblechunks":
        return "-f" not in o or "-o" in o
    return True


def force(e):
    """The same configuration, told to overwrite."""
    if overwrites(e):
        return e
    return dict(e, opts=e["opts"] + (["-w"] if e["tool"] == "rmtools_3DIrescale" else ["-o"]))


def shrink(sc):
    e = sc["e"]
    for k in ("nanchan", "nanpix", "faint", "bright", "hdr"):
        if e["spec"].get(k):
            s = dict(e["spec"])
            s.pop(k)
            yield dict(sc, e=dict(e, spec=s))
    if e["axis"] != "3D":
        yield dict(sc, e=dict(e, axis="3D"))
    if e["d"]:
        yield dict(sc, e=dict(e, d=""))


PEAK = {
    "-p": ["dFDFcorMAD", "phiPeakPIfit_rm2", "dPhiPeakPIfit_rm2", "ampPeakPIfitEff", "dAmpPeakPIfit", "snrPIfit",
           "polAngle0Fit_deg", "dPolAngle0Fit_deg"],
    "": ["dFDFcorMAD", "phiPeakPIfit_rm2", "dPhiPeakPIfit_rm2", "ampPeakPIfitEff", "dAmpPeakPIfit", "snrPIfit", "peakFDFimagFit",
         "peakFDFrealFit", "Ifreq0", "lam0Sq_m2", "polAngle0Fit_deg", "dPolAngle0Fit_deg"],
    "-a": ["dFDFcorMAD", "phiPeakPIfit_rm2", "dPhiPeakPIfit_rm2", "ampPeakPIfit", "ampPeakPIfitEff", "dAmpPeakPIfit", "snrPIfit",
           "indxPeakPIfit", "peakFDFimagFit", "peakFDFrealFit", "polAngleFit_deg", "dPolAngleFit_deg", "polAngle0Fit_deg",
           "dPolAngle0Fit_deg", "Ifreq0", "dFDFth", "lam0Sq_m2", "freq0_Hz", "fwhmRMSF", "min_freq", "max_freq", "N_channels",
           "median_channel_width", "fracPol"],
}


def expected(e, files):
    """Model of the documented products: exactly the files a successful run leaves behind (paths on the disk).
    files: the disk it starts from."""
    d, t, o = e["d"], e["tool"], subst(e, e["opts"])
    opt = lambda k, default="": o[o.index(k) + 1] if k in o else default   # noqa: E731
    pre = (opt("-odir").rstrip("/") + "/" if "-odir" in o else d) + opt("-o") if t in ("rmsynth3d", "rmclean3d", "rmtools_fitIcube") else d
    if t == "rmsynth3d":
        if "-f" in o:
            n = ["FDF_dirty", "FDF_maxPI", "FDF_peakRM"] + ([] if "-R" in o else ["RMSF"])
        else:
            n = ["FDF_real_dirty", "FDF_im_dirty", "FDF_tot_dirty", "FDF_maxPI", "FDF_peakRM"]
            n += [] if "-R" in o else ["RMSF_real", "RMSF_im", "RMSF_tot", "RMSF_FWHM"]
        return sorted(pre + x + ".fits" for x in n)
    if t == "rmclean3d":
        n = ["FDF_clean", "FDF_CC"] if "-f" in o else [f"FDF_{a}_{b}" for a in ("clean", "CC") for b in ("real", "im", "tot")]
        return sorted(pre + x + ".fits" for x in n + ["CLEAN_nIter"])
    if t == "rmtools_fitIcube":
        n = [f"coeff{i}{s}" for i in range(abs(int(opt("-p", "2"))) + 1) for s in ("", "err")]
        n = [x + ".fits" for x in n + ["covariance", "mask", "model.i", "reffreq"]]
        return sorted(pre + x for x in n + ["noise.dat"])
    if t == "rmtools_3DIrescale":
        f = e["fit"]
        order = int(f[f.index("-p") + 1])
        if order < 0:                            # dynamic order: as many maps as the model of the cube has terms
            used = [i for i in range(-order + 1) if np.nan_to_num(cmpf.data(files, f"{d}coeff{i}.fits")).any()]
            order = max(used, default=0)
        return sorted(f"{opt('-o', d)}newcoeff{i}{s}.fits" for i in range(order + 1) for s in ("", "err"))
    if t == "rmtools_peakfitcube":
        n = PEAK["-a" if "-a" in o else "-p" if "-p" in o else ""]
        return sorted(d + e["target"] + x + ".fits" for x in n)
    if t == "rmtools_createchunks":
        k = -(-e["spec"]["ny"] * e["spec"]["nx"] // e["per"])
        pre = opt("-p", d + "img")
        return sorted(f"{pre}.C{i:0{len(str(k))}d}.fits" for i in range(k))
    if t == "rmtools_assemblechunks":
        return [opt("-f", d + "img.fits")]
    if t == "rmtools_extractregion":
        return [d + e.get("outf", "cut.fits")]
    if t == "rmtools_freqfile":
        return [d + e.get("outf", "f.out")]
    tgt = d + e.get("target", "").rstrip("/") + "/"
    tgt = "" if tgt in ("./", "/") else tgt.replace("/./", "/")
    if t == "rmtools_testdata3D":
        return sorted(tgt + x for x in ("StokesI.fits", "StokesQ.fits", "StokesU.fits", "freqs_Hz.dat"))
    if t == "rmtools_testdata1D":
        return sorted(tgt + x for x in ("Source1.dat", "Source2.dat"))
    synth = ["_FDFdirty.dat", "_RMSF.dat", "_weight.dat", "_RMsynth.dat", "_RMsynth.json"]
    if t == "rmsynth1d":
        return sorted(stem(e) + x for x in synth + ["_RMSF-dirtyFDF-plots.pdf", "_spectra-plots.pdf"] + ([".debug-plots.pdf"] if "-D" in o else []))
    if t == "rmsynth1dFITS":
        return sorted(d + "Q" + x for x in synth + ["_RMSF-dirtyFDF-plots.pdf", "_spectra-plots.pdf"] + ([".debug-plots.pdf"] if "-D" in o else []))
    if t == "rmtools_bwdepol":
        return sorted(stem(e) + x for x in synth)
    if t == "rmclean1d":
        return sorted(stem(e) + x for x in ("_FDFclean.dat", "_FDFmodel.dat", "_RMclean.dat", "_RMclean.json", "_cleanFDF-plots.pdf"))
    if t == "qufit":
        return sorted(stem(e) + x for x in (f"_m{o[1]}_{o[3]}.json", f"_m{o[1]}_{o[3]}.dat", f"fig_m{o[1]}_specfit.pdf", f"fig_m{o[1]}_corner.pdf"))
    if t == "rmtools_calcRMSF":
        return [opt("-s")]
    if t == "rmtools_bwpredict":
        return [opt("-f")]
    raise KeyError(t)
