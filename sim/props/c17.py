"""QU-fitting reports what the sampler returned, for whatever posterior, order, number of processes and history."""
import json
import math
import pickle

import numpy as np

from sim import cmpf, data, stubsampler
from sim.simctx import Violation, cmd, lib

TOOLS = ["qufit", "sim.stubsampler"]
C = 299792458.0
ANG = (0.0, 180.0)


def U(*names, lo=0.0, hi=1.0):
    return [(n, lo, hi, "u") for n in names]


def A(*names):
    return [(n, 0.0, 180.0, "angle") for n in names]


TWO = U("fracPol1", "fracPol2") + A("psi01_deg", "psi02_deg") + U("RM1_radm2", "RM2_radm2", lo=-1100.0, hi=1100.0)
ONE = U("fracPol") + A("psi0_deg") + U("RM_radm2", lo=-1100.0, hi=1100.0)
MODELS = {   # parameters in the order of the model file: (name, lower, upper, kind)
    1: ONE,
    2: ONE + U("sigmaRM_radm2", hi=100.0),
    3: TWO + U("sigmaRM_radm2", hi=100.0),
    4: TWO + U("sigmaRM1_radm2", "sigmaRM2_radm2", hi=100.0),
    5: ONE + U("deltaRM_radm2", hi=100.0),
    6: TWO + U("deltaRM1_radm2", "deltaRM2_radm2", hi=100.0),
    7: ONE + U("deltaRM_radm2", "sigmaRM_radm2", hi=100.0),
    11: TWO,
    12: U("fracPol", hi=0.6) + A("psi0_deg") + U("deltaRM_radm2", hi=60.0) + U("sigmaRM_radm2", "sigmaRM_radm2_FG", hi=50.0) + U("RM_screen", lo=-1100.0, hi=1100.0),
    111: U("fracPol1", "fracPol2", "fracPol3") + A("psi01_deg", "psi02_deg", "psi03_deg") + U("RM1_radm2", "RM2_radm2", "RM3_radm2", lo=-1100.0, hi=1100.0),
}


def evaluate(n, p, l2):
    """The models as their descriptions define them, written out independently."""
    def thin(i=""):
        return p["fracPol" + i] * np.exp(2j * (np.deg2rad(p[f"psi0{i}_deg"]) + p.get(f"RM{i}_radm2", p.get("RM_screen")) * l2))

    def ext(s):
        return np.exp(-2 * p[s] ** 2 * l2 ** 2)

    def slab(i=""):
        x = p[f"deltaRM{i}_radm2"] * l2
        return thin(i) * np.exp(1j * x) * np.sin(x) / x

    def burn():
        S = 2 * l2 ** 2 * p["sigmaRM_radm2"] ** 2 - 2j * l2 * p["deltaRM_radm2"]
        return thin() * (1 - np.exp(-S)) / S

    if n == 1:
        return thin()
    if n == 2:
        return thin() * ext("sigmaRM_radm2")
    if n == 3:
        return (thin("1") + thin("2")) * ext("sigmaRM_radm2")
    if n == 4:
        return thin("1") * ext("sigmaRM1_radm2") + thin("2") * ext("sigmaRM2_radm2")
    if n == 5:
        return slab()
    if n == 6:
        return slab("1") + slab("2")
    if n == 7:
        return burn()
    if n == 11:
        return thin("1") + thin("2")
    if n == 12:
        return burn() * ext("sigmaRM_radm2_FG")
    if n == 111:
        return thin("1") + thin("2") + thin("3")
    raise KeyError(n)


# -------------------------------------------------------------- a user's own model
def own_pars(o):
    """The user's model: components in the file's order; 'fixed' parameters are DeltaFunction priors."""
    return [tuple(x) for x in o["pars"]]


def own_text(o):
    out = ["import bilby", "import numpy as np", "def model(pDict, lamSqArr_m2):",
           f"    a = pDict['amp'] * {o['scale']!r} * np.exp(2j * (np.radians(pDict['pa_deg']) + pDict['rm'] * lamSqArr_m2))",
           "    b = pDict['amp2'] * np.exp(2j * np.radians(pDict['pa2_deg'])) * np.ones_like(lamSqArr_m2)",
           "    return a + b", "priors = {"]
    for n, lo, hi, k in own_pars(o):
        if k == "fixed":
            out.append(f"    {n!r}: bilby.prior.DeltaFunction({lo!r}, name={n!r}, latex_label={n!r}),")
        elif k == "gauss":
            out.append(f"    {n!r}: bilby.prior.Gaussian({lo!r}, {hi!r}, name={n!r}, latex_label={n!r}),")
        else:
            b = ", boundary='periodic'" if k == "angle" else ""
            out.append(f"    {n!r}: bilby.prior.Uniform({lo!r}, {hi!r}, name={n!r}, latex_label={n!r}{b}),")
    return ("\n".join(out + ["}"]) + "\n").encode()


def own_eval(o, p, l2):
    return p["amp"] * o["scale"] * np.exp(2j * (np.deg2rad(p["pa_deg"]) + p["rm"] * l2)) + p["amp2"] * np.exp(2j * np.deg2rad(p["pa2_deg"])) * np.ones_like(l2)


def gen_own(rng):
    ps = []
    for n, lo, hi in (("amp", 0.0, 1.0), ("rm", -50.0, 50.0), ("amp2", 0.0, 0.5)):
        ps.append([n, round(rng.uniform(lo, hi), 3), 0.0, "fixed"] if rng.random() < 0.35 else [n, lo, hi, "u"])
    for n in ("pa_deg", "pa2_deg"):
        r = rng.random()
        ps.append([n, round(rng.uniform(0, 179), 2), 0.0, "fixed"] if r < 0.2 else [n, 0.0, 180.0, "u"] if r < 0.3 else [n, 0.0, 180.0, "angle"])
    rng.shuffle(ps)
    if all(p[3] == "fixed" for p in ps):
        ps[0] = [ps[0][0], 0.0, 0.5, "u"]
    return {"pars": ps, "scale": rng.choice([1.0, 0.5])}


# -------------------------------------------------------------- scenarios
def gen_fit(rng):
    return {"o": rng.choice([2, 2, 0, 1, 3, -3]), "f": rng.choice(["log", "log", "linear"]), "i": rng.random() < 0.2, "cols": rng.choice([7, 7, 5]),
            "m": rng.choice([1, 1, 2, 3, 4, 5, 6, 7, 11, 12, 111]), "own": gen_own(rng) if rng.random() < 0.4 else None,
            "sampler": rng.choice(["dynesty", "dynesty", "nestle", "ultranest"]), "ncores": rng.choice([1, 1, 1, 2, 4]), "nlive": rng.choice([300, 50, 1000]),
            "spec": data.random_spec(rng, ny=(1, 1), nx=(1, 1), nchan=(14, 40), nanpix=[], faint=[]),
            "post": {"seed": rng.randrange(2**31), "n": rng.choice([6, 25, 80, 80, 201, 300]), "order": rng.randrange(1000), "lnZ": round(rng.uniform(-50, 200), 3),
                     "angle": rng.choice(["any", "any", "wrap", "wrap", "quarter", "half"])}}


def change(rng, a, k=None):
    """The next run of a user in the same directory."""
    b = json.loads(json.dumps(a))
    k = k or rng.choice(["same", "data", "data", "data", "fit", "own", "nlive", "post", "model", "all", "errors"])
    b["post"]["seed"] = rng.randrange(2**31)
    if k == "data":
        b["spec"]["seed"] = rng.randrange(2**31)
    elif k == "fit":
        b["o"], b["i"] = rng.choice([0, 1, 3]), not b["i"]
    elif k == "own":
        o = b["own"] or gen_own(rng)
        o["scale"] = 1.0 if b["own"] and o["scale"] == 0.5 else 0.5
        b["own"] = o
    elif k == "errors":                        # the same spectrum with other uncertainties
        b["escale"] = 1.7 if a.get("escale", 1.0) == 1.0 else 1.0
    elif k == "nlive":
        b["nlive"] = a["nlive"] + 50
    elif k == "model":
        b["m"] = rng.choice(sorted(MODELS))
    elif k == "all":
        b = gen_fit(rng)
    elif k == "same":
        b["post"]["seed"] = a["post"]["seed"]
    b["change"] = k
    return b


def gen(rng, i, tier):
    runs = [gen_fit(rng)]
    for _ in range(rng.choice([0, 1, 1, 2] if tier == "quick" else [0, 1, 2, 3, 4])):
        kill = None
        if rng.random() < 0.5:
            kill = {"u": rng.random(), "kind": rng.choice(["crash", "crash_mut", "crash_w", "torn_w", "enospc_once_w", "eio"]), "in": rng.choice(["any", "sampler", "sampler", "file", "file"])}
        runs.append(change(rng, runs[-1], "same" if kill and rng.random() < (0.6 if kill["in"] == "file" else 0.3) else None))
        if kill:
            runs[-2]["kill"] = kill
    script = rng.random() < 0.15
    if i % 5 == 3:                            # one program that fits again and again
        script, runs = True, runs[:1]
        for k in ("own", rng.choice(["own", "data", "fit", "errors", "model", "all"]))[rng.choice([0, 0, 1]):]:
            runs.append(change(rng, runs[-1], k))
    plots = rng.random() < 0.15
    for r in runs:                            # (the corner plot wants more samples than parameters)
        r["post"]["n"] = max(25, r["post"]["n"]) if plots else r["post"]["n"]
    return {"runs": runs, "d": rng.choice(["", "src/", "a.b/"]), "name": rng.choice(["s.dat", "s.dat", "obj.1.txt", "spec"]), "pool": {"seed": rng.randrange(2**31)},
            "order2": rng.randrange(1000), "again": rng.random() < 0.4, "script": script, "plots": plots}


def shrink(sc):
    rs = sc["runs"]
    for k in range(len(rs)):
        if len(rs) > 1:
            yield dict(sc, runs=rs[:k] + rs[k + 1:])
    for k, v in (("again", False), ("script", False), ("plots", False), ("d", ""), ("name", "s.dat")):
        if sc[k] != v:
            yield dict(sc, **{k: v})
    for k, r in enumerate(rs):
        for a, v in (("kill", None), ("ncores", 1), ("o", 2), ("f", "log"), ("i", False), ("own", None), ("m", 1), ("nlive", 300), ("sampler", "dynesty")):
            if r.get(a) and r[a] != v:
                yield dict(sc, runs=rs[:k] + [dict(r, **{a: v})] + rs[k + 1:])


def files_of(sc, r):
    b = data.spectrum(r["spec"], r["cols"])
    if r.get("escale", 1.0) != 1.0:
        n = 3 if r["cols"] == 7 else 2
        b = "".join(" ".join(c[:-n] + ["%.9e" % (float(v) * r["escale"]) for v in c[-n:]]) + "\n" for c in (x.split() for x in b.decode().splitlines())).encode()
    out = {sc["d"] + sc["name"]: b}
    out[f"models_ns/m{r['m']}.py"] = own_text(r["own"]) if r["own"] else b""
    if not r["own"]:
        del out[f"models_ns/m{r['m']}.py"]
    return out


def job(sc, r, post=None, **kw):
    a = [sc["d"] + sc["name"], "-m", r["m"], "-f", r["f"], f"-o{r['o']}", "--sampler", r["sampler"], "--ncores", r["ncores"], "--nlive", r["nlive"]]
    return cmd("qufit", *(a + (["-i"] if r["i"] else [])), setup="sim.stubsampler:setup", sampler={"post": post or r["post"], "plots": sc["plots"]}, **kw)


def outputs(sc, r):
    p = sc["d"] + sc["name"].rsplit(".", 1)[0] if "." in sc["name"] else sc["d"] + sc["name"]
    return f"{p}_m{r['m']}_{r['sampler']}"


def fractional(path, o, f, i, out):
    """In a simulated process: the fractional spectra the fit is made to."""
    from RMtools_1D.do_RMsynth_1D import readFile
    from RMutils.util_misc import create_frac_spectra

    d = readFile(path, 32, verbose=False)
    if len(d) == 5:
        d = [d[0], None, d[1], d[2], None, d[3], d[4]]
        i = True
    if i:
        d = [d[0], np.ones_like(d[2]), d[2], d[3], np.zeros_like(d[2]), d[5], d[6]]
    fr, I, Q, V, dI, dQ, dV = d
    _, q, u, dq, du, fit = create_frac_spectra(freqArr=fr, IArr=I, QArr=Q, UArr=V, dIArr=dI, dQArr=dQ, dUArr=dV, polyOrd=o, verbose=True, fit_function=f)
    with open(out, "wb") as h:
        pickle.dump({"f": fr, "q": q, "u": u, "dq": dq, "du": du, "params": [float(v) for v in fit.params], "perror": [float(v) for v in fit.perror],
                     "chi": float(fit.chiSq), "chired": float(fit.chiSqRed), "ord": fit.polyOrd, "f0": float(fit.reference_frequency_Hz)}, h)


def centre(x):
    """Median and 16/84 % distances of angles that all lie within half a turn (of 180 degrees)."""
    m = math.degrees(np.angle(np.mean(np.exp(2j * np.deg2rad(x))))) / 2
    y = m + (x - m + 90) % 180 - 90
    return np.percentile(y, [16, 50, 84])


def close(a, b, rel, ab=0.0):
    return a == b or (isinstance(a, (int, float)) and isinstance(b, (int, float)) and (math.isnan(a) and math.isnan(b) or abs(a - b) <= ab + rel * max(abs(a), abs(b))))


def pars_of(r):
    return own_pars(r["own"]) if r["own"] else MODELS[r["m"]]


def chi2(r, p, F):
    l2 = (C / F["f"].astype("f8")) ** 2
    with np.errstate(all="ignore"):
        m = own_eval(r["own"], p, l2) if r["own"] else evaluate(r["m"], p, l2)
    a = (F["q"] - m.real) / F["dq"], (F["u"] - m.imag) / F["du"]
    return float(np.nansum(a[0].astype("f8") ** 2 + a[1].astype("f8") ** 2))


def judge(sc, r, files, F, what):
    """One finished fit against the posterior its sampler returned."""
    base = outputs(sc, r)
    for ext in (".json", ".dat"):
        if base + ext not in files:
            raise Violation("missing", f"{what}: {base + ext} was not written")
    try:
        J = json.loads(files[base + ".json"].decode())
    except ValueError as e:
        raise Violation("json", f"{what}: {base}.json is not JSON: {e}")
    lines = [f"{k}={v}" for k, v in J.items()]
    dat = files[base + ".dat"].decode().splitlines()
    if lines != dat:
        k = next((k for k, (a, b) in enumerate(zip(lines, dat)) if a != b), min(len(lines), len(dat)))
        raise Violation("files", f"{what}: {base}.dat says {dat[k:k + 1]}, the .json file {lines[k:k + 1]}")
    P = pars_of(r)
    if J["parNames"] != [p[0] for p in P]:
        raise Violation("names", f"{what}: parameters {J['parNames']}, the model has {[p[0] for p in P]}")
    for k, (n, lo, hi, kind) in enumerate(P):
        v, plus, minus = J["values"][k], J["errPlus"][k], J["errMinus"][k]
        if kind == "fixed":
            q = [lo, lo, lo]
        else:
            x = stubsampler.draw(r["post"], n, lo, hi, kind == "angle")
            q = centre(x) if kind == "angle" else np.percentile(x, [16, 50, 84])
        s = max(1.0, hi - lo) if kind != "angle" else 1.0
        d = v - q[1]
        if kind == "angle":
            d = (d + 90) % 180 - 90
            if not 0 <= v <= 180:
                raise Violation("range", f"{what}: {n} = {v} is outside [0, 180)")
        tol = 1e-7 * s + 1e-9
        if abs(d) > tol or abs(plus - (q[2] - q[1])) > tol or abs(minus - (q[1] - q[0])) > tol:
            raise Violation("values", f"{what}: {n} is given as {v:.6g} +{plus:.6g} -{minus:.6g}, the posterior's quantiles are {q[0]:.6g}, {q[1]:.6g}, {q[2]:.6g}"
                                      + (" (modulo 180)" if kind == "angle" else ""), key="values:" + kind)
    free = [p for p in P if p[3] != "fixed"]
    nf, nd = len(free), int(np.isfinite(F["q"]).sum() + np.isfinite(F["u"]).sum())       # flagged channels are not data
    X = {p[0]: stubsampler.draw(r["post"], p[0], p[1], p[2], p[3] == "angle") for p in free}
    fixed = {p[0]: p[1] for p in P if p[3] == "fixed"}
    chi = chi2(r, dict(zip(J["parNames"], J["values"])), F)
    best = min(chi2(r, {**fixed, **{n: float(x[i]) for n, x in X.items()}}, F) for i in range(r["post"]["n"]))
    want = {"dof": nd - nf - 1, "nFree": nf, "chiSq": chi, "chiSqRed": J["chiSq"] / (nd - nf - 1), "ln(EVIDENCE) ": r["post"]["lnZ"], "dLn(EVIDENCE)": 0.25,
            "IfitChiSq": F["chi"], "IfitChiSqRed": F["chired"], "IfitPolyOrd": F["ord"], "Ifitfreq0": F["f0"],
            "AICc": J["AIC"] + 2 * nf * (nf + 1) / (nd - nf - 1), "BIC": J["AIC"] + nf * (math.log(nd) - 2)}
    for k, v in want.items():
        if k not in J:
            raise Violation("statistics", f"{what}: no {k} in {base}.json")
        if not close(J[k], v, 2e-3 if k == "chiSq" else 1e-5, 1e-2 if k == "chiSq" else 1e-9):
            raise Violation("statistics", f"{what}: {k} = {J[k]}, expected {v}", key="statistics:" + k)
    # AIC = 2 nFree - 2 ln Lmax, and ln L = const(errors) - chi^2 / 2: the constant comes from the errors alone
    n = len(F["f"])
    dqu = F["dq"].astype("f8") ** 2 + F["du"].astype("f8") ** 2
    const = -n * math.log(2 * math.pi) - float(np.log(dqu).sum())
    const2 = -n * math.log(2 * math.pi) - float(np.log(F["dq"].astype("f8")).sum() + np.log(F["du"].astype("f8")).sum())
    got = J["AIC"]
    if not any(close(got, 2 * nf - 2 * (c - best / 2), 2e-3, 2e-2 + 1e-3 * best) for c in (const, const2)):
        raise Violation("statistics", f"{what}: AIC = {got}, expected {2 * nf - 2 * (const - best / 2)} (from the best sample's chi^2 {best})", key="statistics:AIC")
    for k, w in (("Imodel", F["params"]), ("Imodel_errs", F["perror"])):
        g = [float(v) for v in J[k].split(",")]
        if len(g) != len(w) or any(not close(a, b, 1e-5, 1e-12) for a, b in zip(g, w)):
            raise Violation("statistics", f"{what}: {k} = {J[k]}, the fit gave {w}", key="statistics:" + k)
    for pdf in (base.rsplit(f"_m{r['m']}_", 1)[0] + f"fig_m{r['m']}_specfit.pdf", base.rsplit(f"_m{r['m']}_", 1)[0] + f"fig_m{r['m']}_corner.pdf"):
        b = files.get(pdf, b"")
        if not b.startswith(b"%PDF") or not b.rstrip().endswith(b"%%EOF"):
            raise Violation("plots", f"{what}: {pdf} is not a complete PDF ({len(b)} bytes)")


def same_fit(r, F):
    """Two runs with equal keys make the same fit, so that the later one may take up what the earlier one has left."""
    return tuple(F[k].tobytes() for k in ("f", "q", "u", "dq", "du")) + (r["m"], r["nlive"], r["sampler"], json.dumps(r["own"]))


def judge_any(sc, k, Fs, files, what):
    """As judge(); a repeated fit may go on from any earlier run of the same fit."""
    r, F = sc["runs"][k], Fs[k]
    first = None
    for j in range(k, -1, -1):
        q = sc["runs"][j]
        if same_fit(q, Fs[j]) != same_fit(r, F):
            continue
        try:
            return judge(sc, dict(r, post=q["post"]), files, F, what)
        except Violation as v:
            first = first or v
    raise first


def script(jobs):
    """Several fits in one process, as a script does that calls the library."""
    import os
    import shutil

    from RMtools_1D import do_QUfit_1D_mnest as q
    from RMtools_1D.do_RMsynth_1D import readFile

    for k, j in enumerate(jobs):
        stubsampler.SPEC.clear()
        stubsampler.SPEC.update({"post": j["post"]})
        stubsampler.install()
        for name, text in j["files"].items():
            os.makedirs(os.path.dirname(name) or ".", exist_ok=True)
            if text is None:
                if os.path.exists(name):
                    os.unlink(name)
                continue
            with open(name, "w") as f:
                f.write(text)
        r = j["run"]
        q.run_qufit(data=readFile(j["data"], 32, verbose=False), modelNum=r["m"], polyOrd=r["o"], nBits=32, noStokesI=r["i"], fit_function=r["f"], sampler=r["sampler"],
                    ncores=r["ncores"], nlive=r["nlive"], prefixOut=os.path.splitext(j["data"])[0])
        for n in j["keep"]:
            shutil.copyfile(n, f"keep{k}." + os.path.basename(n))


def run(sc, sim):
    files, hist, Fs = {}, [], []
    for r in sc["runs"]:
        p = sim.run(files_of(sc, r), lib("sim.props.c17:fractional", sc["d"] + sc["name"], r["o"], r["f"], r["i"], "f.pkl"))
        cmpf.must_ok(p.p, "fractional spectra")
        Fs.append(pickle.loads(p.files["f.pkl"]))
    if sc["script"]:
        jobs = []
        for r in sc["runs"]:
            f = {k: v.decode() for k, v in files_of(sc, r).items()}
            for q in sc["runs"]:
                f.setdefault(f"models_ns/m{q['m']}.py", None)
            jobs.append({"post": r["post"], "files": f, "run": r, "data": sc["d"] + sc["name"], "keep": []})
        # judged after the last one: earlier ones have been overwritten unless their names differ
        R = sim.run({}, lib("sim.props.c17:script", jobs))
        cmpf.must_ok(R.p, "script of fits")
        done = {}
        for k, r in enumerate(sc["runs"]):
            done[outputs(sc, r)] = k
        for k in done.values():
            judge_any(sc, k, Fs, R.files, f"fit {k + 1} (m{sc['runs'][k]['m']}) of a script of {len(jobs)}")
        sim.probe("scripts")
        return
    for k, (r, F) in enumerate(zip(sc["runs"], Fs)):
        for q in sc["runs"][:k]:
            files.pop(f"models_ns/m{q['m']}.py", None)
        files = {**files, **files_of(sc, r)}
        j = job(sc, r)
        ch = {"seed": sc["pool"]["seed"] + k}
        what = f"`{' '.join(['qufit'] + j['argv'])}`" + (f" after {'; '.join(hist)}" if hist else "")
        if r.get("kill"):
            dry = sim.run(files, j, choices=ch)
            fl = fault(r["kill"], dry.p)
            R = sim.run(files, j, choices=ch, faults=fl)
            files = R.files
            hist.append(f"{' '.join(j['argv'][1:])} ({fl[0]['kind']} at #{fl[0]['k']})" if fl else "a run")
            sim.probe("killed" if not R.p.ok else "survived")
            if R.p.ok and not R.p.crashed:
                judge_any(sc, k, Fs, R.files, what + f" with {fl}")
            continue
        R = sim.run(files, j, choices=ch)
        if not R.p.ok:
            raise Violation("failed", f"{what} fails: {R.p.describe()}")
        judge_any(sc, k, Fs, R.files, what)
        sim.probe("fits")
        if hist:
            sim.probe("fits_over_leftovers")
        hist.append(" ".join(j["argv"][1:]) + (f" [{r['change']} changed]" if r.get("change") else ""))
        before, files = files, R.files
        if sc["again"] and not k:
            base = outputs(sc, r)
            other = dict(r, ncores=1 if r["ncores"] > 1 else 3)
            R2 = sim.run(files_of(sc, r), job(sc, other, post=dict(r["post"], order=sc["order2"])), choices={"seed": sc["pool"]["seed"] + 77})
            cmpf.must_ok(R2.p, "same fit with another number of processes")
            a, b = json.loads(files[base + ".json"]), json.loads(R2.files[base + ".json"])
            for n in a:
                x, y = a[n], b.get(n)
                same = x == y or (isinstance(x, float) and close(x, y, 1e-12)) or (isinstance(x, list) and len(x) == len(y) and all(u == v or close(u, v, 1e-12, 1e-12) for u, v in zip(x, y)))
                if not same:
                    raise Violation("order", f"{what}: {n} = {x}; with {other['ncores']} processes and the samples in another order {y}")
            sim.probe("other_order")


def fault(kill, proc):
    from sim import judge as j

    if kill["in"] == "file":                  # while one of the files is written
        per = j.file_ops(proc.log, "write")
        if per:
            w = per[sorted(per)[int(kill["u"] * len(per))]]
            return [{"kind": "torn" if kill["kind"] != "enospc_once_w" else "enospc_once_w", "k": w[int(kill["u"] * 97 % 1 * len(w))], "arg": kill["u"] * 131 % 1}]
    if kill["in"] == "sampler":               # among the operations on the sampler's own directory
        log = [e for e in proc.log if e[1] not in ("choose", "note")]
        ops = [n for n, e in enumerate(log, 1) if any(f"_{s}/" in e[2] for s in ("dynesty", "nestle", "ultranest"))]
        if ops:
            n = ops[int(kill["u"] * len(ops))]
            if log[n - 1][1] == "write" and kill["u"] * 97 % 1 < 0.5:
                return [{"kind": "torn", "k": sum(e[1] == "write" for e in log[:n]), "arg": kill["u"] * 131 % 1}]
            return [{"kind": "crash", "k": n}]
    return j.place([{"kind": kill["kind"], "u": kill["u"], "arg": 0.5}], proc.counts, proc.log)


def nontrivial(sc, st):
    return st["probes"].get("fits", 0) + st["probes"].get("scripts", 0) > 0
