"""A command touches only its own products, whatever happens to it."""
import os
import re

from sim import catalog, data, judge
from sim.simctx import Violation

TOOLS = catalog.ALL
KINDS = ["enospc", "eio", "closelost", "open_eacces", "open_emfile", "open_eio", "eio_read", "enomem_map", "mkdir_fail",
         "crash", "crash_mut", "crash_mut", "torn", "crash_w", "crash_c", "rename_fail", "unlink_fail"]
DECOYS = ["a.fits", "FDF_clean.bak", "notes.txt", "RMSF.txt", "coeff.txt", "src.txt", "tmp.fits", "sub/Q.fits",
          "sub/FDF_real_dirty.fits", "newcoeff.txt", "data.tmp", ".hidden", "src_RMsynth.json.bak", "I.fits.bak"]

SIBLINGS = {          # names close to that of a product or an input, in its directory
    "before": lambda a, b: "x" + a + b, "bak": lambda a, b: a + b + ".bak", "tilde": lambda a, b: a + b + "~", "old": lambda a, b: a + "_old" + b,
    "dot": lambda a, b: a + ".1" + b, "number": lambda a, b: re.sub(r"\d+", "77", a) + b, "insert": lambda a, b: a.replace(".", ".x.", 1) + b,
    "first": lambda a, b: a.split(".")[0] + b, "word": lambda a, b: re.sub(r"\d+", "ut", a) + b}

FORMS = {             # products of the same command with other options
    "rmsynth3d": ["FDF_dirty.fits", "RMSF.fits", "FDF_real_dirty.fits", "FDF_im_dirty.fits", "FDF_tot_dirty.fits", "RMSF_real.fits", "RMSF_im.fits", "RMSF_tot.fits",
                  "RMSF_FWHM.fits", "FDF_maxPI.fits", "FDF_mom1.fits", "FDF_clean.fits"],
    "rmclean3d": ["FDF_clean.fits", "FDF_CC.fits", "FDF_clean_real.fits", "FDF_clean_im.fits", "FDF_clean_tot.fits", "FDF_CC_real.fits", "FDF_CC_im.fits", "FDF_CC_tot.fits",
                  "FDF_clean_maxPI.fits"],
    "rmtools_fitIcube": [f"coeff{k}{x}.fits" for k in range(6) for x in ("", "err")] + ["newcoeff0.fits", "model.q.fits"],
    "rmtools_3DIrescale": [f"newcoeff{k}{x}.fits" for k in range(6) for x in ("", "err")] + ["newreffreq.fits"],
    "rmtools_peakfitcube": ["snrPIfit.fits", "dFDFcorMAD.fits", "phiPeakPIfit_rm2.fits", "fracPol.fits", "Ifreq0.fits", "N_channels.fits", "polAngleFit_deg.fits"],
    "rmsynth1d": ["_RMclean.json", "_RMclean.dat", "_FDFclean.dat", ".debug-plots.pdf", "_m1_dynesty.json"],
    "rmclean1d": ["_m1_dynesty.json", "_FDFclean.pdf", "_RMclean.txt"]}


def gen(rng, i, tier):
    t = judge.pick_tool(rng, i, catalog.ALL)
    e = catalog.gen(rng, t, tier)
    if rng.random() < 0.8:                       # many things in the headers that somebody may want to correct
        e["spec"]["hdr"] = sorted(rng.sample(data.ODD, rng.randint(4, len(data.ODD))))
    trials = [[judge.gen_fault(rng, KINDS, ["crash_w", "torn_w", "crash_c", "enospc_w", "eio"])] for _ in range(5 if tier == "quick" else 15)]
    return {"e": e, "trials": trials, "decoys": rng.sample(DECOYS, rng.randint(2, 6)), "stale": rng.random() < 0.4,
            "other": rng.choice(["", "o/", "in/"]), "forms": rng.random() < 0.5, "sib": [[rng.random(), rng.choice(sorted(SIBLINGS))] for _ in range(rng.choice([0, 3, 6]))]}


def shrink(sc):
    if sc["trials"]:
        yield dict(sc, trials=[])
        for t in sc["trials"]:
            yield dict(sc, trials=[t])
    if sc["stale"]:
        yield dict(sc, stale=False)
    if sc["sib"]:
        yield dict(sc, sib=[])
    if sc["forms"]:
        yield dict(sc, forms=False)
    if sc["decoys"]:
        yield dict(sc, decoys=[])
    yield from catalog.shrink(sc)


def norm(p):
    return os.path.normpath(p)


def judge_run(r, start, mine, what, done, e):
    for p in sorted(start):
        if p.endswith("/") or p in mine or catalog.scratch(e, p):
            continue
        if p not in r.files:
            raise Violation("removed", f"{what}: {p}, which is no product of the command, is gone")
        if r.files[p] != start[p]:
            raise Violation("damaged", f"{what}: {p}, which is no product of the command, was changed "
                                       f"({len(start[p])} to {len(r.files[p])} bytes)")
    # no operation that could change them either (even with the same bytes, another process would see it)
    for ev in r.p.log:
        if ev[1] in ("write", "trunc", "rename", "unlink", "msync", "link"):
            for q in ev[2].split("\t"):
                q = norm(q)
                if q in start and q not in mine and not catalog.scratch(e, q):
                    raise Violation("touched", f"{what}: {ev[1]} on {q}, which is no product of the command")
    if done:
        new = sorted(p for p in r.files if p not in start and not p.endswith("/"))
        extra = [p for p in new if p not in mine and not catalog.scratch(e, p)]
        if extra:
            raise Violation("extra", f"{what}: files left behind that are no documented product: {extra}")
        miss = [p for p in mine if p not in r.files]
        if miss:
            raise Violation("missing", f"{what}: documented products are missing: {miss}")


def run(sc, sim):
    e = sc["e"]
    files, job = catalog.prepare(e, sim)
    mine = {norm(p) for p in catalog.expected(e, files)}
    start = dict(files)
    for n in sc["decoys"]:
        start.setdefault(norm(sc["other"] + n), ("decoy " + n).encode() * 7)
    for u, k in sc["sib"]:
        near = sorted(mine) + (sorted(p for p in files if not p.endswith("/")) if k != "number" else [])   # (another number would make it one of a set)
        head, base = os.path.split(near[int(u * len(near))])
        n = norm(os.path.join(head, SIBLINGS[k](*os.path.splitext(base))))
        if n not in mine and not catalog.scratch(e, n) and not any(x.startswith(n + "/") for x in list(start) + sorted(mine)):
            start.setdefault(n, ("decoy " + n).encode() * 7)
    names = FORMS.get(e["tool"], []) if sc["forms"] else []
    for pre in sorted({p[:-len(x)] for p in mine for x in names if p.endswith(x)}, key=len)[:1]:
        for x in names:
            if norm(pre + x) not in mine and not catalog.scratch(e, norm(pre + x)):
                start.setdefault(norm(pre + x), b"an earlier product " * 7)
                sim.probe("products_with_other_options")
    r = sim.run(start, job)
    if not r.p.ok:
        raise Violation("failed", f"fails without any fault: {r.p.describe()}")
    judge_run(r, start, mine, "successful run of " + e["tool"], True, e)
    sim.probe("successful_runs")
    counts, log = r.p.counts, r.p.log
    if sc["stale"]:
        for p in mine:
            if p in r.files:
                start.setdefault(p, r.files[p])
    for t in sc["trials"]:
        fl = judge.place(t, counts, log)
        if not fl:
            continue
        q = sim.run(start, job, faults=fl)
        if q.p.hung:
            raise Violation("hung", f"{fl}: {q.p.describe()}")
        sim.probe("interrupted_runs" if not q.p.ok else "runs_surviving_fault")
        judge_run(q, start, mine, f"{e['tool']} after {fl}", q.p.ok, e)


def nontrivial(sc, st):
    return st["probes"].get("interrupted_runs", 0) > 0
