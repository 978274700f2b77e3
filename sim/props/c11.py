"""Products are a function of the inputs and options only."""
import random

from sim import catalog, judge
from sim.simctx import Violation

TOOLS = catalog.ALL
VERBOSE = ["rmsynth3d", "rmclean3d", "rmtools_fitIcube", "rmtools_peakfitcube", "rmtools_createchunks", "rmsynth1d", "rmclean1d", "qufit",
           "rmsynth1dFITS", "rmtools_bwdepol"]
RANDOM = ["rmtools_testdata1D", "rmtools_testdata3D"]      # their products are random by purpose
POOLED = ["rmclean3d", "rmtools_fitIcube", "rmtools_3DIrescale"]
DIMS = ["clock", "clock", "tick", "entropy", "dirs", "verbose", "verbose", "cwd", "abs", "pool", "decoys", "hash", "env", "jump", "mtime", "host"]


def gen(rng, i, tier):
    t = judge.pick_tool(rng, i, catalog.ALL)
    e = catalog.gen(rng, t, tier)
    e["opts"] = [o for o in e["opts"] if o != "-v"]
    vs = []
    for j in range(4 if tier == "quick" else 10):
        # everything at once, then this and that
        k = sorted(set(DIMS if j == 0 else rng.sample(DIMS, rng.choice([1, 1, 2, 3]))))
        vs.append({"dims": k, "seed": rng.randrange(2**31)})
    return {"e": e, "variants": vs}


def shrink(sc):
    if len(sc["variants"]) > 1:
        for v in sc["variants"]:
            yield dict(sc, variants=[v])
    for i, v in enumerate(sc["variants"]):
        if len(v["dims"]) > 1:
            for k in v["dims"]:
                yield dict(sc, variants=sc["variants"][:i] + [dict(v, dims=[k])] + sc["variants"][i + 1:])
    yield from catalog.shrink(sc)


def run(sc, sim):
    e = sc["e"]
    ref = judge.Ref(e, sim)
    known = set(ref.files) | set(ref.after)
    for v in sc["variants"]:
        rng = random.Random(v["seed"])
        job, files, kw, done, prefix = dict(ref.job), dict(ref.files), {}, [], ""
        for k in v["dims"]:
            if k == "clock":
                kw["clock_ns"] = rng.choice([0, 951868799, 1709251199, 4102444799, 9000000000]) * 10**9 + rng.randrange(10**9)
            elif k == "tick":
                kw["tick_ns"] = rng.choice([0, 1, 10**12, -10**7])
            elif k == "jump":
                kw["faults"] = [{"kind": "clock_jump", "k": rng.randint(1, max(1, ref.counts.get("any", 1))),
                                 "delta_ns": rng.choice([-1, 1]) * rng.choice([10**9, 3600 * 10**9, 86400 * 365 * 10**9])}]
            elif k == "entropy":
                if e["tool"] in RANDOM:
                    continue
                job["seed"] = rng.randrange(2**31)
            elif k == "dirs":
                job["shuffle_dirs"] = rng.randrange(2**31)
            elif k == "verbose":
                if e["tool"] not in VERBOSE:
                    continue
                job["argv"] = job["argv"] + ["-v"]
            elif k == "cwd":
                # the same disk seen from another working directory
                if e["tool"] == "rmtools_createchunks" and "-p" in e["opts"]:
                    continue
                files["else/where/note"] = b"x"
                job["cwd"] = "else/where"
                job["argv"] = absolute(e, job["argv"], known)
            elif k == "abs":
                if "cwd" in job:
                    continue
                job["argv"] = absolute(e, job["argv"], known)
            elif k == "pool":
                if e["tool"] not in POOLED:
                    continue
                job["pool"] = {"start_method": rng.choice([None, "fork", "spawn"]), "eager": rng.random() < 0.5}
                kw["choices"] = {"seed": rng.randrange(2**31), "bias": rng.choice([0, 0, 0.7])}
            elif k == "decoys":
                for n in ("a.fits", "README", "zz/Q.fits", "Z.dat", "in/FDF_clean.txt", "core", "coeffx.fits"):
                    files.setdefault(n, b"decoy")
            elif k == "mtime":
                kw["mtime"] = rng.randrange(2**31)
            elif k == "hash":
                job["hashseed"] = rng.randrange(1, 2**32)
            elif k == "host":
                job["host"] = {"name": rng.choice(["node17", "b.example.org"]), "user": rng.choice(["nobody", "x"]), "cpus": rng.choice([1, 2, 3, 16])}
            elif k == "env":
                job["env"] = {"LANG": rng.choice(["de_DE.UTF-8", "C"]), "TZ": rng.choice(["Australia/Perth", "EST5EDT"]),
                              "COLUMNS": "200", "OMP_NUM_THREADS": "1", "HOME": "/nonexistent",
                              "TMPDIR": "/nonexistent", "PYTHONUNBUFFERED": "1"}
            done.append(k)
        if not done:
            continue
        r = sim.run(files, job, **kw)
        what = f"`{e['tool']} {' '.join(job['argv'])}` with another {'/'.join(done)}"
        if not r.p.ok:
            raise Violation("failed", f"{what} fails: {r.p.describe()}", key="failed:" + e["tool"])
        judge.same_products(ref.products, ref.after, r.files, what, key="differs:" + e["tool"])
        for k in done:
            sim.probe("varied_" + k)


def absolute(e, argv, known):
    """The same command line with every path made absolute."""
    d, out = e["d"], []
    for a in argv:
        own = a in known or a.startswith(d + "maps") or e.get("target") is not None and a == d + e["target"] or a == d + "at_"
        out.append("{root}/" + a if own else a)
    return out


def nontrivial(sc, st):
    return any(k.startswith("varied_") for k in st["probes"])
