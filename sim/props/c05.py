"""Splitting an image and reassembling it gives the image back."""
import numpy as np

from sim import cmpf, images, judge
from sim.simctx import Violation, cmd

TOOLS = ["rmtools_createchunks", "rmtools_assemblechunks"]


def gen(rng, i, tier):
    im = images.random_image(rng, ny=(1, 9 if tier == "thorough" else 6), nx=(1, 9 if tier == "thorough" else 6))
    n = im["ny"] * im["nx"]
    runs = []
    for _ in range(3 if tier == "quick" else 8):
        per = rng.choice([1, n, n + 3, rng.randint(1, n), rng.randint(1, n), max(1, n - 1), max(1, n // 2), im["ny"], im["nx"]])
        runs.append({"per": per, "m1": rng.random() < 0.5, "m2": rng.random() < 0.5, "d": rng.choice(["", "in/", "a b/"]),
                     "prefix": rng.choice([None, None, "pre", "x/pre"]), "out": rng.choice([None, "new.fits", "o/new.fits"]),
                     "dirs": rng.randrange(2**31), "hic1": images.hiccups(rng), "hic2": images.hiccups(rng),
                     "crash1": [judge.gen_fault(rng, ["crash_mut", "crash_w", "torn_w", "crash"], None)] if rng.random() < 0.35 else [],
                     "crash2": [judge.gen_fault(rng, ["crash_mut", "crash_w", "torn_w", "crash"], None)] if rng.random() < 0.35 else [],
                     "which": rng.random()})
    if i % 40 == 13:                                 # more columns (or rows) than a 16-bit number can count
        a, b = rng.randint(33000, 70000), rng.choice([1, 1, 2])
        im.update(ny=b, nx=a) if rng.random() < 0.7 else im.update(ny=a, nx=b)
        im.update(dims=2, extra=[], dtype=rng.choice(["f8", "i4"]), nan=False)
        n = a * b
        runs = [dict(r, per=rng.choice([n // 2, n // 3 + 1, n - 1, 32769, 65537 % n + 1])) for r in runs[:2]]
    if i % 20 == 7:                                  # chunk numbers of three digits
        im.update(ny=rng.randint(9, 12), nx=rng.randint(12, 15))
        runs = [dict(r, per=1, crash1=[], crash2=[]) for r in runs[:1]]
    return {"im": im, "runs": runs}


def shrink(sc):
    if len(sc["runs"]) > 1:
        for r in sc["runs"]:
            yield dict(sc, runs=[r])
        return
    r = sc["runs"][0]
    for k, v in (("crash1", []), ("crash2", []), ("hic1", []), ("hic2", []), ("d", ""), ("prefix", None), ("out", None)):
        if r[k] != v:
            yield dict(sc, runs=[dict(r, **{k: v})])
    if sc["im"]["nan"]:
        yield dict(sc, im=dict(sc["im"], nan=False))


def spectra(a):
    """(npix, nspec) bit patterns of every pixel's values."""
    b = np.ascontiguousarray(a.reshape(-1, a.shape[-2] * a.shape[-1]).T)
    return [row.tobytes() for row in b.astype(b.dtype.newbyteorder(">"))]


def step(sim, files, job, hic, crash, what):
    dry = sim.run(files, job)
    cmpf.must_ok(dry.p, what)
    fl = judge.place(hic, dry.p.counts)
    for c in crash:
        f = judge.place([c], dry.p.counts)
        if f:
            r = sim.run(files, job, faults=f)
            files = r.files
            sim.probe("crashes")
    r = sim.run(files, job, faults=fl)
    if not r.p.ok:
        raise Violation("failed", f"{what} with {fl} {'after a crash' if crash else ''}: {r.p.describe()}", key="failed:" + job["tool"])
    return r.files


def run(sc, sim):
    im = sc["im"]
    blob, orig = images.image_bytes(im), images.array(im)
    oh = cmpf.parse(blob)[0][0]
    npix = im["ny"] * im["nx"]
    for q in sc["runs"]:
        d = q["d"]
        files = {d + "img.fits": blob}
        if q["prefix"] and "/" in q["prefix"]:
            files[d + "x/keep"] = b"k"
        if q["out"] and "/" in q["out"]:
            files[d + "o/keep"] = b"k"
        pre = d + (q["prefix"] or "img")
        a = [d + "img.fits", q["per"]] + (["-m"] if q["m1"] else []) + (["-p", pre] if q["prefix"] else [])
        what = f"splitting {im['dims']}D {'x'.join(map(str, [im['nx'], im['ny']] + im['extra']))} {im['dtype']} image by {q['per']}"
        after = step(sim, files, cmd("rmtools_createchunks", *a), q["hic1"], q["crash1"], what)
        n = -(-npix // q["per"])
        names = [f"{pre}.C{i:0{len(str(n))}d}.fits" for i in range(n)]
        got = []
        for k, name in enumerate(names):
            c = cmpf.data(after, name)
            if c.ndim != orig.ndim:
                raise Violation("chunk", f"{what}: chunk {k} has {c.ndim} dimensions")
            want = min(q["per"], npix - k * q["per"])
            if c.shape[-1] * c.shape[-2] != want:
                raise Violation("chunk", f"{what}: chunk {k} holds {c.shape[-1] * c.shape[-2]} pixels instead of {want}")
            got += spectra(c)
        if sorted(got) != sorted(spectra(orig)):
            raise Violation("chunk", f"{what}: the chunks do not hold every pixel's spectrum exactly once")
        out = (d + q["out"]) if q["out"] else pre + ".fits"
        a = [names[int(q["which"] * n)]] + (["-f", out] if q["out"] else []) + (["-m"] if q["m2"] else []) + ["-o"]
        base = {k: v for k, v in after.items() if k != out}
        what2 = what + f", reassembling {'without' if q['m2'] else 'with'} memory mapping"
        fin = step(sim, base, cmd("rmtools_assemblechunks", *a, shuffle_dirs=q["dirs"]), q["hic2"], q["crash2"], what2)
        h = cmpf.hdus(fin, out)
        if h[0][1].dtype != orig.dtype and h[0][1].dtype.newbyteorder(">") != orig.dtype:
            raise Violation("differs", f"{what2}: number type {h[0][1].dtype} instead of {orig.dtype}")
        cmpf.same_array(orig, h[0][1], what2, exact=True)
        cmpf.same_header(oh, h[0][0], what2)
        if len(h) != 1:
            raise Violation("differs", f"{what2}: {len(h)} extensions")
        judge.complete(out, fin[out])
        sim.probe("round_trips")
        if n == 1:
            sim.probe("single_chunk")
        if npix % q["per"] == 1 and n > 1:
            sim.probe("last_chunk_of_one_pixel")


def nontrivial(sc, st):
    return st["probes"].get("round_trips", 0) > 0
