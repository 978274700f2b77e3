"""Reassembly refuses chunk sets that are not exactly those of one split."""
import re

from sim import cmpf, images, judge
from sim.simctx import Violation, cmd

TOOLS = ["rmtools_createchunks", "rmtools_assemblechunks"]
KINDS = ["lost", "lost", "lost", "lost_many", "cut", "cut", "empty", "extra", "older_split", "older_split", "killed_split", "killed_split",
         "killed_resplit", "killed_resplit", "lost_and_left", "mixed", "mixed", "mixed", "mixed_shape", "mixed_shape", "swapped", "good", "good"]


def gen(rng, i, tier):
    hi = 9 if tier == "thorough" else 5
    im = images.random_image(rng, ny=(1, hi), nx=(1, hi))
    while im["ny"] * im["nx"] < 2:
        im["ny"], im["nx"] = rng.randint(1, hi), rng.randint(1, hi)
    n = im["ny"] * im["nx"]
    if rng.random() < 0.1:
        im["ny"], im["nx"], n = 4, 3, 12             # two-digit chunk numbers
    runs = []
    for _ in range(5 if tier == "quick" else 12):
        runs.append({"kind": rng.choice(KINDS), "per": rng.choice([1, rng.randint(1, n), rng.randint(1, max(1, n - 1)), max(1, n // 2)]),
                     "per2": rng.randint(1, n), "which": rng.random(), "given": rng.random(), "u": rng.random(), "mode": rng.choice(["-m", None]),
                     "force": rng.random() < 0.6, "old": rng.choice(["file", "file", "none", "image"]), "out": rng.choice([None, "big.fits"]),
                     "base": rng.choice(["img", "img", "a.C1.b", "d.C2.e/img", "x[1]y"]), "dirs": rng.randrange(2**31),
                     "crash": judge.gen_fault(rng, ["crash_mut", "crash_w", "torn_w", "crash"], None)})
    return {"im": im, "runs": runs}


def shrink(sc):
    if len(sc["runs"]) > 1:
        for r in sc["runs"]:
            yield dict(sc, runs=[r])
        return
    r = sc["runs"][0]
    for k, v in (("base", "img"), ("out", None), ("old", "none"), ("mode", None), ("per2", 1)):
        if r[k] != v:
            yield dict(sc, runs=[dict(r, **{k: v})])


def split(sim, files, base, per, kill=None):
    job = cmd("rmtools_createchunks", base + ".fits", per)
    r = sim.run(files, job)
    if not kill:
        cmpf.must_ok(r.p, "splitting")
        return r.files
    f = judge.place([kill], r.p.counts)
    return sim.run(files, job, faults=f).files if f else r.files


def alike(n, per, u):
    """Another chunk size that splits n pixels into as many chunks."""
    c = [p for p in range(1, n + 1) if p != per and -(-n // p) == -(-n // per)]
    return c[int(u * 1e3 % 1 * len(c))] if c else per


def names(base, n, per):
    k = -(-n // per)
    return [f"{base}.C{i:0{len(str(k))}d}.fits" for i in range(k)]


def run(sc, sim):
    im = sc["im"]
    n = im["ny"] * im["nx"]
    blob, orig = images.image_bytes(im), images.array(im)
    other = images.image_bytes(dict(im, seed=im["seed"] ^ 1))
    for q in sc["runs"]:
        base, kind, per = q["base"], q["kind"], q["per"]
        files = {base + ".fits": blob}
        if kind in ("older_split", "killed_resplit", "lost_and_left"):
            files = split(sim, files, base, q["per2"])
        mine = names(base, n, per)
        files = split(sim, files, base, per, q["crash"] if kind in ("killed_split", "killed_resplit") else None)
        k = int(q["which"] * len(mine))
        if kind == "lost" or kind == "lost_and_left":
            files.pop(mine[k])
        elif kind == "lost_many":
            for x in mine[k:]:
                files.pop(x)
        elif kind == "cut":
            files[mine[k]] = files[mine[k]][:int(q["u"] * (len(files[mine[k]]) - 1))]
        elif kind == "empty":
            files[mine[k]] = b""
        elif kind == "mixed":                        # some chunks of this name are those of another split
            theirs = split(sim, {base + ".fits": blob}, base, q["per2"] if q["u"] < 0.5 else alike(n, per, q["u"]))
            both = [x for x in mine if x in theirs]
            for x in both[-1:] if q["u"] * 10 % 1 < 0.6 else both[k % max(1, len(both)):]:
                files[x] = theirs[x]
        elif kind == "mixed_shape":                  # one chunk is that of an image with as many pixels, of another shape
            im2 = dict(im, ny=im["nx"], nx=im["ny"]) if q["u"] < 0.6 and im["ny"] != im["nx"] else dict(
                im, dims=max(3, im["dims"]), extra=[1] * max(1, len(im["extra"])))
            theirs = split(sim, {base + ".fits": images.image_bytes(im2)}, base, per)
            files[mine[k]] = theirs[mine[k]]
            if whole(files[mine[k]], im, n, per, k) and files[mine[k]] != split(sim, {base + ".fits": blob}, base, per)[mine[k]]:
                continue                             # the same values all the same: cannot be told from this image's
        elif kind == "swapped":                      # renamed by hand
            j = (k + 1) % len(mine)
            files[mine[k]], files[mine[j]] = files[mine[j]], files[mine[k]]
        elif kind == "extra":                        # one chunk number too many, whatever it holds
            w = len(str(len(mine)))
            files[f"{base}.C{len(mine):0{w}d}.fits"] = files[mine[k]]
        del files[base + ".fits"]
        pat = re.compile(re.escape(base) + r"\.C\d+\.fits$")
        have = sorted(x for x in files if pat.match(x))
        if not have:
            continue
        # what is on the disk decides, not how it came about
        good = any(have == names(base, n, p) and all(whole(files[x], im, n, p, i) for i, x in enumerate(have)) for p in range(1, n + 1))
        given = have[int(q["given"] * len(have))]
        out = q["out"] or base + ".fits"
        if q["old"] != "none":
            files[out] = b"an older file\n" * 50 if q["old"] == "file" else other
        before = files.get(out)
        a = [given] + (["-f", out] if q["out"] else []) + (["-o"] if q["force"] else []) + ([q["mode"]] if q["mode"] else [])
        r = sim.run(files, cmd("rmtools_assemblechunks", *a, shuffle_dirs=q["dirs"]))
        what = f"reassembling {len(have)} chunks ({kind}; {im['nx']}x{im['ny']} image split by {per}{' after ' + str(q['per2']) if 'older' in kind or 'left' in kind or 're' in kind else ''}), options {a[1:]}"
        if good and (q["force"] or before is None):
            if not r.p.ok:
                raise Violation("failed", f"{what}: complete set refused: {r.p.describe()}", key="failed")
            sim.probe("assembled")
            cmpf.same_array(orig, cmpf.data(r.files, out), what, exact=True)
            continue
        if r.p.hung:
            raise Violation("hung", f"{what}: {r.p.describe()}", key="hung")
        if r.p.ok:
            got = r.files.get(out)
            raise Violation("accepted", f"{what}: exit status 0 {'although the output existed' if good else 'from the set ' + ' '.join(have)}"
                                        f"{'' if got is None else f', output of {len(got)} bytes'}", key="accepted:" + kind)
        if before is not None and r.files.get(out) != before:
            raise Violation("destroyed", f"{what}: refused, but the existing output {out} was changed", key="destroyed:" + kind)
        sim.probe("refused")
        sim.probe("refused_" + kind)


def whole(blob, im, n, per, i):
    """Is this the complete chunk i of the split by `per` (its data bytes all there)?"""
    want = min(per, n - i * per)
    try:
        h = cmpf.parse(blob)
    except Violation:
        try:                                         # only the padding at the end may be missing
            h = cmpf.parse(blob + b"\0" * (-len(blob) % 2880))
        except Violation:
            return False
        need = data_end(blob)
        if len(blob) < need:
            return False
    d = h[0][1]
    if d is None or d.shape[-1] * d.shape[-2] != want or d.shape[-1] != want:
        return False
    w = images.array(im)
    px = [(k // im["ny"], k % im["ny"]) for k in range(i * per, i * per + want)]
    import numpy as np

    ref = np.stack([w[..., y, x] for x, y in px], -1)
    return np.array_equal(ref, d[..., 0, :], equal_nan=ref.dtype.kind == "f")


def data_end(blob):
    """Bytes up to the last data value, from the header."""
    end = 0
    while end + 80 <= len(blob) and not blob[end:end + 80].startswith(b"END     "):
        end += 80
    hlen = -(-(end + 80) // 2880) * 2880
    cards = {}
    for a in range(0, end, 80):
        c = blob[a:a + 80].decode("latin1")
        if c[8:10] == "= ":
            cards[c[:8].strip()] = c[10:].split("/")[0].strip()
    size = abs(int(cards["BITPIX"])) // 8
    for k in range(1, int(cards["NAXIS"]) + 1):
        size *= int(cards[f"NAXIS{k}"])
    return hlen + size


def nontrivial(sc, st):
    return st["probes"].get("refused", 0) > 0
