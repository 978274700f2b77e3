"""A cutout holds exactly the requested pixels with the world coordinates they had."""
import io
import warnings

import numpy as np
from astropy.io import fits as pf

from sim import cmpf, images, judge
from sim.simctx import Violation, cmd

TOOLS = ["rmtools_extractregion"]


def gen(rng, i, tier):
    im = images.random_image(rng, ny=(1, 9), nx=(1, 9))
    if rng.random() < 0.3:
        im["rot"] = round(rng.uniform(-80, 80), 2)
    if rng.random() < 0.15:
        im["dtype"], im["nan"] = rng.choice([("u2", False), ("scaled", False)])
    chains = []
    for _ in range(4 if tier == "quick" else 10):
        chains.append({"cuts": [cut(rng) for _ in range(rng.choice([1, 1, 2, 3]))], "hic": images.hiccups(rng),
                       "crash": [judge.gen_fault(rng, ["crash_mut", "crash_w", "torn_w", "crash"], None)] if rng.random() < 0.25 else [],
                       "d": rng.choice(["", "in/"])})
    return {"im": im, "chains": chains}


def cut(rng):
    """Limits relative to the image (fractions), with overhang, -1 and the centre form."""
    def lim():
        a, b = sorted((rng.random(), rng.random()))
        return {"a": a, "b": b, "lo": rng.choice(["in"] * 5 + ["one", "under", "zero", "-1"]), "hi": rng.choice(["in"] * 5 + ["end", "over", "-1"])}
    return {"x": lim(), "y": lim(), "z": lim() if rng.random() < 0.6 else None, "center": rng.random() < 0.2, "w": [rng.randint(0, 4), rng.randint(0, 4)]}


def shrink(sc):
    if len(sc["chains"]) > 1:
        for r in sc["chains"]:
            yield dict(sc, chains=[r])
        return
    r = sc["chains"][0]
    for k, v in (("crash", []), ("hic", []), ("d", "")):
        if r[k] != v:
            yield dict(sc, chains=[dict(r, **{k: v})])
    if len(r["cuts"]) > 1:
        yield dict(sc, chains=[dict(r, cuts=r["cuts"][:-1])])
        yield dict(sc, chains=[dict(r, cuts=r["cuts"][1:])])
    if "rot" in sc["im"]:
        im = dict(sc["im"])
        im.pop("rot")
        yield dict(sc, im=im)


def blob_of(im):
    s = dict(im)
    special = s["dtype"] if s["dtype"] in ("u2", "scaled") else None
    if special:
        s["dtype"] = "i2"
    a, h = images.array(s), images.header(s)
    if "rot" in s:
        c, q = np.cos(np.radians(s["rot"])), np.sin(np.radians(s["rot"]))
        h["PC1_1"], h["PC1_2"], h["PC2_1"], h["PC2_2"] = c, -q, q, c
    if special == "u2":
        a = a.astype("u2") + 30000
        h["BZERO"] = 32768
    hdu = pf.PrimaryHDU(a, h)
    if special == "scaled":
        hdu = pf.PrimaryHDU(a.astype("f4") * 0.5 + 3, h)
        hdu.scale("int16", bscale=0.5, bzero=3)
    b = io.BytesIO()
    hdu.writeto(b, output_verify="fix")
    return b.getvalue()


def resolve(c, shape, dims, zaxis):
    """(arguments, slices as 0-based [lo, hi) per FITS axis) of one cut on an image of the present size."""
    sl = [(0, n) for n in shape]

    def lim(q, n):
        lo = {"in": 1 + int(q["a"] * n), "one": 1, "under": -2, "zero": 0, "-1": -1}[q["lo"]]
        hi = {"in": max(1 + int(q["a"] * n), 1 + int(q["b"] * n)), "end": n, "over": n + 3, "-1": -1}[q["hi"]]
        return (lo, hi), (max(lo, 1) - 1, n if hi == -1 else min(hi, n))

    if c["center"]:
        cx, cy = 1 + int(c["x"]["a"] * shape[0]), 1 + int(c["y"]["a"] * shape[1])
        wx, wy = c["w"]
        box = [cx, wx, cy, wy]
        sl[0] = (max(cx - wx, 1) - 1, min(cx + wx, shape[0]))
        sl[1] = (max(cy - wy, 1) - 1, min(cy + wy, shape[1]))
        args = box + ["-c"]
    else:
        (x0, x1), sl[0] = lim(c["x"], shape[0])
        (y0, y1), sl[1] = lim(c["y"], shape[1])
        args = [x0, x1, y0, y1]
    if c["z"] and zaxis is not None:
        (z0, z1), sl[zaxis] = lim(c["z"], shape[zaxis])
        args += ["-z", z0, z1]
    return args, sl


def worlds(h, naxis):
    from astropy.wcs import WCS

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return WCS(h, fix=False, naxis=naxis)


def run(sc, sim):
    im = sc["im"]
    blob = blob_of(im)
    h0, a0 = cmpf.parse(blob)[0]
    naxis = h0["NAXIS"]
    w0 = worlds(h0, naxis)
    for q in sc["chains"]:
        d = q["d"]
        files = {d + "img.fits": blob}
        src = d + "img.fits"
        shape = [im["nx"], im["ny"]] + im["extra"]
        off = [0] * naxis
        for k, c in enumerate(q["cuts"]):
            # the axis that -z refers to: the third, or the fourth if the third has one pixel
            zaxis = None if naxis == 2 else 2 if naxis == 3 or shape[2] != 1 else 3
            args, sl = resolve(c, shape, naxis, zaxis)
            out = f"{d}cut{k}.fits"
            job = cmd("rmtools_extractregion", src, out, *args)
            what = f"cut {k} ({' '.join(map(str, args))}) of a {'x'.join(map(str, shape))} {im['dtype']} image"
            if k == len(q["cuts"]) - 1:
                dry = sim.run(files, job)
                cmpf.must_ok(dry.p, what)
                for cr in q["crash"]:
                    f = judge.place([cr], dry.p.counts)
                    if f:
                        files = sim.run(files, job, faults=f).files
                        job = cmd("rmtools_extractregion", src, out, *args, "-o")
                        sim.probe("crashes")
                fl = judge.place(q["hic"], dry.p.counts)
                r = sim.run(files, job, faults=fl)
            else:
                r = sim.run(files, job)
            if not r.p.ok:
                raise Violation("failed", f"{what}: {r.p.describe()}", key="failed:" + cmpf.first_exc(r.p))
            if r.files.get(src) != files[src]:
                raise Violation("input", f"{what}: the input image was changed")
            off = [o + s[0] for o, s in zip(off, sl)]
            shape = [s[1] - s[0] for s in sl]
            hd = cmpf.hdus(r.files, out)
            judge.complete(out, r.files[out])
            want = a0[tuple(slice(o, o + n) for o, n in zip(reversed(off), reversed(shape)))]
            if len(hd) != 1:
                raise Violation("differs", f"{what}: {len(hd)} extensions")
            cmpf.same_array(want, hd[0][1], what, exact=True, cls="pixels")
            h1 = hd[0][0]
            w1 = worlds(h1, naxis)
            corners = np.array([[(i >> b & 1) * (n - 1) for b, n in enumerate(shape)] for i in range(1 << naxis)] +
                               [[n // 2 for n in shape]], float)
            x0 = w0.wcs_pix2world(corners + np.array(off, float), 0)
            x1 = w1.wcs_pix2world(corners, 0)
            if list(w0.wcs.ctype) != list(w1.wcs.ctype):
                raise Violation("coordinates", f"{what}: axis types {list(w1.wcs.ctype)} instead of {list(w0.wcs.ctype)}")
            tol = np.maximum(np.abs(x0) * 1e-11, [1e-9 if "DEG" in str(u).upper() else 1e-6 for u in w0.wcs.cunit])
            if not (np.abs(x0 - x1) <= tol).all():
                j = tuple(int(v) for v in np.argwhere(~(np.abs(x0 - x1) <= tol))[0])
                raise Violation("coordinates", f"{what}: pixel {corners[j[0]].astype(int).tolist()} has world coordinates "
                                               f"{x1[j[0]].tolist()}, in the original it had {x0[j[0]].tolist()}")
            sim.probe("cuts")
            if k:
                sim.probe("cuts_of_cuts")
            files, src = r.files, out


def nontrivial(sc, st):
    return st["probes"].get("cuts", 0) > 0
