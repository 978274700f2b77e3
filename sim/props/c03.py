"""Rescaled Stokes I models do not depend on workers or order and describe the same spectra with propagated errors."""
import io
import json

import numpy as np
from astropy.io import fits as pf

from sim import cmpf, data
from sim.simctx import Violation, cmd, lib

TOOLS = ["rmtools_3DIrescale", "rmtools_fitIcube"]


def gen(rng, i, tier):
    big = rng.random() < (0.6 if tier == "thorough" else 0.4)
    sc = {"seed": rng.randrange(2**31), "ny": rng.randint(7, 16) if big else rng.randint(1, 5), "nx": rng.randint(9, 27) if big else rng.randint(1, 6),
          "order": rng.choice([0, 1, 2, 2, 3, 4, 5, -2, -3, -5]), "fun": rng.choice(["log", "log", "linear"]),
          "masked": rng.random() < 0.4, "uniform": rng.random() < 0.35, "real": (not big) and rng.random() < 0.4, "runs": []}
    if sc["real"]:
        sc["order"] = rng.choice([0, 1, 2, -2])
        sc["ny"], sc["nx"] = max(2, sc["ny"]), max(2, sc["nx"])
        sc["uniform"] = False
    sc["to"] = rng.choice(["none", "f", "f", "l"]) if not sc["uniform"] else rng.choice(["same", "same", "f", "none"])
    sc["ratio"] = round(rng.uniform(0.7, 1.4), 4)
    for _ in range(rng.randint(1, 3)):
        sc["runs"].append({"n": rng.choice([2, 2, 3, 4, 8]), "choices": {"seed": rng.randrange(2**31), "bias": rng.choice([0, 0, 0.5, 0.9])},
                           "start": rng.choice([None, "fork", "spawn"]), "eager": rng.random() < 0.6, "o": rng.choice(["", "m/out_"]),
                           "api": rng.choice(["cli", "cli", "lib"])})
    sc["pix"] = [[rng.randrange(sc["ny"]), rng.randrange(sc["nx"])] for _ in range(3)]
    sc["via"] = round(rng.uniform(0.8, 1.25), 4)
    if i % 8 == 3 and not sc["real"]:            # several of the batches of 100 pixels a worker is given, the last one not full
        sc["ny"], sc["nx"] = rng.choice([(23, 25), (26, 21), (24, 22), (30, 27), (17, 33)])
        sc["pix"] = [[rng.randrange(sc["ny"]), rng.randrange(sc["nx"])] for _ in range(2)] + [[sc["ny"] - 1, sc["nx"] - 1]]
    if not sc["real"]:                           # no pixel with a model at all; a term that is zero in every pixel
        sc["empty"] = i % 20 == 6
        sc["gap"] = i % 10 == 7
        sc["refit"] = i % 6 == 4
        if sc["empty"]:
            sc["to"], sc["uniform"] = rng.choice(["f", "l"]), False
        if sc["gap"]:
            sc["order"], sc["fun"] = rng.choice([2, 3, 4, -3]), "linear"
    return sc


def shrink(sc):
    if len(sc["runs"]) > 1:
        for r in sc["runs"]:
            yield dict(sc, runs=[r])
    elif sc["runs"]:
        yield dict(sc, runs=[])
    for k in ("ny", "nx"):
        for v in (1 if not sc["real"] else 2, sc[k] // 2):
            if 0 < v < sc[k]:
                c = dict(sc, **{k: v})
                c["pix"] = [[min(y, c["ny"] - 1), min(x, c["nx"] - 1)] for y, x in sc["pix"]]
                yield c
    for k, v in (("masked", False), ("order", 1), ("to", "f")):
        if sc[k] != v and not (sc["uniform"] and k == "to"):
            yield dict(sc, **{k: v})
    for j, r in enumerate(sc["runs"]):
        for k, v in (("n", 2), ("eager", True), ("start", None), ("o", ""), ("api", "cli")):
            if r[k] != v:
                rr = list(sc["runs"])
                rr[j] = dict(r, **{k: v})
                yield dict(sc, runs=rr)


def fits_bytes(a, h):
    b = io.BytesIO()
    pf.PrimaryHDU(a, h).writeto(b, output_verify="fix")
    return b.getvalue()


def model_files(sc):
    """Maps as rmtools_fitIcube writes them, for models of any shape."""
    r = np.random.RandomState(sc["seed"])
    ny, nx, k = sc["ny"], sc["nx"], abs(sc["order"]) + 1
    P = np.zeros((6, ny, nx))
    P[5] = r.uniform(0.3, 4, (ny, nx)) * r.choice([1, 1, 1, -1], (ny, nx))
    for i in range(1, k):
        P[5 - i] = r.uniform(-1, 1, (ny, nx)) * (0.8, 0.5, 0.3, 0.2, 0.1)[i - 1]
    if sc["order"] < 0:                     # the order was chosen pixel by pixel
        o = r.randint(0, k, (ny, nx))
        o.flat[r.randint(o.size)] = k - 1
        for i in range(k):
            P[5 - i][o < i] = 0
    if sc.get("gap"):
        P[4] = 0
    A = r.normal(0, 0.01, (ny, nx, 6, 6))
    C = np.einsum("...ij,...kj->...ik", A, A)
    Z = (P == 0).transpose(1, 2, 0)
    C[Z[:, :, :, None] | Z[:, :, None, :]] = 0
    f = np.full((ny, nx), 1.2e9) if sc["uniform"] else r.uniform(1.1e9, 1.3e9, (ny, nx))
    if sc["masked"] and ny * nx > 1:
        m = r.rand(ny, nx) < 0.2
        m.flat[r.randint(m.size)] = False
        P[:, m], f[m] = np.nan, np.nan
        C[m] = np.nan
    if sc.get("empty"):
        P[:], f[:], C[:] = np.nan, np.nan, np.nan
    h = data.header({"nchan": 1, "ny": ny, "nx": nx})
    for c in list(h):
        if c.endswith("3") or c in ("BUNIT",):
            del h[c]
    h["BUNIT"] = ""
    if sc.get("refit"):                     # the cube was itself made from an earlier model, of the other kind
        h["HISTORY"] = f"Fit model is {5 if abs(sc['order']) < 3 else 1}-order {'linear' if sc['fun'] == 'log' else 'log'}-polynomial"
    h["HISTORY"] = "Stokes I model fitted by RM-Tools"
    h["HISTORY"] = (f"Fit model is dynamic order {sc['fun']}-polynomial, max order {-sc['order']}" if sc["order"] < 0
                    else f"Fit model is {sc['order']}-order {sc['fun']}-polynomial")
    out = {}
    for i in range(k):
        out[f"in/coeff{i}.fits"] = fits_bytes(P[5 - i].astype("f4"), h)
        out[f"in/coeff{i}err.fits"] = fits_bytes(np.sqrt(C[:, :, 5 - i, 5 - i]).astype("f4"), h)
    out["in/covariance.fits"] = fits_bytes(C.transpose(2, 3, 0, 1).astype("f4"), h)
    out["in/reffreq.fits"] = fits_bytes(f.astype("f4"), h)
    return out


def lib_run(sc, new, n, out):
    from RMtools_3D import rescale_I_model_3D as m

    cov, old, co, head = m.read_data("in/")
    keep = [a.copy() for a in (cov, old, co)]
    f, p, e = m.rescale_I_model_3D(cov, old, np.ones_like(old) * new, co, sc["fun"], num_cores=n)
    if not all(np.array_equal(a, b, equal_nan=True) for a, b in zip(keep, (cov, old, co))):
        print("INPUT-CHANGED")
    np.savez(out, f=f, p=p, e=e)


def lib_alone(sc, new, out):
    """Single pixels on their own, and a chain of rescalings."""
    from RMtools_3D import rescale_I_model_3D as m

    cov, old, co, head = m.read_data("in/")
    d = {}
    for y, x in sc["pix"]:
        s = (slice(y, y + 1), slice(x, x + 1))
        o = old[s].copy()
        f, p, e = m.rescale_I_model_3D(cov[(slice(None), slice(None)) + s].copy(), o, np.ones_like(o) * new, co[(slice(None),) + s].copy(), sc["fun"])
        d[f"p{y}_{x}"], d[f"e{y}_{x}"] = p[:, 0, 0], e[:, 0, 0]
    f1, p1, e1 = m.rescale_I_model_3D(cov, old, np.ones_like(old) * new * sc["via"], co, sc["fun"])
    f2, p2, e2 = m.rescale_I_model_3D(cov, np.ones_like(old) * new * sc["via"], np.ones_like(old) * new, p1, sc["fun"])
    np.savez(out, chain=p2, **d)


def jac(fun, p, x):
    """d(new coefficients)/d(old coefficients), from the definition of the models."""
    J = np.zeros((6, 6))
    if fun == "linear":
        for i in range(6):
            J[i, i] = x ** (5 - i)
        return J
    from math import comb

    L = np.log10(x)
    for i in range(5):                   # coefficient of degree k = 5-i: sum over m>=k of comb(m,k) L^(m-k) c_m
        for j in range(i + 1):
            J[i, j] = comb(5 - j, 5 - i) * L ** ((5 - j) - (5 - i))
    g2 = p[5] * 10 ** sum(p[j] * L ** (5 - j) for j in range(5))
    for j in range(5):
        J[5, j] = g2 * np.log(10) * L ** (5 - j)
    J[5, 5] = g2 / p[5]
    return J


def spectrum(fun, p, x):
    if fun == "linear":
        return sum(p[j] * x ** (5 - j) for j in range(6))
    L = np.log10(x)
    return p[5] * 10 ** sum(p[j] * L ** (5 - j) for j in range(5))


def near(a, b, what, cls, rtol, atol):
    a, b = np.asarray(a, "f8"), np.asarray(b, "f8")
    bad = ~np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
    if bad.any():
        j = tuple(int(v[0]) for v in np.nonzero(bad))
        raise Violation(cls, f"{what}: {a[j]} against {b[j]} at {j}")


def run(sc, sim):
    if sc["real"]:
        spec = {"seed": sc["seed"], "nchan": 16, "ny": sc["ny"], "nx": sc["nx"], "curved": True, "noise": 0.03, "df": 2e7, "f0": 1e9}
        if sc["masked"]:
            spec["nanvox"] = [[c, 0, 0] for c in range(0, 14, 2)]
        r = sim.run(data.cubes(spec, "in/"), cmd("rmtools_fitIcube", "in/I.fits", "-p", sc["order"], "-f", sc["fun"]))
        cmpf.must_ok(r.p, "fit of the I cube")
        files = {k: v for k, v in r.files.items() if k.startswith("in/")}
    else:
        files = model_files(sc)
    ny, nx = sc["ny"], sc["nx"]
    old = cmpf.data(files, "in/reffreq.fits").astype("f8")
    C = cmpf.data(files, "in/covariance.fits").astype("f8")
    P = np.zeros((6, ny, nx))
    k = 0
    while f"in/coeff{k}.fits" in files:
        P[5 - k] = cmpf.data(files, f"in/coeff{k}.fits")
        k += 1
    a = ["in/covariance.fits"]
    if sc["to"] == "f":
        new = float(np.float32(1.2e9 * sc["ratio"]))
        a += ["-f", new]
    elif sc["to"] == "same":
        new = 1.2e9
        a += ["-f", new]
    elif sc["to"] == "l":
        l2 = (299792458.0 / (1.2e9 * sc["ratio"])) ** 2
        h = pf.Header()
        h["LAMSQ0"] = l2
        files["in/FDF_real_dirty.fits"] = fits_bytes(np.zeros((3, ny, nx), "f4"), h)
        a += ["-l", "in/FDF_real_dirty.fits"]
        new = 1.2e9 * sc["ratio"]
    else:
        new = float(np.nanmean(old))
    r = sim.run(files, cmd("rmtools_3DIrescale", *a))
    cmpf.must_ok(r.p, "rescaling with one worker")
    ref = r.files
    prods = sorted(x for x in ref if x not in files)
    top = max((j for j in range(6) if np.any((P[5 - j] != 0) & np.isfinite(P[5 - j]))), default=0)
    want = sorted(f"in/newcoeff{j}{s}.fits" for j in range(top + 1) for s in ("", "err"))
    if prods != want:
        raise Violation("products", f"the rescaled model has maps {prods}, the model has order {top}")
    N, E = np.zeros((6, ny, nx)), np.zeros((6, ny, nx))
    for j in range(top + 1):
        N[5 - j] = cmpf.data(ref, f"in/newcoeff{j}.fits")
        E[5 - j] = cmpf.data(ref, f"in/newcoeff{j}err.fits")
        h = cmpf.hdus(ref, f"in/newcoeff{j}.fits")[0][0]
        if abs(h.get("REFFREQ", 0) - new) > 1e-6 * new and np.isfinite(old[0, 0]):
            raise Violation("reffreq", f"newcoeff{j}.fits gives reference frequency {h.get('REFFREQ')}, the model is at {new}")
    for q in sc["runs"]:
        pool = {"start_method": q["start"], "eager": q["eager"]}
        how = f"{q['api']}: {q['n']} workers"
        fs = dict(files)
        if q["api"] == "lib":
            p = sim.run(fs, lib("sim.props.c03:lib_run", sc, new, q["n"], "ret.npz", pool=pool), choices=q["choices"])
            if "INPUT-CHANGED" in p.p.out:
                raise Violation("input-changed", f"rescale_I_model_3D changed the arrays it was given ({how})")
        else:
            if q["o"]:
                fs["m/keep"] = b""
            p = sim.run(fs, cmd("rmtools_3DIrescale", *a, "-n", q["n"], *(["-o", q["o"]] if q["o"] else []), pool=pool), choices=q["choices"])
        if not p.p.ok:
            raise Violation("failed", f"rescaling with {how} failed, with one worker it did not: {p.p.describe()}", key="failed:" + cmpf.first_exc(p.p))
        if q["api"] == "lib":
            d = np.load(io.BytesIO(p.files["ret.npz"]))
            for nm, mine in (("p", N), ("e", E)):
                for j in range(top + 1):
                    cmpf.same_array(mine[5 - j].astype("f4"), d[nm][5 - j].astype("f4"), f"one worker against {how}: {nm} of order {j}",
                                    **({"exact": cmpf.ROUNDING} if sc["to"] in ("f", "same") else {"rtol": 1e-4}))
            continue
        for o in prods:
            cmpf.same_fits(ref, p.files, o, f"one worker against {how}:", path2=o if not q["o"] else q["o"] + o[3:], exact=cmpf.ROUNDING)
    x = sim.run(files, lib("sim.props.c03:lib_alone", sc, new, "one.npz"))
    if "one.npz" not in x.files:
        raise Violation("failed", f"rescaling single pixels failed: {x.p.describe()}")
    d = dict(np.load(io.BytesIO(x.files["one.npz"])))
    for y, xx in sc["pix"]:
        near(d[f"p{y}_{xx}"][5 - top:], N[5 - top:, y, xx], f"pixel ({y},{xx}) alone against the map: coefficients", "alone", 2e-4, 2e-6)
        near(d[f"e{y}_{xx}"][5 - top:], E[5 - top:, y, xx], f"pixel ({y},{xx}) alone against the map: errors", "alone", 1e-2, 1e-5)
    nf = 0
    fs = new * np.linspace(0.8, 1.25, 7)
    for y in range(ny):
        for xx in range(nx):
            w = f"pixel ({y},{xx})"
            if not np.isfinite(old[y, xx]):
                if np.isfinite(N[5, y, xx]) or np.isfinite(E[5, y, xx]):
                    raise Violation("masked", f"{w} has no model but the rescaled maps have one ({N[5, y, xx]} +- {E[5, y, xx]})")
                continue
            nf += 1
            p, q, x = P[:, y, xx], N[:, y, xx], new / old[y, xx]
            s0 = spectrum(sc["fun"], p, fs / old[y, xx])
            s1 = spectrum(sc["fun"], q, fs / new)
            scale = np.abs(s0).max() if sc["fun"] == "log" else sum(abs(p[j]) * 1.5 ** (5 - j) for j in range(6))
            if not np.allclose(s0, s1, rtol=2e-4, atol=2e-5 * scale):
                raise Violation("spectrum", f"{w}: the rescaled model describes {s1}, the original {s0} (reference {old[y, xx]} -> {new})")
            J = jac(sc["fun"], p, x)
            var = np.einsum("ij,jk,ik->i", J, C[:, :, y, xx], J)
            mag = np.einsum("ij,jk,ik->i", abs(J), abs(C[:, :, y, xx]), abs(J))
            bad = np.abs(E[:, y, xx] ** 2 - var) > 2e-3 * var + 1e-5 * mag
            bad &= ~(np.isnan(E[:, y, xx]) & (var < 1e-5 * mag))              # rounding made the variance negative
            if bad.any():
                j = int(np.flatnonzero(bad)[0])
                raise Violation("errors", f"{w}: error of coefficient {5 - j} is {E[j, y, xx]}, the covariance propagates to {np.sqrt(var[j])}")
            if sc["to"] == "same":
                for j in range(top + 1):
                    if abs(q[5 - j] - p[5 - j]) > 1e-6 * abs(p[5 - j]):
                        raise Violation("same", f"{w}: rescaled to its own reference frequency, coefficient {j} changed from {p[5 - j]} to {q[5 - j]}")
    for j in range(top + 1):
        sc_ = np.nanmax(np.abs(N[5 - j])) if np.isfinite(N[5 - j]).any() else 1
        near(d["chain"][5 - j], N[5 - j], f"rescaled in two steps against one, coefficient {j}", "chain", 1e-3, 3e-5 * (1 + sc_))
    sim.probe("pixels_rescaled", nf)
    sim.probe("chunks", -(-ny * nx // 100))


def nontrivial(sc, st):
    return (st["probes"].get("pixels_rescaled", 0) > 0 or sc.get("empty")) and (st["tasks"] > 1 or not sc["runs"])
