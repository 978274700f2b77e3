"""Inputs that are missing, cut short or unreadable lead to a reported failure and leave earlier products alone."""
import random

from sim import catalog, judge
from sim.simctx import Violation

TOOLS = catalog.ALL
HEADER_ONLY = [("rmtools_freqfile", "Q.fits")]
LINES = [("rmsynth3d", "freq.dat"), ("rmsynth3d", "rms.dat"), ("rmtools_fitIcube", "freq.dat"), ("rmtools_peakfitcube", "rms.dat"),
         ("rmtools_calcRMSF", "w.dat")]


def gen(rng, i, tier):
    t = judge.pick_tool(rng, i, [x for x in catalog.ALL])
    e = catalog.gen(rng, t, tier)
    n = 8 if tier == "quick" else 20
    trials = [{"which": (k + rng.random()) / n, "how": rng.random(), "u": rng.choice([0.0, 0.999999, rng.random(), rng.random()])} for k in range(n)]
    return {"e": e, "trials": trials, "stale": rng.random() < 0.7, "each": rng.randrange(2**31) if rng.random() < 0.6 else 0}


def shrink(sc):
    if len(sc["trials"]) > 1:
        for t in sc["trials"]:
            yield dict(sc, trials=[t])
    if sc["trials"] and sc.get("each"):
        yield dict(sc, trials=[])
        yield dict(sc, each=0)
    if sc["stale"]:
        yield dict(sc, stale=False)
    yield from catalog.shrink(sc)


def header_size(blob):
    i = 0
    while blob[i:i + 80].rstrip() != b"END":
        i += 80
        if i > len(blob):
            raise ValueError("no END card")
    return -(-(i + 80) // 2880) * 2880


def data_size(blob):
    from astropy.io import fits as pf

    h = pf.Header.fromstring(blob[:header_size(blob)])
    n = abs(h["BITPIX"]) // 8
    for k in range(1, h["NAXIS"] + 1):
        n *= h[f"NAXIS{k}"]
    return n


COLUMNS = ("_FDFdirty.dat", "_RMSF.dat", "_weight.dat", "tmpl.dat", "src.dat", "s2.dat", "a.b.dat", "src.txt")


def spoil(e, path, blob, how, u):
    """The damaged input (None: removed), or () where this damage does not apply."""
    tool, name = e["tool"], path[len(e["d"]):]
    if tool == "qufit" and how in ("remove", "dir"):
        return ()                                      # exit status 0 with a message; a test of the repository relies on it
    if tool == "rmsynth3d" and name == "rms.dat" and "variance" not in e["opts"] and how in ("empty", "lines"):
        return ()                                      # read, but not used
    if how in ("remove", "dir"):
        return None
    if how == "empty":
        return () if name == "cat.csv" else b""        # a catalogue without sources is a catalogue
    if path.endswith(".fits"):
        n = header_size(blob)
        if how == "cut" and (tool, name) not in HEADER_ONLY and not (tool == "rmtools_3DIrescale" and "FDF" in name):
            return blob[: n + int(u * data_size(blob))]
        if how == "cuthead":
            return blob[: int(u * (n - 80))]
    if how == "cut" and path.endswith(".json"):
        return blob[: 1 + int(u * (len(blob) - 2))]
    if how == "lines" and ((tool, name) in LINES or tool == "rmclean1d" and name.endswith(("_FDFdirty.dat", "_RMSF.dat"))):
        lines = blob.splitlines(True)
        return b"".join(lines[: 1 + int(u * (len(lines) - 1))])
    if how == "cutline" and (name.endswith(COLUMNS) or name == "freq.dat" and e.get("freq") == "two"):
        lines = blob.splitlines(True)                  # the last line is left without its last columns
        k = 1 + int(u * (len(lines) - 1))
        last = lines[k].rstrip() if k < len(lines) else b""
        if b" " in last:
            return b"".join(lines[:k]) + last[: last.index(b" ") if u * 1e4 % 1 < 0.7 else last.rindex(b" ")]
    if how in ("nul", "garble") and name.endswith(TEXT):
        lines = blob.splitlines(True)                  # a line whose bytes never reached the disk, or that is no numbers
        k = int(u * len(lines)) if name != "cat.csv" else 1 + int(u * 2)
        lines[k] = b"\0" * (len(lines[k]) - 1) + b"\n" if how == "nul" else b"-- --\n"
        return b"".join(lines)
    return ()


TEXT = COLUMNS + ("freq.dat", "rms.dat", "w.dat", "cat.csv")
HOWS = ["nul", "garble", "remove", "empty", "cut", "cut", "cuthead", "lines", "lines", "cutline", "dir", "open_eio", "open_emfile", "eio_read", "eio_read"]


def options(e, path, blob, log, u):
    """The damages that apply to this input."""
    out = []
    reads, opens = judge.file_ops(log, "read").get(path, []), reading_opens(log).get(path, [])
    for how in HOWS:
        if how == "eio_read":
            ok = bool(reads)
        elif how.startswith("open_"):
            ok = bool(opens)
        else:
            ok = spoil(e, path, blob, how, u) != ()
        if ok:
            out.append(how)
    return out


def run(sc, sim):
    e = sc["e"]
    ref = judge.Ref(e, sim)
    start = dict(ref.files)
    if sc["stale"]:
        for p in ref.products:
            start.setdefault(p, ref.after[p])
    job = catalog.job(catalog.force(e))
    names = [n for n in catalog.named_inputs(e) if n in ref.files]
    if e["tool"] == "rmtools_3DIrescale":
        names += [n for n in ref.files if "coeff" in n and "err" not in n and n not in names]
    plan = []
    for t in sc["trials"]:
        if names:
            path = sorted(names)[int(t["which"] * len(names))]
            hows = options(e, path, start[path], ref.proc.log, t["u"])
            plan.append((t, path, hows[int(t["how"] * len(hows))]))
    if sc.get("each"):                           # every input in turn
        x = random.Random(sc["each"])
        for path in sorted(names):
            u = x.choice([0.0, 0.999999, x.random(), x.random()])
            hows = [h for h in options(e, path, start[path], ref.proc.log, u) if not h.startswith(("open", "eio"))]
            for how in sorted(set(x.sample(hows, min(3, len(hows))))):
                plan.append(({"u": u}, path, how))
    for t, path, how in plan:
        files, kw = dict(start), {}
        reads = judge.file_ops(ref.proc.log, "read").get(path, [])
        if how in ("open_eio", "open_emfile", "eio_read"):
            if how == "eio_read":
                kw["faults"] = [{"kind": how, "k": reads[int(t["u"] * len(reads))], "path": path}]
            else:
                ro = reading_opens(ref.proc.log).get(path, [])
                kw["faults"] = [{"kind": how, "k": ro[int(t["u"] * len(ro))], "path": path}]
        elif how == "dir":
            blob = files.pop(path)
            files[path + "/x"] = blob
        else:
            new = spoil(e, path, files[path], how, t["u"])
            if new is None:
                del files[path]
            else:
                files[path] = new
        r = sim.run(files, job, **kw)
        fired = sum(r.world.fired().values()) if kw else 1
        what = f"`{e['tool']} {' '.join(job['argv'])}` with input {path} damaged ({how})"
        if r.p.hung:
            raise Violation("hung", f"{what}: {r.p.describe()}")
        if r.p.ok and fired:
            if kw:                               # an error that the command never saw, or could do without
                judge.same_products(ref.products, ref.after, r.files, what + " exits with 0", cls="false-success",
                                    key=f"false-success:{e['tool']}")
                sim.probe("fault_without_effect")
                continue
            raise Violation("accepted", f"{what} exits with status 0", key=f"accepted:{e['tool']}:{path[len(e['d']):]}:{how}")
        sim.probe("refused")
        if kw or not sc["stale"]:
            continue
        for p in ref.products:
            if p in start and r.files.get(p) != start[p]:
                raise Violation("clobbered", f"{what} fails, but has changed the earlier product {p}", key="clobbered:" + e["tool"])


def reading_opens(log):
    """{path: [positions among the opens for reading]} (positions count in class openr)."""
    out, n = {}, 0
    import os

    for ev in log:
        if ev[1] == "open" and not ev[3] & os.O_CREAT:
            n += 1
            out.setdefault(ev[2], []).append(n)
    return out


def nontrivial(sc, st):
    return st["probes"].get("refused", 0) > 0
