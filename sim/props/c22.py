"""What a killed command leaves behind is not taken for its result by the next one."""
from sim import catalog, cmpf, data, judge
from sim.simctx import Violation, cmd

TOOLS = catalog.TOOLS3 + ["rmsynth1d", "rmclean1d"]
KINDS = ["crash", "crash_mut", "crash_mut", "torn", "crash_w", "crash_c", "torn_w"]
BYFILE = ["crash_w", "torn_w", "crash_c"]
BOOK = ["rmclean3d", "rmtools_3DIrescale", "rmtools_peakfitcube", "rmtools_assemblechunks", "rmclean1d"]
CHAINS = ["rmclean3d", "rmtools_3DIrescale", "rmtools_peakfitcube", "rmtools_assemblechunks", "model", "assembled", "assembled", "chunk", "cut",
          "testdata", "clean", "model", "freq", "rmclean1d"]


def gen(rng, i, tier):
    kind = CHAINS[i % len(CHAINS)] if rng.random() < 0.95 else "rmclean1d"
    e = catalog.gen(rng, kind if kind in BOOK else "rmsynth3d", tier)
    sc = {"kind": kind, "e": e, "chunked": rng.random() < 0.5}
    if kind == "model":
        sc["fit"] = rng.choice([["-p", "2"], ["-p", "1"], ["-p", "-3"]]) + rng.choice([[], ["-f", "linear"], ["-n", "2"]])
        sc["axis"] = rng.choice(["3D", "3D", "4DFS"])
        sc["use"] = rng.choice([["model"], ["noise"], ["model", "noise"]])
        e["spec"].pop("nanpix", None)
    elif kind in ("assembled", "chunk"):
        n = e["spec"]["ny"] * e["spec"]["nx"]
        sc["per"] = rng.randint(max(1, n // 4), max(1, n - 1))
        sc["m"] = rng.random() < 0.5
        sc["last"] = rng.choice(["cut", "chunks", "freq", "synth", "synth"])
        sc["which"] = rng.random()
    elif kind == "clean":
        e["opts"] = [x for x in e["opts"] if x in ("-t", "-r")]
        sc["m"] = rng.random() < 0.5
        sc["last"] = rng.choice(["peak", "cut", "chunks"])
    sc["trials"] = [{"stage": rng.random(), "f": judge.gen_fault(rng, KINDS, BYFILE)} for _ in range(8 if tier == "quick" else 24)]
    return sc


def shrink(sc):
    for t in sc["trials"]:
        if len(sc["trials"]) > 1:
            yield dict(sc, trials=[t])
    yield from catalog.shrink(sc)


def script(sc):
    """The starting disk and the commands, the last of which is the consumer."""
    e, kind = sc["e"], sc["kind"]
    d, s = e["d"], e["spec"]
    if kind in BOOK:
        return catalog.inputs(e), catalog.chain(e) + [catalog.job(catalog.force(e))]
    if kind == "model":
        files = data.cubes(s, d, sc["axis"])
        clean = {k: v for k, v in s.items() if not k.startswith("nan") and k != "faint"}
        files[d + "I.fits"] = data.cube_bytes(data.iqu(clean)[0], clean, sc["axis"], 1)
        use = {"model": ["-i", d + "model.i.fits"], "noise": ["-n", d + "noise.dat", "-w", "variance"]}
        return files, [cmd("rmtools_fitIcube", d + "I.fits", *sc["fit"]),
                       cmd("rmsynth3d", d + "Q.fits", d + "U.fits", d + "freq.dat", *[x for u in sc["use"] for x in use[u]], stdin="\n")]
    files = data.cubes(s, d, e["axis"])
    synth = [x for x in e["opts"] if x in ("-t", "-r", "-f", "-R")]
    if kind in ("assembled", "chunk"):
        n = -(-s["ny"] * s["nx"] // sc["per"])
        c = lambda x, k: f"{d}{x}.C{k:0{len(str(n))}d}.fits"   # noqa: E731
        m = ["-m"] if sc["m"] else []
        if kind == "chunk":
            k = int(sc["which"] * n)
            jobs = [cmd("rmtools_createchunks", d + "Q.fits", sc["per"], *m), cmd("rmtools_createchunks", d + "U.fits", sc["per"], *m),
                    cmd("rmsynth3d", c("Q", k), c("U", k), d + "freq.dat", "-o", "c_", "-t"),
                    cmd("rmclean3d", d + "c_FDF_real_dirty.fits", d + "c_RMSF_real.fits", "-c", "0.1", "-n", "30", "-o", "c_")]
            return files, jobs[: 4 if sc["last"] in ("synth", "cut") else 3]
        jobs = [cmd("rmtools_createchunks", d + "Q.fits", sc["per"], *m), cmd("rmtools_assemblechunks", c("Q", 0), "-f", d + "a.fits", *m)]
        jobs += [{"cut": cmd("rmtools_extractregion", d + "a.fits", d + "cut.fits", 1, s["nx"], 1, max(1, s["ny"] - 1)),
                  "chunks": cmd("rmtools_createchunks", d + "a.fits", sc["per"]), "freq": cmd("rmtools_freqfile", d + "a.fits", d + "f.out"),
                  "synth": cmd("rmsynth3d", d + "a.fits", d + "U.fits", d + "freq.dat", *synth)}[sc["last"]]]
        return files, jobs
    if kind == "freq":
        del files[d + "freq.dat"]
        return files, [cmd("rmtools_freqfile", d + "Q.fits", d + "f.dat"), cmd("rmsynth3d", d + "Q.fits", d + "U.fits", d + "f.dat", *synth)]
    if kind == "cut":
        box = [1, s["nx"], 1, max(1, s["ny"] - 1)]
        return files, [cmd("rmtools_extractregion", d + "Q.fits", d + "q.fits", *box), cmd("rmtools_extractregion", d + "U.fits", d + "u.fits", *box),
                       cmd("rmsynth3d", d + "q.fits", d + "u.fits", d + "freq.dat", *synth)]
    if kind == "clean":
        jobs = [cmd("rmsynth3d", d + "Q.fits", d + "U.fits", d + "freq.dat", *synth),
                cmd("rmclean3d", d + "FDF_real_dirty.fits", d + "RMSF_real.fits", "-c", "0.1", "-n", "30")]
        return files, jobs + [{"peak": cmd("rmtools_peakfitcube", d + "FDF_clean_real.fits", d + "freq.dat", d + "peak"),
                               "cut": cmd("rmtools_extractregion", d + "FDF_clean_tot.fits", d + "cut.fits", 1, 1, 1, s["ny"]),
                               "chunks": cmd("rmtools_createchunks", d + "CLEAN_nIter.fits", 2)}[sc["last"]]]
    if kind == "testdata":
        cat = {d + "cat.csv": catalog.CAT}
        return cat, [cmd("rmtools_testdata3D", d + "cat.csv", d + "t", set=catalog.SMALL3D),
                     cmd("rmsynth3d", d + "t/StokesQ.fits", d + "t/StokesU.fits", d + "t/freqs_Hz.dat", *synth)]
    raise KeyError(kind)


def run(sc, sim):
    start, jobs = script(sc)
    full, dry = dict(start), []
    for j in jobs:
        r = sim.run(full, j)
        cmpf.must_ok(r.p, f"stage {j['tool']}")
        dry.append((full, r.p))
        before, full = full, r.files
    outs = [p for p in cmpf.new_files(before, full) + cmpf.changed_files(before, full) if p in full]
    last = jobs[-1]
    for t in sc["trials"]:
        k = int(t["stage"] * (len(jobs) - 1))
        fl = judge.place([t["f"]], dry[k][1].counts, dry[k][1].log)
        if not fl:
            continue
        r = sim.run(dry[k][0], jobs[k], faults=fl)
        if r.p.ok and not r.p.crashed:
            sim.probe("crash_after_the_end")
            continue
        sim.probe("crashes")
        files = r.files
        for j in jobs[k + 1:]:                   # a script that goes on whatever happens
            q = sim.run(files, j)
            files = q.files
        what = f"`{last['tool']} {' '.join(last['argv'])}` after {jobs[k]['tool']} was stopped by {fl[0]['kind']} at #{fl[0]['k']}"
        if q.p.hung:
            raise Violation("hung", f"{what}: {q.p.describe()}")
        if q.p.ok:
            judge.same_products(outs, full, files, what + " exits with status 0", cls="taken", key=f"taken:{jobs[k]['tool']}:{last['tool']}")
            sim.probe("leftovers_were_enough")
        else:
            sim.probe("refused")


def nontrivial(sc, st):
    return st["probes"].get("refused", 0) > 0
