"""Commands running at the same time with different outputs do not disturb each other."""
from sim import catalog, judge
from sim.simctx import Violation

TOOLS = catalog.ALL
KINDS = ["crash", "crash_mut", "torn", "crash_w", "enospc", "eio", "open_eacces"]
DIRS = ["rmtools_peakfitcube", "rmtools_testdata1D", "rmtools_testdata3D"]     # may create the directory of their products
FAST = [t for t in catalog.TOOLS3] + ["rmtools_testdata1D", "rmtools_bwdepol"]


def partner(rng, e, tier):
    """A second configuration that may run beside e."""
    t = rng.choice(FAST + [e["tool"]]) if rng.random() < 0.6 else e["tool"]
    if "target" in e and rng.random() < 0.5:
        t = rng.choice(DIRS)
    q = catalog.gen(rng, t, tier)
    if rng.random() < 0.5:
        q["d"] = rng.choice(["b/", "in/b/"])
        return q
    # the same directory, the same inputs, other products
    q["d"], q["spec"], q["axis"] = e["d"], dict(e["spec"]), e["axis"]
    if t in catalog.TOOLS1 + ["rmtools_fitIcube", "rmtools_3DIrescale"]:
        for k in ("nanpix", "nanchan"):
            q["spec"].pop(k, None)
    if t in ("rmtools_fitIcube", "rmtools_3DIrescale", "rmsynth1dFITS") and q["axis"] == "4DSF":
        q["d"] = "b/"
    n = {"x": q["spec"]["nx"], "y": q["spec"]["ny"], "z": q["spec"]["nchan"]}     # limits drawn for another cube
    if "box" in q:
        q["box"] = [min(v, n[a]) for v, a in zip(q["box"], "xxyy")]
    if t == "rmtools_extractregion" and "-z" in q["opts"]:
        k = q["opts"].index("-z")
        q["opts"] = q["opts"][:k + 1] + [str(min(int(v), n["z"])) for v in q["opts"][k + 1:k + 3]] + q["opts"][k + 3:]
    if "pix" in q:
        q["pix"] = [min(int(v), n[a]) for v, a in zip(q["pix"], "xy")]
    for k in ("cols", "dims", "per", "fit", "synth", "pin", "clean"):
        if k in e and k in q:
            q[k] = e[k]
    if t in ("rmsynth1d", "rmclean1d", "rmtools_bwdepol", "qufit") and q.get("src") == e.get("src"):
        q["src"] = rng.choice([x for x in catalog.SRC if x != e["src"]])
        if rng.random() < 0.7:
            q["spec"] = dict(q["spec"], seed=rng.randrange(2**31))
    o = list(q["opts"])
    if t in ("rmsynth3d", "rmclean3d", "rmtools_fitIcube"):
        o = [x for x in o if x not in ("-o", "pre_")] + ["-o", rng.choice(["x_", "y_"])]
    elif t == "rmtools_createchunks":
        o = ["-p", e["d"] + "other"] if e["d"] else ["-p", "other"]
    elif t == "rmtools_extractregion":
        q["outf"] = rng.choice(["other.fits", "cut2.fits", "Q.Cut.fits", "img.C_2.fits"])
    elif t == "rmtools_freqfile":
        q["outf"] = "other.dat"
    elif t == "rmtools_3DIrescale":
        o = [x for x in o if x not in ("-o", "{d}at_")] + ["-o", "{d}by_"]
    elif t == "rmtools_assemblechunks":
        o = [x for x in o if not x.startswith(("-f", "out"))] + ["-f", "other.fits"]
    elif t in ("rmtools_calcRMSF", "rmtools_bwpredict"):
        o = ["{d}other.png" if x.startswith("{d}") else x for x in o]
        q["freq"] = e.get("freq", q["freq"])
        if t == "rmtools_calcRMSF" and ("-f" in o) != (q["freq"] == "parms"):
            q["freq"] = "parms" if "-f" in o else "file"
    q["opts"] = o
    if "target" in q:
        q["target"] = {"rmtools_peakfitcube": "maps/other"}.get(t, rng.choice(["o1", "o2/x"]))
    return q


def gen(rng, i, tier):
    es = [catalog.gen(rng, judge.pick_tool(rng, i, catalog.ALL), tier)]
    for _ in range(rng.choice([1, 1, 1, 2])):
        es.append(partner(rng, es[0], tier))
    if sum("target" in e for e in es) > 1 and rng.random() < 0.7:                  # into one directory that none of them finds
        new = rng.choice(["new", "maps", "new/deep", "a/b/c"])
        for k, e in enumerate(es):
            if "target" in e:
                e["target"] = f"{new}/{'pk_' if e['tool'] == 'rmtools_peakfitcube' else 't'}{k}"
                e["d"] = es[0]["d"]
    runs = []
    for _ in range(3 if tier == "quick" else 10):
        mode = rng.choice(["few", "few", "dense", "start"])
        n = {"few": rng.randint(1, 6), "dense": rng.randint(20, 60), "start": rng.randint(4, 12)}[mode]
        sw = [[rng.random() if mode != "start" else rng.random() * 0.05, rng.randrange(3)] for _ in range(n)]
        f = []
        if rng.random() < 0.4:
            f = [dict(judge.gen_fault(rng, KINDS, ["crash_w", "torn_w", "enospc_w"]), proc=rng.randrange(len(es)))]
        runs.append({"switches": sw, "faults": f, "choices": rng.randrange(2**31)})
        if rng.random() < 0.4:                   # preempted on the point of changing the directory
            runs[-1]["crit"] = {"seed": rng.randrange(2**31), "p": rng.choice([0.3, 0.7, 1.0]),
                                "kinds": rng.choice([["mkdir", "rmdir"], ["mkdir", "rename", "unlink"], ["open", "mkdir"]])}
            runs[-1]["switches"] = sw if rng.random() < 0.3 else []
    return {"es": es, "runs": runs}


def shrink(sc):
    if len(sc["runs"]) > 1:
        for r in sc["runs"]:
            yield dict(sc, runs=[r])
    else:
        r = sc["runs"][0]
        if r["faults"]:
            yield dict(sc, runs=[dict(r, faults=[])])
        if r.get("crit"):
            yield dict(sc, runs=[{k: v for k, v in r.items() if k != "crit"}])
        n = len(r["switches"])
        size = n
        while size >= 1:
            for a in range(0, n, size):
                yield dict(sc, runs=[dict(r, switches=r["switches"][:a] + r["switches"][a + size:])])
            size //= 2
    if len(sc["es"]) > 2:
        yield dict(sc, es=sc["es"][:2])


def run(sc, sim):
    refs, files = [], {}
    for e in sc["es"]:
        e = catalog.force(e)
        ref = judge.Ref(e, sim)
        mine = set(ref.products)
        clash = any(k in files and files[k] != v for k, v in ref.files.items())
        for o in refs:
            clash = clash or mine & set(o.products) or mine & set(o.files) or set(o.products) & set(ref.files)
        if clash:                                # not independent: would be a conflict of the user's own making
            sim.probe("skipped_dependent")
            continue
        refs.append(ref)
        files.update(ref.files)
    if len(refs) < 2:
        return
    total = sum(r.proc.nops for r in refs)
    for q in sc["runs"]:
        sw = {}
        for u, who in q["switches"]:
            sw[int(u * total)] = who
        fl = []
        for f in q["faults"]:
            k = f["proc"] % len(refs)
            g = {x: y for x, y in f.items() if x != "proc"}
            fl += [dict(x, proc=k) for x in judge.place([g], refs[k].counts, refs[k].proc.log)]
        jobs = [dict(r.job, name=f"j{k}") for k, r in enumerate(refs)]
        r = sim.run(files, jobs, faults=fl, switches=sorted(sw.items()), choices={"seed": q["choices"]}, crit=q.get("crit"))
        hit = {f["proc"] for f in fl}
        sim.probe("concurrent_runs")
        if sum(any(x[1] == "mkdir" for x in p.log) for p in r.procs) > 1:
            sim.probe("several_make_directories")
        if hit:
            sim.probe("with_faulty_neighbour")
        for k, (p, ref) in enumerate(zip(r.procs, refs)):
            if k in hit:
                continue
            what = f"beside {[x.job['tool'] + ' ' + ' '.join(x.job['argv']) for j, x in enumerate(refs) if j != k]}" + \
                   (f" (which suffers {fl})" if hit else "")
            if not p.ok:
                raise Violation("failed", f"{p.describe()} fails {what}", key="failed:" + ref.e["tool"])
            judge.same_products(ref.products, ref.after, r.files, f"`{ref.job['tool']} {' '.join(ref.job['argv'])}` {what}",
                                key="differs:" + ref.e["tool"])


def nontrivial(sc, st):
    return st["probes"].get("concurrent_runs", 0) > 0
