"""Existing outputs survive unless overwriting was asked for; with the option they are replaced."""
from sim import catalog, judge
from sim.simctx import Violation

TOOLS = ["rmtools_extractregion", "rmtools_assemblechunks", "rmtools_3DIrescale", "rmtools_createchunks", "rmtools_fitIcube", "rmsynth3d"]
MINE = TOOLS[:3]
KINDS = ["crash", "crash_mut", "torn", "crash_w", "enospc", "eio", "open_eacces", "open_eio", "eio_read", "closelost", "unlink_fail",
         "open_emfile", "enomem_map"]
FLAG = {"rmtools_3DIrescale": "-w"}


def gen(rng, i, tier):
    t = MINE[i % 3]
    e = catalog.gen(rng, t, tier)
    f = FLAG.get(t, "-o")
    e["opts"] = [x for x in e["opts"] if x != f]
    if t == "rmtools_assemblechunks" and rng.random() < 0.5:
        e["opts"] = [x for x in e["opts"] if x not in ("-f", "out.fits", "out2.fits")]
    steps = []
    for _ in range(rng.randint(3, 6) if tier == "quick" else rng.randint(6, 14)):
        steps.append({"force": rng.random() < 0.3, "have": rng.choice(["as_is", "as_is", "all", "some", "none", "one"]),
                      "what": rng.choice(["junk", "product", "cut"]), "sel": [rng.random() for _ in range(12)],
                      "fault": [judge.gen_fault(rng, KINDS)] if rng.random() < 0.5 else [], "in_place": rng.random() < 0.15})
    return {"e": e, "steps": steps}


def shrink(sc):
    yield from catalog.shrink(sc)


def run(sc, sim):
    e = sc["e"]
    t = e["tool"]
    flag = FLAG.get(t, "-o")
    plain = catalog.job(e)
    if t == "rmtools_assemblechunks":              # the catalogue adds the option to this one
        plain = dict(plain, argv=[a for a in plain["argv"] if a != flag])
    ref = judge.Ref(catalog.force(e), sim)
    outs = [p for p in ref.products]
    base = {k: v for k, v in ref.files.items() if k not in outs}
    disk = dict(base)
    for q in sc["steps"]:
        disk = {k: v for k, v in disk.items() if k in base or k in outs}
        if q["have"] != "as_is":
            disk = dict(base)
            pick = {"all": outs, "none": [], "one": [outs[int(q["sel"][0] * len(outs))]],
                    "some": [p for p, u in zip(outs, q["sel"]) if u < 0.5]}[q["have"]]
            for p in pick:
                b = ref.after[p]
                disk[p] = {"junk": b"precious " * 400, "product": b, "cut": b[:len(b) // 3]}[q["what"]]
        had = {p: disk[p] for p in outs if disk.get(p)}        # (an empty file has nothing to protect; astropy fills it)
        job = dict(plain, argv=plain["argv"] + ([flag] if q["force"] else []))
        if q["in_place"] and t == "rmtools_extractregion" and not q["force"]:
            job["argv"] = [job["argv"][0], job["argv"][0]] + job["argv"][2:]
            had = {job["argv"][0]: disk[job["argv"][0]]}
        fl = judge.place(q["fault"], ref.counts, ref.proc.log)
        r = sim.run(disk, job, faults=fl)
        what = f"`{t} {' '.join(job['argv'])}` with existing {sorted(had) or 'nothing'}" + (f" and {fl}" if fl else "")
        if r.p.hung:
            raise Violation("hung", f"{what}: {r.p.describe()}", key="hung:" + t)
        if not q["force"]:
            for p, b in had.items():
                if r.files.get(p) != b:
                    raise Violation("overwritten", f"{what}: {p} was {'changed' if p in r.files else 'removed'} although overwriting was "
                                                   f"not asked for", key="overwritten:" + t)
            if had:
                sim.probe("protected")
                if r.p.ok and not r.p.crashed:
                    raise Violation("silent", f"{what}: exit status 0", key="silent:" + t)
            elif r.p.ok:
                judge.same_products(outs, ref.after, r.files, what, key="differs:" + t)
                sim.probe("created")
            elif not fl:
                raise Violation("failed", f"{what}: {r.p.describe()}", key="failed:" + t)
        elif r.p.ok and not r.p.crashed:
            judge.same_products(outs, ref.after, r.files, what, key="differs:" + t)
            sim.probe("replaced")
        elif not fl:
            raise Violation("failed", f"{what}: {r.p.describe()}", key="failed:" + t)
        disk = r.files


def nontrivial(sc, st):
    return st["probes"].get("protected", 0) > 0
