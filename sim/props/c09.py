"""Killed at any point and run again: the products are those of an undisturbed run."""
from sim import catalog, judge
from sim.simctx import Violation

TOOLS = catalog.ALL
KINDS = ["crash", "crash_mut", "crash_mut", "torn", "crash_w", "crash_c", "torn_w"]
BYFILE = ["crash_w", "torn_w", "crash_c"]


def gen(rng, i, tier):
    t = judge.pick_tool(rng, i, catalog.ALL, ("rmsynth1d", "rmclean1d", "rmsynth1dFITS", "rmtools_calcRMSF", "rmtools_bwpredict"))
    e = catalog.gen(rng, t, tier)
    trials = []
    for _ in range(6 if tier == "quick" else 16):
        n = rng.choice([1, 1, 1, 2, 3])
        trials.append([dict(judge.gen_fault(rng, KINDS, BYFILE)) for _ in range(n)])
    return {"e": e, "trials": trials, "kill_errors": rng.random() < 0.3}


def shrink(sc):
    for t in sc["trials"]:
        if len(sc["trials"]) > 1:
            yield dict(sc, trials=[t])
    for i, t in enumerate(sc["trials"]):
        for j in range(len(t)):
            if len(t) > 1:
                yield dict(sc, trials=sc["trials"][:i] + [t[:j] + t[j + 1:]] + sc["trials"][i + 1:])
    yield from catalog.shrink(sc)


def run(sc, sim):
    e = sc["e"]
    ref = judge.Ref(e, sim)
    again = catalog.job(catalog.force(e))
    for t in sc["trials"]:
        files, job, counts, log, hist = ref.files, ref.job, ref.counts, ref.proc.log, []
        for f in t:
            fl = judge.place([f], counts, log)
            if not fl:
                continue
            r = sim.run(files, job, faults=fl)
            hist.append(f"{fl[0]['kind']} at #{fl[0]['k']}")
            if r.p.hung:
                raise Violation("hung", f"{hist}: {r.p.describe()}")
            if r.p.ok and not r.p.crashed:
                sim.probe("crash_after_the_end")
            else:
                sim.probe("crashes")
            files = r.files
            job = again
        r = sim.run(files, again)
        what = f"`{ref.job['tool']} {' '.join(again['argv'])}` run again after {', '.join(hist) or 'nothing'}"
        if not r.p.ok:
            raise Violation("stuck", f"{what} does not complete: {r.p.describe()}", key="stuck:" + e["tool"])
        judge.same_products(ref.products, ref.after, r.files, what, cls="differs", key="differs:" + e["tool"])
        sim.probe("recoveries")


def nontrivial(sc, st):
    return st["probes"].get("crashes", 0) > 0
