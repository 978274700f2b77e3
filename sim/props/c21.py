"""Ctrl-C or a failed allocation at any line: a reported failure, or the right products."""
from sim import catalog, judge
from sim.simctx import Violation

TOOLS = catalog.ALL


def gen(rng, i, tier):
    t = judge.pick_tool(rng, i, catalog.ALL)
    e = catalog.gen(rng, t, tier)
    n = 7 if tier == "quick" else 24
    trials = [{"exc": rng.choice(["KeyboardInterrupt", "MemoryError"]), "mode": rng.choice(["all", "new", "new", "body"]), "u": (k + rng.random()) / n,
               "again": rng.random() < 0.25} for k in range(n)]
    m = 3 if tier == "quick" else 8
    trials += [{"exc": x, "mode": "try", "u": (k + rng.random()) / m, "again": False} for k in range(m) for x in ("KeyboardInterrupt", "MemoryError")]
    trials += [{"exc": rng.choice(["KeyboardInterrupt", "MemoryError"]), "mode": "enter", "u": (k + rng.random()) / (2 * m), "again": False} for k in range(2 * m)]
    return {"e": e, "trials": trials}


def shrink(sc):
    if len(sc["trials"]) > 1:
        for t in sc["trials"]:
            yield dict(sc, trials=[t])
    for k, t in enumerate(sc["trials"]):
        if t["again"]:
            yield dict(sc, trials=sc["trials"][:k] + [dict(t, again=False)] + sc["trials"][k + 1:])
    yield from catalog.shrink(sc)


def run(sc, sim):
    e = sc["e"]
    ref = judge.Ref(e, sim, count_lines=True)
    lines = {n[0][6:]: n[1] for n in ref.proc.notes if n[0].startswith("lines:")}
    job = {k: v for k, v in ref.job.items() if k != "count_lines"}
    again = catalog.job(catalog.force(e))
    sim.probe("sites_under_try", lines["try"])
    for t in sc["trials"]:
        if not lines[t["mode"]]:
            continue
        at = 1 + int(t["u"] * lines[t["mode"]])
        r = sim.run(ref.files, dict(job, interrupt={"exc": t["exc"], "mode": t["mode"], "at": at}))
        where = next((x for x in r.p.err.splitlines() if x.startswith("simulator: ") and " at " in x), "simulator: not reached")[11:]
        what = f"`{e['tool']} {' '.join(job['argv'])}` with {where}"
        if r.p.hung:
            raise Violation("hung", f"{what}: {r.p.describe()}")
        site = where.rsplit(" ", 1)[-1].rsplit(":", 1)[0]
        if r.p.ok:
            sim.probe("struck_without_effect")
            judge.same_products(ref.products, ref.after, r.files, what + " exits with status 0", cls="false-success",
                                key=f"false-success:{e['tool']}:{t['exc']}:{site}")
        else:
            sim.probe("struck_and_reported")
        if t["again"]:
            q = sim.run(r.files, again)
            if not q.p.ok:
                raise Violation("stuck", f"{what}, run again: {q.p.describe()}", key="stuck:" + e["tool"])
            judge.same_products(ref.products, ref.after, q.files, what + ", run again", key="differs:" + e["tool"])
            sim.probe("recoveries")


def nontrivial(sc, st):
    return st["probes"].get("struck_and_reported", 0) > 0
