"""Results do not depend on what earlier runs (finished, failed or killed) left in the directory."""
import json

from sim import catalog, cmpf, judge
from sim.simctx import Violation

TOOLS = catalog.ALL
KINDS = ["crash", "crash_mut", "torn", "crash_w", "enospc", "eio", "open_eacces"]


def gen(rng, i, tier):
    t = judge.pick_tool(rng, i, catalog.ALL)
    e = catalog.gen(rng, t, tier)
    past = []
    for _ in range(rng.randint(1, 3 if tier == "quick" else 6)):
        if rng.random() < 0.35:                  # the same command on other data of the same shape
            p = json.loads(json.dumps(e))
            p["spec"]["seed"] = rng.randrange(2**31)
            if p["tool"] not in catalog.ONE and rng.random() < 0.5 and p["spec"].get("nchan", 0) > 6:           # other channels blank
                p["spec"]["nanchan"] = sorted(rng.sample(range(p["spec"]["nchan"]), rng.randint(1, 3))) if rng.random() < 0.7 else []
            past.append({"e": p, "faults": [judge.gen_fault(rng, KINDS, ["crash_w", "torn_w", "enospc_w"])] if rng.random() < 0.4 else []})
            continue
        p = catalog.gen(rng, t if rng.random() < 0.7 else rng.choice(catalog.TOOLS3[:7] + ["rmsynth1d", "qufit"]), tier)
        p["d"] = e["d"]
        if rng.random() < 0.5:
            p["spec"] = dict(e["spec"])
        if rng.random() < 0.5 and "target" in e:
            p["target"] = e["target"]
        h = {"e": p, "faults": [judge.gen_fault(rng, KINDS, ["crash_w", "torn_w", "enospc_w"])] if rng.random() < 0.6 else []}
        past.append(h)
    if t == "rmtools_3DIrescale" and rng.random() < 0.6:     # the maps of a model with more terms
        p = json.loads(json.dumps(e))
        p["fit"] = ["-p", rng.choice(["4", "5"])]
        p["opts"] = [o for o in p["opts"] if o != "-l"] if "-l" not in p["opts"] else []
        past[-1] = {"e": p, "faults": []}
    if t == "rmtools_assemblechunks" and rng.random() < 0.6:  # killed in the middle, an image of the same size with another header
        p = json.loads(json.dumps(e))
        p["spec"]["seed"], p["spec"]["hdr"] = rng.randrange(2**31), ["comment", "long", "many"] if not e["spec"].get("hdr") else []
        past[-1] = {"e": p, "faults": [{"kind": rng.choice(["crash_w", "crash_mut"]), "u": rng.random()}]}
    return {"e": e, "past": past}


def shrink(sc):
    for i in range(len(sc["past"])):
        if len(sc["past"]) > 1:
            yield dict(sc, past=sc["past"][:i] + sc["past"][i + 1:])
    for i, h in enumerate(sc["past"]):
        if h["faults"]:
            yield dict(sc, past=sc["past"][:i] + [dict(h, faults=[])] + sc["past"][i + 1:])
    yield from catalog.shrink(sc)


def run(sc, sim):
    e = sc["e"]
    ref = judge.Ref(e, sim)
    products = sorted(p for p in ref.after if p in set(catalog.expected(e, ref.files)))
    files, what, debris = {}, [], set()
    for h in sc["past"]:
        p = h["e"]
        files = {**files, **catalog.inputs(p)}
        for c in catalog.chain(p):
            files = sim.run(files, c).files
        j = catalog.job(p)
        if h["faults"]:
            dry = sim.run(files, j).p
            fl = judge.place(h["faults"], dry.counts, dry.log)
            r = sim.run(files, j, faults=fl)
        else:
            r = sim.run(files, j)
        if not r.p.ok:
            debris |= set(r.files) - set(files) - set(catalog.expected(p, files))
        files = r.files
        sim.probe("past_runs_ok" if r.p.ok else "past_runs_failed")
        what.append(f"{p['tool']} {' '.join(j['argv'])}" + ("" if r.p.ok else " (interrupted)"))
    files = {**files, **catalog.inputs(e)}
    f = catalog.force(e)
    lax = e["tool"] == "rmtools_assemblechunks"      # refusing surplus chunks of another split is right
    for c in catalog.chain(e):
        r = sim.run(files, c)
        cmpf.must_ok(r.p, f"stage {c['tool']} after {what}")
        files = r.files
    stale = [p for p in products if p in files and files[p] != ref.after[p]]
    r = sim.run(files, catalog.job(f))
    msg = f"`{f['tool']} {' '.join(catalog.job(f)['argv'])}` after {what}"
    if not r.p.ok:
        if lax:
            sim.probe("refused")
            return
        raise Violation("stuck", f"{msg} fails, in a fresh directory it does not: {r.p.describe()}", key="stuck:" + e["tool"])
    judge.same_products(products, ref.after, r.files, msg, key="differs:" + e["tool"])
    # (what a killed run had of a product that is written under another name first may go once the product is there)
    extra = [p for p in sorted(set(r.files) | set(files)) if not p.endswith("/") and p not in products and not catalog.scratch(e, p)
             and r.files.get(p) != files.get(p) and not (p in debris and p not in r.files)]
    if extra:
        raise Violation("extra", f"{msg}: {extra} changed as well, which a fresh run does not write", key="extra:" + e["tool"])
    sim.probe("compared")
    if stale:
        sim.probe("over_stale_products")


def nontrivial(sc, st):
    return st["probes"].get("compared", 0) > 0
