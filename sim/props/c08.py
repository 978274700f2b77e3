"""Exit status 0 means that every product is there, complete and right, whatever the storage did."""
from sim import catalog, judge
from sim.simctx import Violation

TOOLS = catalog.ALL
KINDS = ["enospc", "enospc", "enospc", "enospc_once", "eio", "eio", "closelost", "closefail", "open_eacces", "open_emfile", "open_eio",
         "eio_read", "enomem_map", "mkdir_fail", "short", "short", "short_read", "msync_fail", "unlink_fail", "rename_fail", "fsync_eio"]
RARE = ["rename_fail", "unlink_fail", "mkdir_fail", "fsync_eio", "msync_fail", "enomem_map", "short"]
FILE_KINDS = ["enospc_once_w", "enospc_once_w", "eio", "eio", "closelost", "closefail", "open_eacces"]


def gen(rng, i, tier):
    t = judge.pick_tool(rng, i, catalog.ALL)
    e = catalog.gen(rng, t, tier)
    trials = []
    n = 9 if tier == "quick" else 18             # every file the tool writes gets its share of passing faults
    for j in range(n):
        trials.append([{"kind": rng.choice(FILE_KINDS), "u": rng.choice([0.0, rng.random(), 0.999]), "file": (j + rng.random()) / n,
                        "arg": round(rng.random(), 3)}])
    for _ in range(5 if tier == "quick" else 12):
        trials.append([judge.gen_fault(rng, KINDS) for _ in range(rng.choice([1, 1, 1, 2]))])
    stale = rng.random() < 0.3
    for k in RARE:                               # operations that few tools perform, and those once or twice
        trials.append([{"kind": k, "u": rng.random()}])
    return {"e": e, "trials": trials, "stale": stale}


def shrink(sc):
    for t in sc["trials"]:
        if len(sc["trials"]) > 1:
            yield dict(sc, trials=[t])
    for i, t in enumerate(sc["trials"]):
        for j in range(len(t)):
            if len(t) > 1:
                yield dict(sc, trials=sc["trials"][:i] + [t[:j] + t[j + 1:]] + sc["trials"][i + 1:])
    if sc["stale"]:
        yield dict(sc, stale=False)
    yield from catalog.shrink(sc)


def run(sc, sim):
    ref = judge.Ref(sc["e"], sim)
    start = dict(ref.files)
    if sc["stale"] and catalog.overwrites(sc["e"]):
        for p in ref.products:                  # leftovers of an earlier run under the product names
            if p not in start:
                start[p] = ref.after[p][: len(ref.after[p]) // 2] if p.endswith((".fits", ".dat")) else b"old"
    ok = bad = 0
    for t in sc["trials"]:
        fl = judge.place(t, ref.counts, ref.proc.log)
        if not fl:
            continue
        r = sim.run(start, ref.job, faults=fl)
        if r.p.hung:
            raise Violation("hung", f"storage fault {fl} makes the tool hang: {r.p.describe()}")
        if r.p.ok:
            ok += 1
            judge.same_products(ref.products, ref.after, r.files, f"exit status 0 after {fl}: `{ref.job['tool']}`",
                                cls="false-success", key="false-success:" + ref.job["tool"])
        else:
            bad += 1
    sim.probe("runs_reporting_failure", bad)
    sim.probe("runs_reporting_success", ok)


def nontrivial(sc, st):
    return sum(st["faults"].values()) > 0
