"""Worker faults: no hang, and exit status 0 only with the products of an undisturbed run."""
import io

import numpy as np

from sim import catalog, cmpf, data, judge
from sim.simctx import Violation, lib

TOOLS = ["rmsynth3d", "rmclean3d", "rmtools_fitIcube", "rmtools_3DIrescale"]
EXC = ["MemoryError", "OSError", "RuntimeError"]


def gen(rng, i, tier):
    t = ["rmclean3d", "rmtools_fitIcube", "rmtools_3DIrescale", "rmtools_fitIcube", "lib"][i % 5]
    e = catalog.gen(rng, "rmclean3d" if t == "lib" else t, tier)
    o = e["opts"]
    for k in ("-n", "-c", "--ncores", "--chunk") if t != "rmclean3d" and t != "lib" else ("--ncores", "--chunk"):
        while k in o:
            j = o.index(k)
            o = o[:j] + o[j + 2:]
    n = rng.choice([1, 2, 2, 3, 4, 6])
    sc = {"t": t, "e": e, "n": n, "trials": []}
    if t == "rmclean3d":
        n = max(2, n)
        o = o + ["--ncores", n] + rng.choice([[], ["--chunk", rng.choice([1, 2, 5])]])
    elif t == "rmtools_fitIcube":
        o = o + ["-n", n, "-c", rng.choice([1, 2, 3])]
    elif t == "rmtools_3DIrescale":
        o = o + ["-n", n]
    else:
        sc["api"] = rng.choice(["mp", "thread", "schwim"])
        sc["chunk"] = rng.choice([None, 1, 2, 4])
    if t == "rmtools_fitIcube" and rng.random() < 0.4 and "-v" not in o:
        o = o + ["-v"]
    e["opts"] = [str(x) for x in o]
    for _ in range(5 if tier == "quick" else 12):
        fs = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            k = rng.choice(["task_raise", "task_raise", "worker_die", "worker_die", "fork_fail"])
            if t == "lib" and k == "worker_die":         # the pool, and what it does about dead workers, is the caller's
                k = "task_raise"
            fs.append({"kind": k, "u": rng.random(), "exc": rng.choice(EXC),
                       "line": rng.choice([0, 1, 2, 3, 5, 8, 12, 20, 30, 60])})
        sc["trials"].append({"faults": fs, "choices": {"seed": rng.randrange(2**31), "bias": rng.choice([0, 0, 0.5, 0.9])},
                             "start": rng.choice([None, None, "fork", "spawn"]), "eager": rng.random() < 0.6})
    return sc


def shrink(sc):
    for t in sc["trials"]:
        if len(sc["trials"]) > 1:
            yield dict(sc, trials=[t])
    if len(sc["trials"]) == 1:
        t = sc["trials"][0]
        if len(t["faults"]) > 1:
            for f in t["faults"]:
                yield dict(sc, trials=[dict(t, faults=[f])])
        for k, v in (("start", None), ("eager", True)):
            if t[k] != v:
                yield dict(sc, trials=[dict(t, **{k: v})])
    yield from catalog.shrink(sc)


def job(sc, base, pool):
    if sc["t"] != "lib":
        return dict(base, pool=pool)
    a = base["argv"]
    return lib("sim.props.c04:lib_clean", a[0], a[1], sc["api"], sc["n"], sc["chunk"], pool=pool)


def lib_clean(fdf, rmsf, api, n, chunk):
    """A library caller's own pool; whatever the call raises reaches the caller."""
    import multiprocessing
    import multiprocessing.pool

    from RMtools_3D.do_RMclean_3D import run_rmclean

    if api == "mp":
        pool = multiprocessing.Pool(n)
    elif api == "thread":
        pool = multiprocessing.pool.ThreadPool(n)
    else:
        import schwimmbad

        pool = schwimmbad.choose_pool(mpi=False, processes=n)
    c, cc, it, res, head = run_rmclean(fdf, rmsf, 0.1, maxIter=50, gain=0.1, pool=pool, chunksize=chunk, log=lambda *a, **k: None)
    np.savez("ret.npz", c=c, cc=cc, it=it, res=res)


def run(sc, sim):
    e = sc["e"]
    files, base = catalog.prepare(e, sim)
    r = sim.run(files, job(sc, base, {}))
    cmpf.must_ok(r.p, "undisturbed run")
    after = r.files
    prods = [p for p in cmpf.new_files(files, after) + cmpf.changed_files(files, after) if p in after]
    if not prods:
        raise Violation("products", "the command wrote nothing")
    tasks, forks = r.p.pool.get("tasks", 0), r.p.pool.get("forks", 0)
    sim.probe("tasks_seen", tasks)
    again = dict(base, argv=catalog.job(catalog.force(e))["argv"]) if sc["t"] != "lib" else base

    def same(got, what, cls):
        for p in prods:
            if p not in got:
                raise Violation(cls, f"{what}: product {p} is missing", key=f"{cls}:{sc['t']}")
            if p.endswith(".npz"):
                a, b = np.load(io.BytesIO(after[p])), np.load(io.BytesIO(got[p]))
                for k in a:
                    cmpf.same_array(a[k], b[k], f"{what}: returned {k}", exact=cmpf.ROUNDING, cls=cls, key=f"{cls}:{sc['t']}")
            else:
                judge.same_product(p, after[p], got[p], what, cls=cls, key=f"{cls}:{sc['t']}")

    for t in sc["trials"]:
        fl = []
        for f in t["faults"]:
            n = forks if f["kind"] == "fork_fail" else tasks
            if n:
                fl.append({"kind": f["kind"], "at": 1 + int(f["u"] * n), "exc": f["exc"], "line": f.get("line", 0)})
        if not fl:
            continue
        pool = {"faults": fl, "start_method": t["start"], "eager": t["eager"]}
        r = sim.run(files, job(sc, base, pool), choices=t["choices"])
        what = f"`{' '.join(str(a) for a in [sc['t']] + base['argv'])}` with " + ", ".join(f"{f['kind']} #{f['at']}" for f in fl)
        fired = set(r.p.pool["faults"])
        if r.p.hung:
            how = "exit" if "waits at exit" in r.p.err else "wait"
            mode = "-v" if "-v" in e["opts"] and sc["t"] == "rmtools_fitIcube" else ""
            sim.fail(Violation("hung", f"{what}: {r.p.describe()}", key=f"hung:{sc['t']}{mode}:{how}:"
                               + next((k for k in ("worker_die", "fork_fail", "task_raise") if k in fired), "undisturbed")))
        if fired:
            sim.probe("disturbed")
            sim.probe("refused" if not r.p.ok else "completed")
        if r.p.ok:
            same(r.files, what, "wrong")
        r2 = sim.run(r.files, job(sc, again, {}))
        if not r2.p.ok:
            raise Violation("stuck", f"{what}, run again: {r2.p.describe()}", key="stuck:" + sc["t"])
        same(r2.files, what + ", run again", "rerun")


def nontrivial(sc, st):
    return st["probes"].get("disturbed", 0) > 0
