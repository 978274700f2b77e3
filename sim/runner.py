"""A simulation runner: a fresh interpreter under the preload seam that executes scenarios of one property."""
import argparse
import faulthandler
import hashlib
import importlib
import json
import os
import random
import sys
import time
import traceback

REPO = os.environ.get("RMTSIM_REPO", "/repo")


def bootstrap(prop_id):
    sys.path[:] = [p for p in sys.path if os.path.realpath(p or ".") != os.path.realpath(REPO)]
    sys.path.insert(0, REPO)
    from . import pools, shim

    shim.lib()
    pools.install()
    prop = importlib.import_module(f"sim.props.{prop_id.lower()}")
    from . import child

    child.preload(prop.TOOLS)
    import RMutils

    if not os.path.realpath(RMutils.__file__).startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit(f"the code under test was imported from {RMutils.__file__}, not {REPO}")
    return prop


def scenario_for(prop, prop_id, seed, i, tier):
    rng = random.Random(f"{prop_id}:{seed}:{i}")
    return prop.gen(rng, i, tier)


def attempt(prop, sim, sc, override=None):
    """Run one scenario.  Returns (violation or None)."""
    from .simctx import Violation

    sim.reset_stats()
    sim.override = override or {}
    sim.recorded = {}
    sim.lastrun = None
    sim.nworld = 0
    sim.noted = []
    try:
        prop.run(sc, sim)
        return sim.noted[0] if sim.noted else None
    except Violation as v:
        return v
    except (KeyError, IndexError, ValueError, TypeError, ArithmeticError) as e:
        if sim.lastrun is None:
            raise
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return Violation("judge", f"the products cannot be interpreted: {e!r} ({os.path.basename(tb.filename)}:{tb.lineno})",
                         f"judge:{type(e).__name__}")
    return None


def default_shrinks(sc):
    """Candidate simplifications of a scenario: fewer faults, fewer preemptions."""
    for key in ("faults", "switches", "steps"):
        v = sc.get(key)
        if isinstance(v, list) and v:
            n = len(v)
            size = n
            while size >= 1:
                for a in range(0, n, size):
                    c = dict(sc)
                    c[key] = v[:a] + v[a + size:]
                    yield c
                size //= 2
    p = sc.get("pool")
    if isinstance(p, dict) and p.get("faults"):
        for i in range(len(p["faults"])):
            c = dict(sc)
            c["pool"] = dict(p, faults=p["faults"][:i] + p["faults"][i + 1:])
            yield c


def minimise(prop, sim, sc, v, budget):
    end = time.monotonic() + budget
    best, override = sc, dict(sim.recorded)
    tries = 0

    def still(c, ov):
        nonlocal tries
        tries += 1
        try:
            w = attempt(prop, sim, c, ov)
        except Exception:
            return None
        return w if w is not None and w.cls == v.cls and w.key == v.key else None

    shrinkers = [default_shrinks] + ([prop.shrink] if hasattr(prop, "shrink") else [])
    changed = True
    while changed and time.monotonic() < end:
        changed = False
        for sh in shrinkers:
            for c in sh(best):
                if time.monotonic() > end:
                    break
                if c == best:
                    continue
                w = still(c, None)
                if w is not None:
                    best, v, changed = c, w, True
                    override = dict(sim.recorded)
                    break
            if changed:
                break
    # decisions: set runs of recorded choices to 0 (first runnable)
    w = still(best, override)
    if w is not None:
        v = w
        for k in sorted(override):
            lst = override[k]
            for cand in ([], lst[: len(lst) // 2], lst[: len(lst) // 4]):
                if time.monotonic() > end or len(cand) >= len(override[k]):
                    continue
                ov = dict(override)
                ov[k] = list(cand)
                w = still(best, ov)
                if w is not None:
                    override, v = ov, w
                    break
            size = max(1, len(override[k]) // 2)
            while size >= 1 and time.monotonic() < end and len(override[k]) <= 400:
                for a in range(0, len(override[k]), size):
                    if time.monotonic() > end:
                        break
                    cand = list(override[k])
                    if not any(cand[a:a + size]):
                        continue
                    cand[a:a + size] = [0] * len(cand[a:a + size])
                    ov = dict(override)
                    ov[k] = cand
                    w = still(best, ov)
                    if w is not None:
                        override, v = ov, w
                size //= 2
    else:
        override = {}
    w = still(best, override)
    return best, override, (w or v), tries, w is not None


def trace_of(sim):
    r = sim.lastrun
    if r is None:
        return None
    out = []
    for p in r.procs:
        ev = [" ".join(str(x) for x in (f"w{e[0]}",) + e[1:3] + (e[3],) + ((e[4],) if e[4] else ()) +
                       ((f"<<{e[5]}>>",) if e[5] else ())) for e in p.log]
        if len(ev) > 120:
            hits = [f"#{i}: {x}" for i, x in enumerate(ev) if "<<" in x]
            ev = ev[:20] + [f"... {len(ev) - 60} more ..."] + hits + ev[-40:]
        out.append({"process": p.describe(), "events": ev})
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--base", required=True)
    ap.add_argument("--out", required=True)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--indices", default="")           # "start:stop:stride"
    ap.add_argument("--deadline", type=float, default=1e12)   # unix time
    ap.add_argument("--replay")
    ap.add_argument("--known", default="")
    ap.add_argument("--shrink-budget", type=float, default=60)
    a = ap.parse_args()
    from . import shim

    shim.die_with_parent()
    faulthandler.enable()
    out = open(a.out, "w", buffering=1)

    def emit(**kw):
        out.write(json.dumps(kw) + "\n")

    try:
        prop = bootstrap(a.prop)
    except BaseException:
        emit(kind="error", where="import", tb=traceback.format_exc())
        return 3
    from .simctx import Sim

    os.makedirs(a.base, exist_ok=True)
    sim = Sim(a.base, timeout=getattr(prop, "TIMEOUT", 60.0))
    known = sim.known = set(json.loads(a.known)) if a.known else set()
    import gc

    gc.collect()
    gc.freeze()
    if a.replay:
        with open(a.replay) as f:
            rp = json.load(f)
        ov = {int(k): v for k, v in (rp.get("choices") or {}).items()}
        try:
            v = attempt(prop, sim, rp["scenario"], ov)
        except Exception:
            emit(kind="error", where="replay", tb=traceback.format_exc())
            return 3
        emit(kind="replay", cls=v.cls if v else None, msg=v.msg if v else None, key=v.key if v else None,
             loghash=sim.loghash.hexdigest())
        return 0
    start, stop, stride = (int(x) for x in a.indices.split(":"))
    for i in range(start, stop, stride):
        if time.time() > a.deadline:
            emit(kind="deadline", index=i)
            break
        t = time.monotonic()
        try:
            sc = scenario_for(prop, a.prop, a.seed, i, a.tier)
            sc = json.loads(json.dumps(sc))
            v = attempt(prop, sim, sc)
        except Exception:
            emit(kind="error", where=f"scenario {i}", tb=traceback.format_exc())
            return 3
        st = dict(sim.stats)
        st["interleavings"] = sorted(st["interleavings"])
        rec = dict(kind="run", index=i, stats=st, loghash=sim.loghash.hexdigest(), wall=time.monotonic() - t,
                   shape=hashlib.sha1(json.dumps(sc, sort_keys=True).encode()).hexdigest()[:12],
                   nontrivial=bool(prop.nontrivial(sc, sim.stats)))
        if i < 3 or v:
            rec["scenario"] = sc
        if v is None:
            emit(**rec)
            continue
        if v.key in known:
            rec["known"] = v.key
            rec["msg"] = v.msg
            emit(**rec)
            continue
        emit(**rec)
        first = v
        best, override, v, tries, stable = minimise(prop, sim, sc, v, a.shrink_budget)
        emit(kind="violation", index=i, cls=v.cls, key=v.key, msg=v.msg, scenario=best, original=sc,
             choices={str(k): x for k, x in override.items() if x}, tries=tries, stable=stable,
             first=first.msg, trace=trace_of(sim))
        break
    emit(kind="end")
    return 0


if __name__ == "__main__":
    sys.exit(main())
