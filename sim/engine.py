"""check entry point: python -m sim.engine <PROPERTY> [--tier quick|thorough] [--replay FILE]

Runs a fixed, seed-determined set of simulated scenarios of one property over
several runner processes and writes the evidence file.
Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Exit 2: the harness failed.
"""
import argparse
import ctypes
import importlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get("RMTSIM_PYTHON", "/opt/venv/bin/python")
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


def scratch():
    for d in ("/dev/shm", tempfile.gettempdir()):
        try:
            return tempfile.mkdtemp(prefix="rmtsim.", dir=d)
        except OSError:
            continue
    raise RuntimeError("no scratch space")


def runner_env(so, hashseed, base):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "RMTSIM_GUARD"))}
    env.update(LD_PRELOAD=so, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONWARNINGS="ignore",
               TZ="UTC", LC_ALL="C.UTF-8", HOME=base, PYTHONPATH=VERIF, COLUMNS="80")
    env.setdefault("MPLCONFIGDIR", "/opt/venv/mplconfig" if os.path.isdir("/opt/venv/mplconfig") else base)
    return env


def launch(prop, so, base, out, hashseed, extra):
    os.makedirs(base, exist_ok=True)
    try:
        ctypes.CDLL(None).personality(0x0040000)       # no address space randomisation: one seed, one memory layout
    except (OSError, AttributeError):
        pass
    log = open(os.path.join(base, "runner.log"), "wb")
    p = subprocess.Popen([PY, "-m", "sim.runner", prop, "--base", base, "--out", out] + extra,
                         cwd=VERIF, env=runner_env(so, hashseed, base), stdin=subprocess.DEVNULL, stdout=log, stderr=log,
                         start_new_session=True)
    log.close()
    return p


def read_out(path):
    recs = []
    try:
        with open(path) as f:
            for line in f:
                try:
                    recs.append(json.loads(line))
                except ValueError:
                    pass
    except OSError:
        pass
    return recs


def known_for(prop):
    """Lines `known: property=<id> key=<key> <what fails>`; lines starting `fixed:` suppress nothing."""
    out = []
    try:
        with open(KNOWN) as f:
            for line in f:
                w = line.strip().split(None, 3)
                if len(w) == 4 and w[0] == "known:" and w[1] == f"property={prop}" and w[2].startswith("key="):
                    out.append({"key": w[2][4:].replace("~", " "), "what": w[3]})
    except OSError:
        pass
    return out


def do_replay(prop, so, top, path, tag, hashseed=77):
    out = os.path.join(top, f"replay-{tag}.jsonl")
    with open(path) as f:                    # findings other than the one in the file are noted and passed over
        mine = json.load(f).get("key")
    other = [k["key"] for k in known_for(prop) if k["key"] != mine]
    p = launch(prop, so, os.path.join(top, f"replay-{tag}"), out, hashseed, ["--replay", os.path.abspath(path), "--known", json.dumps(other)])
    try:
        p.wait(300)
    except subprocess.TimeoutExpired:
        kill(p)
    for r in read_out(out):
        if r["kind"] in ("replay", "error"):
            return r
    return {"kind": "error", "tb": "no answer from the replay runner"}


def descendants(pid):
    kids = {}
    for d in os.listdir("/proc"):
        if d.isdecimal():
            try:
                with open(f"/proc/{d}/stat") as f:
                    kids.setdefault(int(f.read().rsplit(")", 1)[1].split()[1]), []).append(int(d))
            except (OSError, IndexError):
                pass
    out, todo = [], [pid]
    while todo:
        for c in kids.get(todo.pop(), []):
            out.append(c)
            todo.append(c)
    return out


def kill(p):
    """End a runner and the simulated processes it has started (each is a session of its own)."""
    below = descendants(p.pid)
    try:
        os.killpg(p.pid, 9)
    except ProcessLookupError:
        pass
    p.wait()
    for pid in below:
        try:
            os.kill(pid, 9)
        except ProcessLookupError:
            pass


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--n", type=int)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--only", type=int, help="run one scenario index")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    sys.path.insert(0, VERIF)
    from sim import shim

    so = shim.build()
    meta = importlib.import_module(f"sim.props.meta").PROPS[a.prop]
    top = scratch()
    try:
        return run(a, meta, so, top, t0)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def run(a, meta, so, top, t0):
    if a.replay:
        r = do_replay(a.prop, so, top, a.replay, "r")
        if r["kind"] == "error":
            print(r["tb"], file=sys.stderr)
            return 2
        if r["cls"]:
            print(f"replayed: {r['msg']}")
            print(f"VIOLATION property={a.prop} replay={os.path.abspath(a.replay)}")
            return 1
        print("replay: the property held")
        return 0
    n = a.n or meta["n"][a.tier]
    W = a.workers or min(8, os.cpu_count() or 8)
    first = 0
    if a.only is not None:
        first, n, W = a.only, a.only + 1, 1
    limit = meta.get("limit", {}).get(a.tier, 560 if a.tier == "quick" else 780)
    deadline = t0 + limit
    known = known_for(a.prop)
    keys = json.dumps([k["key"] for k in known])
    procs = []
    det = min(W, meta.get("determinism", 2), n) if a.only is None else 0
    for w in range(min(W, n - first)):
        out = os.path.join(top, f"out{w}.jsonl")
        extra = ["--seed", str(a.seed), "--tier", a.tier, "--indices", f"{first + w}:{n}:{W}", "--deadline",
                 str(deadline), "--known", keys, "--shrink-budget", "60" if a.tier == "quick" else "150"]
        procs.append((w, out, launch(a.prop, so, os.path.join(top, f"r{w}"), out, 100 + w, extra)))
    # a second, differently hashed and differently partitioned pass over the first scenarios
    detp = None
    live = list(procs)
    hard = deadline + 150
    stop = False
    while live and not stop:
        time.sleep(0.1)
        for x in list(live):
            if x[2].poll() is not None:
                live.remove(x)
                if any(r["kind"] in ("violation", "error") for r in read_out(x[1])):
                    stop = True
        if time.time() > hard:
            for x in live:
                kill(x[2])
            print("harness: a runner overran its limit", file=sys.stderr)
            write_evidence(a, meta, [], t0, 0, {})
            return 2
    for x in live:
        kill(x[2])
    recs, viol, errs, ended = [], [], [], 0
    for w, out, p in procs:
        rr = read_out(out)
        recs += [r for r in rr if r["kind"] == "run"]
        viol += [r for r in rr if r["kind"] == "violation"]
        errs += [(w, r) for r in rr if r["kind"] == "error"]
        ended += any(r["kind"] == "end" for r in rr)
        if not stop and not any(r["kind"] in ("end", "error") for r in rr):
            with open(os.path.join(top, f"r{w}", "runner.log"), errors="replace") as f:
                errs.append((w, {"tb": f"runner {w} died (status {p.returncode})\n" + f.read()[-3000:]}))
    recs.sort(key=lambda r: r["index"])
    viol.sort(key=lambda r: r["index"])
    status, confirmed = 0, 0
    for v in viol:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", f"{a.prop}-s{a.seed}-i{v['index']}.json")
        doc = {"property": a.prop, "seed": a.seed, "index": v["index"], "class": v["cls"], "key": v["key"],
               "violation": v["msg"], "scenario": v["scenario"], "choices": v["choices"], "minimiser_runs": v["tries"],
               "trace": v["trace"], "replay_with": f"python -m sim.engine {a.prop} --replay <this file>  (in /verif)"}
        with open(path, "w") as f:
            json.dump(doc, f, indent=1)
        r = do_replay(a.prop, so, top, path, str(v["index"]))
        if not r.get("cls"):
            doc["scenario"], doc["choices"], doc["violation"] = v["original"], {}, v["first"]
            with open(path, "w") as f:
                json.dump(doc, f, indent=1)
            r = do_replay(a.prop, so, top, path, str(v["index"]) + "o")
        if r.get("cls"):
            confirmed += 1
            print(f"{a.prop}: {r['msg']}")
            print(f"VIOLATION property={a.prop} replay={path}")
            status = 1
        else:
            print(f"{a.prop}: scenario {v['index']} failed once ({v['msg']}) but its replay does not: {r}", file=sys.stderr)
            errs.append((-1, {"tb": "unreproducible: " + str(v["msg"])}))
    extra = {}
    if not status and not errs and det:
        extra["determinism"] = determinism(a, so, top, recs, det)
    for k in known:
        hit = [r for r in recs if r.get("known") == k["key"]]
        print(f"KNOWN-FINDING: property={a.prop} {k['what']}")
        extra.setdefault("known_findings_hit", {})[k["key"]] = len(hit)
    if errs and not status:
        for w, e in errs[:2]:
            print(f"harness error (runner {w}): {e.get('where', '')}\n{e['tb']}", file=sys.stderr)
        status = 2
    if not a.no_evidence:
        write_evidence(a, meta, recs, t0, confirmed, extra)
    done = len(recs)
    print(f"{a.prop}: {done} of {n - first} scenarios, {sum(r['stats']['processes'] for r in recs)} simulated processes, "
          f"{sum(r['stats']['ops'] for r in recs)} scheduled operations, {time.time() - t0:.1f} s -> "
          f"{'ok' if status == 0 else 'VIOLATED' if status == 1 else 'harness error'}")
    return status


def determinism(a, so, top, recs, k):
    """Repeat the first scenarios in one other interpreter (other hash seed, other partition); diff the event logs."""
    idx = [r for r in recs if r["index"] < k]
    out = os.path.join(top, "det.jsonl")
    p = launch(a.prop, so, os.path.join(top, "det"), out, random.Random(a.seed).randrange(1, 2**31),
               ["--seed", str(a.seed), "--tier", a.tier, "--indices", f"0:{k}:1", "--deadline", str(time.time() + 90),
                "--known", json.dumps([x["key"] for x in known_for(a.prop)])])
    try:
        p.wait(150)
    except subprocess.TimeoutExpired:
        kill(p)
    other = {r["index"]: r["loghash"] for r in read_out(out) if r["kind"] == "run"}
    same = sum(1 for r in idx if other.get(r["index"]) == r["loghash"])
    seen = sum(1 for r in idx if r["index"] in other)
    return {"repeated": seen, "identical_event_logs": same}


def write_evidence(a, meta, recs, t0, violations, extra):
    wall = time.time() - t0
    agg = {"processes": 0, "ops": 0, "sim_ns": 0, "tasks": 0, "worlds": 0, "jumps": 0}
    faults, probes, tools, inter = {}, {}, {}, set()
    for r in recs:
        s = r["stats"]
        for k in agg:
            agg[k] += s[k]
        for src, dst in ((s["faults"], faults), (s["probes"], probes), (s["tools"], tools)):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
        inter.update(s["interleavings"])
    nt = {r["loghash"] for r in recs if r["nontrivial"]}
    cov = {
        "evaluations": len(recs),
        "distinct_nontrivial": len(nt),
        "rule": meta["rule"],
        "samples": [r["scenario"] for r in recs if "scenario" in r][:2] or [{"none": True}],
        "simulated_runs_per_hour": round(agg["worlds"] / wall * 3600) if wall else 0,
        "scenarios_per_hour": round(len(recs) / wall * 3600) if wall else 0,
        "seeds": {"VERIF_SEED": a.seed, "scenario_seed": "(property, VERIF_SEED, index)"},
        "simulated_worlds": agg["worlds"],
        "simulated_processes": agg["processes"],
        "scheduled_storage_operations": agg["ops"],
        "scheduler_decisions": agg["tasks"],
        "simulated_time_s": round(agg["sim_ns"] / 1e9, 3),
        "clock_jumps": agg["jumps"],
        "faults_fired": dict(sorted(faults.items())),
        "probes": dict(sorted(probes.items())),
        "distinct_interleavings": len(inter),
        "interleaving_measure": "distinct sequences of scheduler decisions (pool/thread) or of (process, operation, path) "
                                "in multi-process worlds",
        "commands_run": dict(sorted(tools.items())),
        "real_code": meta.get("real", "the repository's command-line tools and library, numpy, astropy, finufft, the kernel's file system (tmpfs)"),
        "stubs": meta.get("stubs", "process pools (deterministic stand-in with real forked workers), wall clock, kernel entropy, "
                                   "directory order, storage scheduler and fault injector"),
    }
    cov.update(extra)
    ev = {"property": a.prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": a.seed,
          "level": meta["level"], "coverage": cov, "assumptions": meta["assumptions"], "wall_s": round(wall, 2),
          "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", f"{a.prop}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)


if __name__ == "__main__":
    sys.exit(main())
