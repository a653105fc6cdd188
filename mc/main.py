import argparse
import glob
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback


def find_module(prop):
    here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks")
    m = glob.glob(os.path.join(here, prop.lower() + "_*.py"))
    if len(m) != 1:
        raise SystemExit(f"no check module for {prop}: {m}")
    return "mc.checks." + os.path.basename(m[0])[:-3]


def die_with_parent():
    """Workers are killed when the check's main process goes away (prctl PR_SET_PDEATHSIG)."""
    try:
        import ctypes
        import signal

        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except Exception:
        pass


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--shard", help="only shards whose id contains this (debugging)")
    ap.add_argument("--serial", action="store_true")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--slow", action="store_true", help="print slowest shards")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("MC_JOBS", "8")))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    deadline = t0 + (840 if tier == "quick" else 6 * 3600)
    from mc import core

    sys.path.insert(0, core.REPO)
    modname = find_module(a.prop)

    replay = None
    if a.replay:
        replay = json.load(open(a.replay))

    results, broken = [], []
    try:
        mod = importlib.import_module(modname)
        shards = mod.shards(tier)
    except Exception as e:
        tb = traceback.format_exc()
        if "/openconcept/" in tb or isinstance(e, ImportError):
            broken.append(
                dict(key=f"import:{core.exc_key(e)}", shard="import", message=f"library import failed: {e}", detail={"traceback": tb[-6000:]})
            )
            shards = []
            mod = None
        else:
            raise
    ids = [s for s, _ in shards]
    assert len(set(ids)) == len(ids), "duplicate shard ids"
    if replay:
        shards = [s for s in shards if s[0] == replay["shard"]]
    if a.shard:
        shards = [s for s in shards if a.shard in s[0]]
    if a.list:
        print("\n".join(s for s, _ in shards))
        return 0
    jobs = [(modname, sid, prm, tier, seed) for sid, prm in shards]
    expected = len(jobs)
    if a.serial or len(jobs) <= 1:
        for j in jobs:
            results.append(core.run_shard(j))
    else:
        # each worker process takes one shard at a time; a worker that dies is reported, not ignored
        from concurrent.futures import ProcessPoolExecutor, as_completed

        ctx = mp.get_context("fork")
        ex = ProcessPoolExecutor(max_workers=min(a.jobs, len(jobs)), mp_context=ctx, initializer=die_with_parent)
        futs = {ex.submit(core.run_shard, j): j for j in jobs}
        try:
            for f in as_completed(futs, timeout=max(5.0, deadline - time.time())):
                try:
                    results.append(f.result())
                except Exception as e:
                    j = futs[f]
                    broken.append(
                        dict(key=f"worker-died:{j[1]}", shard=j[1], message=f"worker died while exploring this shard: {e!r}", detail={})
                    )
        except Exception:
            done = {r["shard"] for r in results}
            for j in jobs:
                if j[1] not in done:
                    broken.append(
                        dict(key=f"no-termination:{j[1]}", shard=j[1], message="exploration of this shard did not terminate in the time allowed", detail={})
                    )
                    break
        workers = list((getattr(ex, "_processes", None) or {}).values())
        ex.shutdown(wait=False, cancel_futures=True)
        for p in workers:  # idle (or stuck) workers must not outlive the check: they hold its output pipes
            p.kill()
        for p in workers:
            p.join(5)

    known = core.load_known(a.prop)
    viol = list(broken)
    states, outcomes = set(), set()
    tot = dict(evaluations=0, transitions=0, validated=0)
    notes, samples = {}, []
    for r in sorted(results, key=lambda r: ids.index(r["shard"]) if r["shard"] in ids else 0):
        for k in tot:
            tot[k] += r[k]
        states |= r["states"]
        outcomes |= r["outcomes"]
        for k, v in r["notes"].items():
            notes[k] = notes.get(k, 0) + v
        viol += r["violations"]
        if len(samples) < 6:
            samples += r["samples"][: 6 - len(samples)]
    seen_known, new = {}, []
    for v in viol:
        if v["key"] in known:
            seen_known[v["key"]] = v
        else:
            new.append(v)

    if replay:
        hit = [v for v in viol if v["key"] == replay["key"]]
        for v in hit or viol:
            print(f"REPRODUCED {v['key']}: {v['message']}" if hit else f"OTHER {v['key']}: {v['message']}")
            tb = v["detail"].get("traceback") if isinstance(v["detail"], dict) else None
            if tb:
                print(tb)
            else:
                print(json.dumps(v["detail"], indent=1)[:4000])
        if not viol:
            print("not reproduced: the property held on this shard")
        return 1 if hit else 0

    if a.slow:
        for r in sorted(results, key=lambda r: -r["wall"])[:12]:
            print("  %.1fs %s" % (r["wall"], r["shard"]))
    wall = time.time() - t0
    level = getattr(mod, "LEVEL", "exploration") if mod else "exploration"
    cov = dict(shards=len(results), shards_expected=expected, exhaustive=(len(results) == expected and not broken), distinct_outcomes=len(outcomes))
    rule = getattr(mod, "RULE", "") if mod else "import failed"
    if level == "model_checking":
        cov.update(states=len(states), transitions=tot["transitions"], traces_validated_against_impl=tot["validated"], evaluations=tot["evaluations"], rule=rule)
    else:
        cov.update(evaluations=tot["evaluations"], distinct_nontrivial=len(states), comparisons=tot["validated"], rule=rule)
    if hasattr(mod, "BOUNDS"):
        cov["bounds"] = mod.BOUNDS
    cov.update({("n_" + k): v for k, v in notes.items()})
    cov["samples"] = samples or ["no shard completed"]
    ev = dict(
        property=a.prop, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(wall, 2), violations=len(new),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
    )
    if not a.shard:
        os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(core.VERIF, "evidence", a.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(
        f"{a.prop} tier={tier} shards={len(results)}/{expected} evaluations={tot['evaluations']} states={len(states)} "
        f"transitions={tot['transitions']} comparisons={tot['validated']} outcomes={len(outcomes)} wall={wall:.1f}s"
    )
    for k, v in seen_known.items():
        print(f"KNOWN-FINDING: property={a.prop} {known[k]} [{k}]")
    if new:
        rdir = os.path.join(core.VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for i, v in enumerate(new[:10]):
            path = os.path.join(rdir, f"{a.prop}_{i}.json")
            with open(path, "w") as f:
                json.dump(dict(property=a.prop, **v), f, indent=1)
            print(f"VIOLATION property={a.prop} replay={path}")
            print(f"  {v['key']}: {v['message'][:600]}")
        if len(new) > 10:
            print(f"  ... and {len(new) - 10} more")
        return 1
    # non-vacuity: an exploration that compared nothing is an error of the check itself
    if tot["validated"] == 0 or (len(results) != expected):
        print("ERROR: nothing was explored")
        return 3
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
