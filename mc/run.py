"""python -m mc.run <property> [--tier quick|thorough] [--replay FILE]"""
import argparse
import importlib
import json
import os
import sys
import time
import warnings

warnings.simplefilter("ignore")
sys.path.insert(0, "/repo")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--replay")
    a = ap.parse_args()
    from mc import engine
    import numpy as np
    np.seterr(all="ignore")
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ev_path = os.path.join(engine.VERIF, "evidence", a.prop + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    try:
        spec = importlib.import_module("mc.checks." + a.prop.lower())
    except Exception as e:
        # the code under test cannot even be imported
        import traceback
        traceback.print_exc()
        frames = traceback.extract_tb(e.__traceback__)
        if not any(f.filename.startswith("/repo/") for f in frames):
            return 2
        return violation(a.prop, {"key": "import", "msg": repr(e), "config": None, "trail": [], "labels": []},
                         engine, ev_path, a.tier, seed, t0, None, None)
    import mlmc
    assert mlmc.__file__.startswith("/repo/"), mlmc.__file__
    only = None
    if a.replay:
        with open(a.replay) as f:
            rec = json.load(f)
        cfgs = [c for c in engine.expand(spec.configs(a.tier)) if engine.jsonable(c) == rec["config"]] or [rec["config"]]
        if hasattr(spec, "setup"):
            spec.setup(a.tier)
        import tempfile
        d = tempfile.mkdtemp(dir=engine.scratch_base())
        ctx = engine.Ctx(rec["trail"], cfgs[0], os.path.join(d, "run"), a.tier)
        out = engine.run_once(spec.run, ctx)
        import shutil
        shutil.rmtree(d, ignore_errors=True)
        print("labels:", ctx.labels)
        print("result:", out and out[1])
        return 1 if out else 0
    res, known = engine.run_spec(spec, a.tier, a.jobs)
    return finish(spec, res, known, engine, ev_path, a.tier, seed, t0)


def evidence(spec, res, tier, seed, t0, n_viol, engine, ev_path, prop):
    cov = {
        "states": len(res.states),
        "transitions": res.transitions,
        "traces_validated_against_impl": res.executions,
        "configurations": res.configs,
        "configurations_enumerated": getattr(res, "n_configs", 0),
        "exhaustive": bool(res.exhaustive),
        "bounds": getattr(spec, "BOUNDS", {}).get(tier, "") if isinstance(getattr(spec, "BOUNDS", None), dict)
        else getattr(spec, "BOUNDS", ""),
        "samples": res.samples[:4],
        "notes": res.notes,
        "unconfirmed": len(res.unconfirmed),
        "known_findings": [{"key": v["key"], "count": v["count"]} for v in res.known.values()],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": getattr(spec, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2),
          "violations": n_viol}
    tmp = ev_path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, ev_path)
    return ev


def finish(spec, res, known, engine, ev_path, tier, seed, t0):
    prop = spec.PROPERTY
    for i, k in enumerate(known):
        print("KNOWN-FINDING: property=%s %s%s" % (prop, k["what"], "" if i in res.known else " (not reached in this run)"))
    ev = evidence(spec, res, tier, seed, t0, len(res.violations), engine, ev_path, prop)
    c = ev["coverage"]
    print("%s tier=%s configs=%d/%d executions=%d states=%d transitions=%d exhaustive=%s wall=%.1fs" % (
        prop, tier, res.configs, res.n_configs, res.executions, c["states"], res.transitions,
        res.exhaustive, time.time() - t0))
    for k, v in sorted(res.notes.items()):
        print("  note %s: %d" % (k, v))
    if res.unconfirmed:
        print("  unconfirmed:", [(u["key"], u["msg"][:300]) for u in res.unconfirmed[:3]])
    if res.violations:
        return report(prop, res.violations, engine)
    return 0


def report(prop, violations, engine):
    d = os.path.join(engine.VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    for i, v in enumerate(violations[:5]):
        path = os.path.join(d, "%s_%d.json" % (prop, i))
        with open(path, "w") as f:
            json.dump({"property": prop, **v}, f, indent=1)
        print("  key=%s\n  config=%s\n  trail=%s\n  %s" % (v["key"], json.dumps(v["config"])[:800], v["trail"][:80],
                                                     v["msg"][:2500]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def violation(prop, rec, engine, ev_path, tier, seed, t0, spec, res):
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [rec["msg"]]},
          "assumptions": [], "wall_s": round(time.time() - t0, 2), "violations": 1}
    with open(ev_path, "w") as f:
        json.dump(ev, f)
    return report(prop, [rec], engine)


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
