"""C01: exactly-once delivery by the local pools under every thread schedule."""
import itertools
from mc import sched
from mc.engine import Violation, require
from mc.sims import McSim, sid, seed_of, expected_pair, level_sims
import mlmc.sampling_pool
from mlmc.sampling_pool import OneProcessPool, ProcessPool, ThreadPool

PROPERTY = "C01"
PARAMS = [[0.5], [0.25]]
BOUNDS = {
    "quick": "pools: process(1,2), thread(2), one-process; programs over {schedule L0, schedule L1, poll} of "
             "length <=4 (concurrent) / <=6 (sequential) + drain; ok/raise behaviour per sample; every completion order; "
             "<=2 preemptions at CPython switch points (process pool) / <=1 (thread pool); single runs of 610 samples on the genuine pools",
    "thorough": "as quick with programs up to length 5 and <=3/<=2 preemptions",
}
ASSUMPTIONS = [
    "threads switch only where CPython 3.12 can switch (function entry, after calls, backward jumps, lock operations)",
    "multiprocessing pools are replaced by a stub with the same callback semantics (one result-handler thread that "
    "dies when a callback raises, pickled arguments and results); the 'real' configurations run the genuine pools",
]


def setup(tier):
    sched.install(mlmc.sampling_pool)
    sched.instrument(["/repo/mlmc/sampling_pool.py"])


def programs(maxlen, levels=2):
    out = []
    for n in range(1, maxlen + 1):
        for p in itertools.product(["S0", "S1", "P"], repeat=n):
            k = sum(x != "P" for x in p)
            if k == 0 or p[0] == "P" or p[-1] == "P":
                continue
            if p[0] == "S1" and "S0" in p:      # symmetric in the levels
                continue
            out.append(list(p))
    return out


def configs(tier):
    th = tier == "thorough"
    cs = []
    # sequential pool: deep programs, all behaviours
    for p in programs(7 if th else 6):
        k = sum(x != "P" for x in p)
        for b in itertools.product(["ok", "raise"], repeat=k):
            if k > 4 and sum(x == "raise" for x in b) > 1:
                continue
            cs.append({"pool": "one", "prog": p, "beh": list(b), "bound": 0})
    # concurrent pools: every completion order and every schedule within the preemption bound
    def behs(k):
        return [("ok",) * k] + [tuple("raise" if i == j else "ok" for i in range(k)) for j in range(k)]
    small = [["S0"], ["S0", "S0"], ["S0", "S1"], ["S0", "P", "S0"], ["S0", "P", "S1"]]
    large = [["S0", "S0", "S0"], ["S0", "S1", "S0"], ["S0", "S0", "P", "S0"], ["S0", "S1", "P", "S1"],
             ["S0", "P", "S0", "P", "S0"]]
    for p in small:
        k = sum(x != "P" for x in p)
        for b in behs(k):
            if th or b[-1] == "ok":
                cs.append({"pool": "process", "n": 2, "prog": p, "beh": list(b), "bound": 3 if th else 2,
                           "split": 16})
            if th or p == ["S0", "S1"]:
                cs.append({"pool": "thread", "n": 2, "prog": p, "beh": list(b), "bound": 2 if th else 1,
                           "split": 16})
            if th:
                cs.append({"pool": "process", "n": 1, "prog": p, "beh": list(b), "bound": 3})
    for p in large:
        k = sum(x != "P" for x in p)
        for b in behs(k):
            cs.append({"pool": "process", "n": 2, "prog": p, "beh": list(b), "bound": 2 if th else 1})
    # the genuine multiprocessing pools (model-to-implementation conformance of the stub)
    for pool in ("process", "thread"):
        cs.append({"pool": pool, "n": 2, "prog": ["S0", "S1", "P", "S0", "S1", "S0", "P", "S1"],
                   "beh": ["ok", "raise", "ok", "ok", "raise", "ok"], "bound": 0, "real": True})
    # many samples, more than 100 of them reported by one poll
    bulk = (["S0", "S1", "S1"] * 60 + ["P"]) * 2 + ["S0"] * 250
    for pool in ("one", "process", "thread"):
        for n in (1, 3):
            cs.append({"pool": pool, "n": n, "prog": bulk, "beh": ["raise" if k % 10 == 3 else "ok" for k in range(610)], "bound": 0, "real": True})
    cs.sort(key=lambda c: -c.get('split', 1))
    return cs


def run(ctx):
    cfg = ctx.config
    sims = level_sims(McSim(), PARAMS)
    n = [0, 0]
    McSim.behaviour = {}
    McSim.log = []
    plan = []
    expect = {}
    i = 0
    for op in cfg["prog"]:
        if op != "P":
            lv = int(op[1])
            s = sid(lv, n[lv])
            n[lv] += 1
            seed = seed_of(s)
            McSim.behaviour[seed] = cfg["beh"][i]
            f, c = expected_pair(seed, PARAMS[lv][0], 0 if lv == 0 else PARAMS[lv - 1][0], 1)
            expect[s] = (cfg["beh"][i], list(f), list(c))
            i += 1
            plan.append((op, lv, s))
        else:
            plan.append((op, None, None))
    if cfg.get("real"):
        return body(ctx, cfg, plan, expect, sims, None)
    with sched.Sched(ctx) as sc:
        body(ctx, cfg, plan, expect, sims, sc)


def body(ctx, cfg, plan, expect, sims, sc):
    if cfg["pool"] == "one":
        pool = OneProcessPool()
    elif cfg["pool"] == "process":
        pool = ProcessPool(cfg["n"])
    else:
        pool = ThreadPool(cfg["n"])
    scheduled, reported = {}, {}

    def poll():
        ok, failed, n_running, n_ops = pool.get_finished()
        ctx.step()
        for kind, res in (("ok", ok), ("fail", failed)):
            for lv, items in res.items():
                for item in items:
                    s, val = item[0], item[1]
                    require(s in scheduled, "sample %s was never scheduled but is reported" % s, "invented")
                    require(s not in reported, "sample %s is reported twice" % s, "duplicate")
                    require(scheduled[s] == lv, "sample %s is reported on level %s" % (s, lv), "wrong level")
                    beh, f, c = expect[s]
                    want = "ok" if beh == "ok" else "fail"
                    require(kind == want, "sample %s is reported as %s" % (s, kind), "wrong kind")
                    if kind == "ok":
                        require(list(val[0]) == f and list(val[1]) == c,
                                lambda: "sample %s has a wrong value %r" % (s, val), "wrong value")
                    else:
                        require(isinstance(val, str) and val != "", "failed sample %s has no message" % s, "no message")
                    reported[s] = kind
        left = len(scheduled) - len(reported)
        require((n_running > 0) == (left > 0) and n_running >= 0,
                "pool says %s samples are running but %d are outstanding" % (n_running, left), "n_running")
        ctx.state((sorted(scheduled), sorted(reported.items()), n_running))
        return n_running

    for op, lv, s in plan:
        if op == "P":
            poll()
        else:
            scheduled[s] = lv
            pool.schedule_sample(s, sims[lv])
            ctx.step()
    import time
    while poll() > 0:
        time.sleep(0.001)
    require(set(reported) == set(scheduled), "lost samples: %s" % sorted(set(scheduled) - set(reported)), "lost")
    poll()
    if cfg.get("real") and hasattr(pool, "_pool"):
        try:
            pool._pool.terminate()
        except Exception:
            pass
