"""C28: a run stores every sample once and gives the same estimate whatever the pool, storage, polling and restarts."""
import itertools
from collections import Counter
import os
import numpy as np
from mc import sched, pbs
from mc.engine import require
from mc.sims import McSim, sid, seed_of, expected_pair
import mlmc.sampling_pool
from mlmc.estimator import Estimate
from mlmc.moments import Legendre
from mlmc.quantity.quantity import make_root_quantity
from mlmc.quantity.quantity_estimate import estimate_mean, moments as q_moments
from mlmc.quantity.quantity_spec import QuantitySpec
from mlmc.sampler import Sampler
from mlmc.sample_storage import Memory
from mlmc.sample_storage_hdf import SampleStorageHDF
from mlmc.sampling_pool import OneProcessPool, ProcessPool, ThreadPool

PROPERTY = "C28"
PARAMS = [[0.5], [0.25]]
SPEC = [QuantitySpec("q", "m", (2, 1), [1.0], ["a1"])]
DOMAIN = (0.0, 2000.0)
BOUNDS = {
    "quick": "2 levels, 1-4 samples; all programs of up to 4 steps from {raise the target of level 0 / level 1 / both and schedule, poll with a limit, "
             "wait without a limit, adding step, restart over the file} + final wait; one-process pool (memory and file) with every set of failing samples; "
             "process and thread pool with every completion order (process pool: <=2 preemptions for 2 samples, <=1 for 3-4); PBS pool with every order of job completion; "
             "single runs of 175-353 samples on all pools (genuine ones)",
    "thorough": "programs of up to 5 steps, one more preemption",
}
ASSUMPTIONS = ["local pools are restarted only when no sample is running (they do not resume unfinished samples)"]


def setup(tier):
    pbs.install_fast_yaml()
    sched.install(mlmc.sampling_pool)
    sched.instrument(["/repo/mlmc/sampling_pool.py", "/repo/mlmc/sampler.py"])


GROW = {"0": (1, 0), "1": (0, 1), "2": (2, 1), "A": (0, 0), "B": (130, 45)}


def count(p):
    n = [0, 0]
    for op in p:
        if op in GROW:
            n = [n[0] + GROW[op][0], n[1] + GROW[op][1]]
    return n


def configs(tier):
    th = tier == "thorough"
    cs = []
    for n in range(1, (5 if th else 4) + 1):
        for p in itertools.product("012pwAR", repeat=n):
            if p[0] not in "012" or any(a == b and a in "wAR" for a, b in zip(p, p[1:])):
                continue
            a, b = count(p)
            if a + b > 5:
                continue
            for storage in ("memory", "hdf"):
                if "R" in p and storage == "memory":
                    continue
                if n == 4 and storage == "hdf" and "R" not in p and not th:
                    continue
                for bad in itertools.product((0, 1), repeat=a + b) if a + b <= (3 if n < 4 else 1) else [(0,) * (a + b), (1,) + (0,) * (a + b - 1), (0, 1) * ((a + b) // 2) + (0,) * ((a + b) % 2)]:
                    cs.append({"pool": "one", "storage": storage, "prog": "".join(p), "bad": list(bad)})
    for pool in ("process", "thread"):
        for p in ("01", "0p1", "2", "2p", "2w0", "0p0p1", "2A", "1pA"):
            a, b = count(p)
            if pool == "thread" and a + b > 3 and not th:
                continue
            bound = (2 if a + b <= 2 else 1) if pool == "process" else 0
            for bad in ([0] * (a + b), [1] + [0] * (a + b - 1)):
                cs.append({"pool": pool, "storage": "memory", "prog": p, "bad": bad, "split": 8,
                           "bound": bound + 1 if th and (pool == "process" or a + b <= 2) else bound})
            if p in ("2p", "0p1") and (th or pool == "process"):
                cs.append({"pool": pool, "storage": "hdf", "prog": p, "bad": [0] * (a + b), "bound": 0, "split": 8})
        if th or pool == "process":
            cs.append({"pool": pool, "storage": "hdf", "prog": "2wR0", "bad": [0] * 4, "bound": 0, "split": 8})
    for n in range(1, 4):
        for p in itertools.product("012pwAR", repeat=n):
            if p[0] not in "012" or any(a == b and a in "wAR" for a, b in zip(p, p[1:])):
                continue
            a, b = count(p)
            for storage in ("memory", "hdf"):
                if "R" in p and storage == "memory" or (n == 3 and storage == "hdf" and "R" not in p and not th) or a + b > 4:
                    continue
                for bad in ([0] * (a + b), [1] + [0] * (a + b - 1)):
                    cs.append({"pool": "pbs", "storage": storage, "prog": "".join(p), "bad": bad, "size": 0.6})
    for p in ("B", "BpB", "BwB", "BpA0p2"):
        k = sum(count(p))
        bad = [1 if i % 9 == 4 else 0 for i in range(k)]
        for storage in ("memory", "hdf"):
            for pool in ("one", "process", "thread", "pbs"):
                cs.append({"pool": pool, "storage": storage, "prog": p, "bad": bad, "real": True, "size": 0.07})
    for pool in ("one", "process", "thread", "pbs"):
        cs.append({"pool": pool, "storage": "hdf", "prog": "BwRBpwR2", "bad": [0] * 353, "real": True, "size": 0.07})
    cs.sort(key=lambda c: -c.get("split", 1))
    return cs


def run(ctx):
    cfg = ctx.config
    d = ctx.scratch()
    if cfg["pool"] == "pbs":
        with pbs.FakePbs() as q:
            body(ctx, cfg, d, q, None)
    elif cfg["pool"] == "one" or cfg.get("real"):
        body(ctx, cfg, d, None, None)
    else:
        with sched.Sched(ctx) as sc:
            body(ctx, cfg, d, None, sc)


def body(ctx, cfg, d, q, sc):
    path = os.path.join(d, "s.h5")
    storage = Memory() if cfg["storage"] == "memory" else SampleStorageHDF(path)
    order = []
    n = [0, 0]
    for op in cfg["prog"]:
        for lv, k in enumerate(GROW.get(op, (0, 0))):
            for _ in range(k):
                order.append(sid(lv, n[lv]))
                n[lv] += 1
    McSim.log = []
    bad = {s for s, b in zip(order, cfg["bad"]) if b}
    McSim.behaviour = {seed_of(s): "raise" for s in bad}
    n_polls = [0]

    def fresh():
        if cfg["pool"] == "one":
            pool = OneProcessPool()
        elif cfg["pool"] == "process":
            pool = ProcessPool(2)
        elif cfg["pool"] == "thread":
            pool = ThreadPool(2)
        else:
            pool = pbs.new_pool(os.path.join(d, "work"), debug=cfg["storage"] == "hdf")
            orig = pool.get_finished

            def finished():
                jobs = [j for j in q.jobs.values() if j.state != "F"]
                # any one of the unfinished jobs, or none (but not for ever), finishes before the poll
                n_polls[0] += 1
                free = n_polls[0] < 5
                if cfg.get("real"):
                    for j in jobs[::2]:
                        q.finish(j)
                elif jobs:
                    k = ctx.choose(len(jobs) + (1 if free else 0), "job")
                    if k < len(jobs):
                        q.finish(jobs[k])
                out = orig()
                os.chdir(d)
                return out
            pool.get_finished = finished
        return Sampler(storage, pool, McSim(SPEC, task_size=cfg.get("size", 0.1)), PARAMS)

    sampler = fresh()
    n = [0, 0]

    def stored(final):
        col = [int(x) for x in storage.get_n_collected()]
        fin = [int(x) for x in storage.n_finished()]
        pairs = storage.sample_pairs() if sum(col) else [[], []]
        for l in (0, 1):
            ids = [sid(l, i) for i in range(n[l])]
            want, want_n = {}, Counter()
            for s in ids:
                if s not in bad:
                    f, c = expected_pair(seed_of(s), PARAMS[l][0], 0 if l == 0 else PARAMS[0][0], 2)
                    want[tuple(f) + (tuple(c) if l else ())] = s
                    want_n[tuple(f) + (tuple(c) if l else ())] += 1
            nb = sum(s in bad for s in ids)
            p = pairs[l]
            got = [] if len(p) == 0 else [tuple(float(x) for x in p[:, i, 0]) + (tuple(float(x) for x in p[:, i, 1]) if l else ()) for i in range(p.shape[1])]
            require(len(got) == col[l] and not Counter(got) - want_n, lambda: "level %d: %d collected, more often than expected: %s" % (
                l, col[l], Counter(got) - want_n), "duplicate")
            require(fin[l] - col[l] <= nb, lambda: "level %d: %d failed of %d" % (l, fin[l] - col[l], nb), "failed")
            if final:
                require(Counter(got) == want_n, lambda: "level %d: samples %s are not stored after %s" % (
                    l, [want[x] for x in want_n - Counter(got)], cfg["prog"]), "lost")
                require(fin[l] == n[l], lambda: "level %d: %d finished of %d" % (l, fin[l], n[l]), "finished")
        ctx.step()
        ctx.state((cfg["pool"], cfg["storage"], tuple(n), tuple(col), tuple(fin), final))
        return sum(fin)

    def wait():
        r = sampler.ask_sampling_pool_for_samples()
        require(r == 0, "waiting without a limit returned %s running samples" % r, "return")
        stored(True)

    for op in cfg["prog"]:
        if op in "012B":
            n = [n[0] + GROW[op][0], n[1] + GROW[op][1]]
            sampler.set_level_target_n_samples(list(n))
            sampler.schedule_samples(timeout=1e-15)
        elif op == "p":
            r = sampler.ask_sampling_pool_for_samples(timeout=1e-15)
            done = stored(False)
            require((r > 0) == (done < sum(n)), lambda: "%s running samples returned, %d of %d are stored" % (r, done, sum(n)), "running")
        elif op == "w":
            wait()
        elif op == "A":
            sampler.process_adding_samples(np.array(n, dtype=float), timeout=1e-15)
            require([int(x) for x in sampler.l_scheduled_samples()] == n, "scheduled %s" % sampler.l_scheduled_samples(), "adding")
            stored(False)
        elif op == "R":
            if cfg["pool"] != "pbs":
                wait()
            else:           # samples not yet submitted would be given up (C20)
                sampler.ask_sampling_pool_for_samples(timeout=1e-15)
            storage = SampleStorageHDF(path)
            sampler = fresh()
            stored(False)
    wait()
    wait()
    if cfg["storage"] == "hdf":
        storage = SampleStorageHDF(path)
        stored(True)
    estimates(ctx, cfg, storage, n, bad)


def estimates(ctx, cfg, storage, n, bad):
    """Telescoping estimate of the collected samples, the same for all ways they were collected"""
    good = [[s for i in range(n[l]) for s in [sid(l, i)] if s not in bad] for l in (0, 1)]
    if min(len(g) for g in good) < 1:
        return
    diff, mom = [], []
    fn = Legendre(3, DOMAIN)
    for l in (0, 1):
        fc = [expected_pair(seed_of(s), PARAMS[l][0], 0 if l == 0 else PARAMS[0][0], 2) for s in good[l]]
        diff.append(np.mean([f - c if l else f for f, c in fc], axis=0))
        mom.append(np.mean([fn.eval_all(f[:1]) - (fn.eval_all(c[:1]) if l else 0) for f, c in fc], axis=0).ravel())
    want = diff[0] + diff[1]
    root = make_root_quantity(storage, SPEC)
    q = root["q"][1.0]["a1"]
    got = np.ravel(estimate_mean(q).mean)
    require(np.allclose(got, want, rtol=1e-11), lambda: "mean %s instead of %s" % (got, want), "mean")
    x = q[0, 0]
    m = np.ravel(estimate_mean(q_moments(x, fn)).mean)
    require(np.allclose(m, mom[0] + mom[1], rtol=1e-9, atol=1e-12), lambda: "moments %s instead of %s" % (m, mom[0] + mom[1]), "moments")
    if min(len(g) for g in good) > 1:
        e = Estimate(x, storage, fn)
        mm, vv = e.estimate_moments(fn)
        require(np.allclose(np.ravel(mm), mom[0] + mom[1], rtol=1e-9, atol=1e-12), lambda: "estimated moments %s instead of %s" % (mm, mom[0] + mom[1]), "estimate")
    ctx.step()
