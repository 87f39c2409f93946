"""C17: every sample contributes its cost exactly once."""
import itertools
import os
import threading
import time as real_time
from mc import sched, pbs
from mc.engine import require
from mc.sims import McSim, sid, seed_of
import mlmc.sampling_pool
import mlmc.tool.pbs_job
from mlmc.sampler import Sampler
from mlmc.sample_storage import Memory
from mlmc.sample_storage_hdf import SampleStorageHDF
from mlmc.sampling_pool import OneProcessPool, ProcessPool, ThreadPool

PROPERTY = "C17"
PARAMS = [[0.5], [0.25]]
BOUNDS = {
    "quick": "programs over {one more sample on level 0, on level 1, poll, reopen the file, renew failed samples} up to 5 steps (one-process pool, "
             "both storages), selected programs of up to 3 samples with every completion order and <=1 preemption (process and thread pool) and every "
             "order of job completion (PBS); behaviours ok / exception / wrong result length / zero duration; the clock is virtual and per thread",
    "thorough": "programs up to 6 steps, <=2 preemptions",
}
ASSUMPTIONS = ["a sample takes exactly the time its simulation advances the virtual clock by; the rest of the code takes no time",
               "PBS jobs measure all their samples together, failed ones included, so their cost is the average over all computed samples"]
CLOCKS = ("time", "perf_counter", "monotonic", "process_time", "thread_time")


class Clock:
    """Stands for the time module: every thread has its own virtual time"""
    def __init__(self):
        self.now = {}

    def read(self):
        return self.now.setdefault(threading.get_ident(), 4096.0)

    def advance(self, dt):
        self.now[threading.get_ident()] = self.read() + dt

    def __getattr__(self, name):
        if name in CLOCKS:
            return self.read
        if name.endswith("_ns") and name[:-3] in CLOCKS:
            return lambda: int(self.read() * 1000000000)
        return getattr(real_time, name)


CLOCK = Clock()


class ClockSim(McSim):
    durations = {}

    @staticmethod
    def calculate(config, seed):
        CLOCK.advance(ClockSim.durations.get(int(seed), 0.0))
        return McSim.calculate(config, seed)


def setup(tier):
    pbs.install_fast_yaml()
    sched.install(mlmc.sampling_pool)
    sched.instrument(["/repo/mlmc/sampling_pool.py"])
    for m in (mlmc.sampling_pool, mlmc.tool.pbs_job):
        for k, v in list(vars(m).items()):
            if v is real_time:
                setattr(m, k, CLOCK)
            elif k in CLOCKS and v is getattr(real_time, k):
                setattr(m, k, CLOCK.read)


def configs(tier):
    th = tier == "thorough"
    cs = []
    kinds = ["ok", "raise", "short", "zero"]
    for storage in ("memory", "hdf"):
        ops = ["S0", "S1", "P"] + (["R", "V"] if storage == "hdf" else [])
        for n in range(1, (7 if th else 6) if storage == "memory" else (6 if th else 5)):
            for p in itertools.product(ops, repeat=n):
                k = sum(x[0] == "S" for x in p)
                if k == 0 or p[0][0] != "S" or p[-1] in ("R", "V") or (p[0] == "S1" and "S0" in p and storage == "hdf"):
                    continue
                if any(a == b and a in "PRV" for a, b in zip(p, p[1:])):
                    continue
                for b in itertools.product(kinds, repeat=k):
                    bad = sum(x != "ok" for x in b)
                    if bad > (2 if k < 3 else 1) or ("V" in p and not bad):
                        continue
                    cs.append({"pool": "one", "storage": storage, "prog": list(p), "beh": list(b), "bound": 0})
    progs = [["S0", "S0"], ["S0", "S1"], ["S0", "P", "S0"], ["S0", "P", "S1"], ["S0", "P", "P", "S0"]]
    more = [["S0", "S0", "P", "S0"], ["S0", "S1", "P", "S1"]]
    for pool in ("process", "thread"):
        for p in progs + more:
            k = sum(x[0] == "S" for x in p)
            for b in [["ok"] * k] + [["ok"] * i + [x] + ["ok"] * (k - i - 1) for i in range(k) for x in ("raise", "short")]:
                if pool == "thread" and not th and ("raise" in b or b[0] == "short" or p == progs[-1]):
                    continue
                if p in progs:
                    cs.append({"pool": pool, "storage": "memory", "prog": p, "beh": b, "bound": 2 if th and pool == "process" else 1, "split": 16})
                else:
                    cs.append({"pool": pool, "storage": "memory", "prog": p, "beh": b, "bound": 1 if th else 0, "split": 4})
        for p, b in ((["S0", "S1", "P", "R", "S0"], ["ok"] * 3), (["S0", "S1", "P", "V", "S0"], ["ok", "raise", "ok"])):
            if pool == "process" or th:
                cs.append({"pool": pool, "storage": "hdf", "prog": p, "beh": b, "bound": 0, "split": 8})
    for n in range(1, 6):
        for p in itertools.product(["S0", "S1", "P"], repeat=n):
            k = sum(x[0] == "S" for x in p)
            if k == 0 or p[0][0] != "S" or any(a == b == "P" for a, b in zip(p, p[1:])) or k > 4:
                continue
            for storage in ("memory", "hdf"):
                if storage == "hdf" and n > 3 and not th:
                    continue
                for b in [["ok"] * k] + [["ok"] * i + [x] + ["ok"] * (k - i - 1) for i in range(k) for x in ("raise", "short")][:None if n < 4 else 2]:
                    for size in (0.4, 1.5):
                        cs.append({"pool": "pbs", "storage": storage, "prog": list(p), "beh": b, "bound": 0, "size": size})
    cs.sort(key=lambda c: -c.get("split", 1))
    return cs


def run(ctx):
    cfg = ctx.config
    McSim.log = []
    CLOCK.now = {}
    d = ctx.scratch()
    if cfg["pool"] == "pbs":
        with pbs.FakePbs() as q:
            body(ctx, cfg, d, q, None)
    elif cfg["pool"] == "one":
        body(ctx, cfg, d, None, None)
    else:
        with sched.Sched(ctx) as sc:
            body(ctx, cfg, d, None, sc)


def make_pool(cfg, d):
    if cfg["pool"] == "one":
        return OneProcessPool()
    if cfg["pool"] == "process":
        return ProcessPool(2)
    if cfg["pool"] == "thread":
        return ThreadPool(2)
    return pbs.new_pool(os.path.join(d, "work"))


def body(ctx, cfg, d, q, sc):
    path = os.path.join(d, "s.h5")
    storage = Memory() if cfg["storage"] == "memory" else SampleStorageHDF(path)
    pool = make_pool(cfg, d)
    n = [0, 0]
    plan = {}
    i = 0
    for op in cfg["prog"]:
        if op[0] == "S":
            lv = int(op[1])
            s = sid(lv, n[lv])
            n[lv] += 1
            plan[s] = (lv, cfg["beh"][i], 0.0 if cfg["beh"][i] == "zero" else 2.0 ** i * 0.0009765625)
            i += 1
    ClockSim.durations = {seed_of(s): t for s, (_, _, t) in plan.items()}
    McSim.behaviour = {seed_of(s): "ok" if b == "zero" else b for s, (_, b, _) in plan.items()}
    sampler = Sampler(storage, pool, ClockSim(task_size=cfg.get("size", 0.4)), PARAMS)
    n = [0, 0]
    computed = {0: [], 1: []}            # cost-relevant computations so far

    def note(s):
        lv, b, t = plan[s]
        if McSim.behaviour[seed_of(s)] == "ok" or cfg["pool"] == "pbs":
            computed[lv].append(t)

    def audit(final):
        got = [float(x) for x in storage.get_n_ops()]
        require(len(got) >= 2, lambda: "costs of %d levels" % len(got), "levels")
        for lv in (0, 1):
            c = computed[lv]
            if final or cfg["pool"] == "one":
                want = [sum(c) / len(c) if c else 0.0]
            else:
                want = [0.0] + [sum(x) / len(x) for k in range(1, len(c) + 1) for x in itertools.combinations(c, k)]
            require(any(abs(g - got[lv]) < 1e-9 for g in want), lambda: "level %d: cost per sample %s, computed samples took %s, after %s" % (
                lv, got[lv], c, trail), "cost")
        ctx.state((cfg["pool"], cfg["storage"], final, tuple(trail), tuple(sorted(computed[0])), tuple(sorted(computed[1]))))
        ctx.step()

    def poll(n_polls=None):
        if cfg["pool"] == "pbs":
            # any subset of the unfinished jobs finishes before the poll
            for j in [j for j in q.jobs.values() if j.state != "F"]:
                if n_polls is None or ctx.choose(2, "job"):
                    q.finish(j)
        if sc is not None and n_polls is None:
            sc.wait_pools()
        sampler.ask_sampling_pool_for_samples(sleep=0, timeout=1e-15)

    trail = []
    for op in cfg["prog"]:
        trail.append(op)
        if op[0] == "S":
            lv = int(op[1])
            s = sid(lv, n[lv])
            n[lv] += 1
            note(s)
            sampler.set_level_target_n_samples(list(n))
            sampler.schedule_samples(timeout=0)
        elif op == "P":
            poll(1)
            if cfg["bound"] == 0:
                audit(False)
        elif op == "R":
            storage = SampleStorageHDF(path)
            sampler = Sampler(storage, pool, ClockSim(), PARAMS)
            sampler.set_level_target_n_samples(list(n))
        elif op == "V":
            if sc is not None:
                sc.wait_pools()
            poll(1)
            failed = [s for v in storage.failed_samples().values() for s in v]
            for s in failed:
                McSim.behaviour[seed_of(s)] = "ok"
                note(s)
            sampler.renew_failed_samples()
    for _ in range(3):
        poll()
    trail.append("drained")
    audit(True)
    poll()
    trail.append("polled again")
    audit(True)
    if cfg["storage"] == "hdf":
        storage = SampleStorageHDF(path)
        trail.append("reopened")
        audit(True)
