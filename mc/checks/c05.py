"""C05: failing samples are isolated, recorded and renewable under every failure pattern."""
import itertools
import os
from unittest import mock
from mc import sched, pbs
from mc.engine import require
from mc.sims import McSim, sid, seed_of, expected_pair, level_sims
import mlmc.sampling_pool
from mlmc.quantity.quantity_spec import QuantitySpec
from mlmc.sampler import Sampler
from mlmc.sample_storage import Memory
from mlmc.sample_storage_hdf import SampleStorageHDF
from mlmc.sampling_pool import OneProcessPool, ProcessPool, ThreadPool

PROPERTY = "C05"
PARAMS = [[0.5], [0.25]]
SPEC = [QuantitySpec("q", "m", (2, 1), [1.0], ["a1"])]
KINDS = ["raise", "keyerror", "zerodiv", "unpicklable", "badpickle", "unicode", "nul", "longmsg", "short", "long", "uneven", "none",
         "single", "empty", "nofile"]
TEXT = {"raise": "boom", "keyerror": "missing", "zerodiv": "ZeroDivisionError", "unicode": "ValueError", "longmsg": "ValueError"}
POOLS = ["one", "process", "thread", "pbs"]
BOUNDS = {
    "quick": "2 levels; every failure kind (12 exceptions/wrong results + missing workspace file + untransferable result) at every "
             "position of 3 samples (4 pools, every completion order) and every pair of kinds (one-process and PBS pool); every assignment of "
             "'fails in the first r rounds', r in 0..2, to 4 samples through 3 renewals, with reopening of the file between rounds",
    "thorough": "every pattern of 3 samples over 6 kinds, r in 0..3 for 4 samples through 4 renewals, <=1 preemption in the concurrent pools",
}
ASSUMPTIONS = ["failures are Python exceptions or wrong results, not the death of a worker process"]


def setup(tier):
    pbs.install_fast_yaml()
    sched.install(mlmc.sampling_pool)
    sched.instrument(["/repo/mlmc/sampling_pool.py"])


def configs(tier):
    th = tier == "thorough"
    cs = []
    for pool in POOLS:
        kinds = KINDS + (["untransferable"] if pool == "process" else [])
        pats = [("ok",) * 3]
        for i in range(3):
            for k in kinds:
                p = ["ok"] * 3
                p[i] = k
                pats.append(tuple(p))
        if pool in ("one", "pbs") or th:
            pats += [(a, "ok", b) for a in kinds for b in kinds]
            pats += [(a,) * 3 for a in kinds]
        else:
            pats += [("raise", "ok", "short"), ("nofile", "raise", "ok"), ("unicode",) * 3]
        if th:
            small = ["ok", "raise", "short", "unicode", "nofile", "single"]
            pats += list(itertools.product(small, repeat=3))
        for p in pats:
            for storage in ("hdf",):
                cs.append({"mode": "round", "pool": pool, "pat": [[k] for k in p], "storage": storage, "bound": 0, "renew": 1,
                           "levels": [0, 1, 0]})
        for p in (("raise", "ok", "short"), ("ok", "nofile", "ok")):
            cs.append({"mode": "round", "pool": pool, "pat": [[k] for k in p], "storage": "memory", "bound": 1 if th else 0, "renew": 0,
                       "levels": [0, 1, 0]})
    # histories: sample i fails in its first r_i computations
    rmax = 3 if th else 2
    for rs in itertools.product(range(rmax + 1), repeat=4):
        for pool in POOLS:
            if pool in ("process", "thread") and (sorted(rs) not in ([0, 0, 1, 1], [0, 0, 1, 2], [0, 1, 1, 2]) or rs[0] < rs[3]):
                continue        # completion orders multiply over the rounds
            if pool == "thread" and rs not in ((1, 0, 0, 1), (2, 0, 1, 0)):
                continue
            if not th and pool == "pbs" and sum(rs) % 2:
                continue
            for reopen in (False, True):
                pat = [["raise" if (i + j) % 2 else "short" for j in range(r)] for i, r in enumerate(rs)]
                cs.append({"mode": "round", "pool": pool, "pat": pat, "storage": "hdf", "bound": 0, "renew": 1 + max(rs),
                           "levels": [0, 1, 0, 1], "reopen": reopen, "first": pool == "process"})
    cs.sort(key=lambda c: (c["pool"] not in ("thread", "process"), -c["renew"]))
    return cs


def run(ctx):
    cfg = ctx.config
    d = ctx.scratch()
    McSim.log = []
    common = os.path.join(d, "common.txt")
    with open(common, "w") as f:
        f.write("x")
    if cfg["pool"] == "pbs":
        with pbs.FakePbs() as q, mock.patch("time.time", pbs.Tick().time):
            body(ctx, cfg, d, common, q, None)
    elif cfg["pool"] == "one":
        body(ctx, cfg, d, common, None, None)
    else:
        with sched.Sched(ctx) as sc:
            body(ctx, cfg, d, common, None, sc)


def make_pool(cfg, d, r):
    work = os.path.join(d, "work%d" % r)
    if cfg["pool"] == "one":
        return OneProcessPool(work_dir=work)
    if cfg["pool"] == "process":
        return ProcessPool(2, work_dir=work)
    if cfg["pool"] == "thread":
        return ThreadPool(1, work_dir=work)        # one thread: the current directory is process wide
    return pbs.new_pool(work)


def body(ctx, cfg, d, common, q, sc):
    n = [0, 0]
    samples = []
    for lv, kinds in zip(cfg["levels"], cfg["pat"]):
        samples.append((sid(lv, n[lv]), lv, kinds))
        n[lv] += 1
    ws = any("nofile" in k for _, _, k in samples)
    path = os.path.join(d, "s.h5")
    storage = Memory() if cfg["storage"] == "memory" else SampleStorageHDF(path)
    handed = []
    reported = {}
    computed = {}

    def factory(storage, r):
        sim = McSim(SPEC, task_size=0.4, workspace=ws, common_files=[common] if ws else None)
        pool = make_pool(cfg, d, r)
        orig_s, orig_g = pool.schedule_sample, pool.get_finished

        def schedule(s, ls):
            handed.append((s, ls._level_id if hasattr(ls, "_level_id") else None))
            # the behaviour of this computation of the sample
            k = computed.get(s, 0)
            computed[s] = k + 1
            kinds = [x[2] for x in samples if x[0] == s][0]
            kind = kinds[k] if k < len(kinds) else "ok"
            McSim.behaviour[seed_of(s)] = kind
            if kind == "nofile":
                import copy
                ls = copy.copy(ls)
                ls.common_files = [os.path.join(d, "no_such_file")]
                if cfg["pool"] == "pbs":
                    # a job reads the level configuration once for all samples of the level; take the file away instead
                    McSim.behaviour[seed_of(s)] = "raise"
                    kinds[k] = "raise"
                    ls = copy.copy(ls)
                    ls.common_files = [common]
            return orig_s(s, ls)

        def finished():
            out = orig_g()
            os.chdir(d)
            for kind, res in (("ok", out[0]), ("failed", out[1])):
                for lv, items in res.items():
                    for s, val in items:
                        reported.setdefault(s, []).append((kind, int(lv), val))
            ctx.step()
            if q is not None:
                for j in list(q.jobs.values()):
                    if j.state != "F":
                        q.finish(j)
                        break
            return out
        pool.schedule_sample, pool.get_finished = schedule, finished
        return Sampler(storage, pool, sim, PARAMS)

    McSim.behaviour = {}
    sampler = factory(storage, 0)
    sampler.set_level_target_n_samples(n)
    sampler.schedule_samples()
    if sc is not None:
        sc.wait_pools()
    sampler.ask_sampling_pool_for_samples()
    current = [s for s, _, _ in samples]
    require(sorted(handed) == sorted((s, l) for s, l, _ in samples), lambda: "handed to the pool %s" % handed, "scheduled")
    rnd = 0
    order = {0: [], 1: []}
    while True:
        # what the pool reported in this round
        require(sorted(reported) == sorted(current), lambda: "reported %s instead of %s" % (sorted(reported), current), "lost")
        failed_now = []
        for s in current:
            require(len(reported[s]) == 1, "sample %s is reported %d times" % (s, len(reported[s])), "duplicate")
            kind, lv, val = reported[s][0]
            _, level, kinds = [x for x in samples if x[0] == s][0]
            k = kinds[rnd] if rnd < len(kinds) else "ok"
            require(lv == level, "sample %s is reported on level %d" % (s, lv), "level")
            require((kind == "ok") == (k == "ok"), lambda: "sample %s with outcome %s is reported as %s" % (s, k, kind), "kind")
            if kind == "ok":
                f, c = expected_pair(seed_of(s), PARAMS[level][0], 0 if level == 0 else PARAMS[level - 1][0], 2)
                require(list(val[0]) == list(f) and list(val[1]) == list(c), lambda: "value of %s: %r" % (s, val), "value")
            else:
                failed_now.append(s)
                require(isinstance(val, str) and val.strip(), "no message for %s" % s, "message")
                require(TEXT.get(k, "") in val, lambda: "the message of %s does not describe its failure: %r" % (s, val[-200:]), "message")
        for l in (0, 1):
            got = [s for s in current if int(s[1:3]) == l and s not in failed_now]
            order[l] += got
        # the storage
        check_storage(ctx, cfg, storage, samples, failed_now, order)
        ctx.state((cfg["pool"], rnd, sorted(failed_now), sorted((l, sorted(o)) for l, o in order.items())))
        if cfg["storage"] == "memory" or rnd >= cfg["renew"]:
            break
        rnd += 1
        if cfg.get("reopen"):
            storage = SampleStorageHDF(path)
            McSim.behaviour = {}
            sampler = factory(storage, rnd)
        del handed[:]
        reported.clear()
        sampler.renew_failed_samples()
        require(sorted(handed) == sorted((s, int(s[1:3])) for s in failed_now),
                lambda: "renewed %s instead of %s" % (handed, failed_now), "renewed")
        require(not any(storage.failed_samples().values()), "the failed list is not cleared", "not cleared")
        require({l: list(v) for l, v in storage.load_scheduled_samples().items() if v} ==
                {l: [s for s, lv, _ in samples if lv == l] for l in (0, 1) if n[l]}, "scheduled ids changed by renewal", "scheduled")
        if sc is not None:
            sc.wait_pools()
        sampler.ask_sampling_pool_for_samples()
        current = failed_now
    # the sampler goes on working
    del handed[:]
    sampler.set_level_target_n_samples([n[0] + 1, n[1]])
    samples.append((sid(0, n[0]), 0, []))
    sampler.schedule_samples()
    require(handed == [(sid(0, n[0]), 0)], lambda: "next sample %s" % handed, "next")


def check_storage(ctx, cfg, storage, samples, failed, order):
    pairs = storage.sample_pairs()
    n_fin = storage.n_finished()
    n_col = storage.get_n_collected()
    for l in (0, 1):
        ids = [s for s, lv, _ in samples if lv == l]
        f = [s for s in failed if int(s[1:3]) == l]
        require(int(n_fin[l]) == len(ids), "level %d: %s finished of %d" % (l, n_fin[l], len(ids)), "n_finished")
        require(int(n_col[l]) == len(ids) - len(f), "level %d: %s collected, %d failed" % (l, n_col[l], len(f)), "n_collected")
        want = sorted(tuple(expected_pair(seed_of(s), PARAMS[l][0], 0 if l == 0 else PARAMS[l - 1][0], 2)[0]) for s in ids if s not in f)
        got = [] if len(pairs[l]) == 0 else sorted(tuple(float(x) for x in pairs[l][:, i, 0]) for i in range(pairs[l].shape[1]))
        require(got == want, lambda: "level %d: stored %s instead of %s" % (l, got, want), "stored values")
        if cfg["storage"] == "hdf":
            st = storage.failed_samples()
            require(sorted(st[str(l)]) == sorted(f), lambda: "failed list %s instead of %s" % (st, f), "failed list")
    require(list(storage.unfinished_ids()) == [], "unfinished samples", "unfinished")
