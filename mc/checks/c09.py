"""C09: killing the master at every line while it stores data leaves a consistent, resumable file."""
import itertools
import os
from mc.crash import forked
from mc.engine import require, file_digest
from mc.sims import McSim, sid, seed_of, expected_pair
from mlmc.sampler import Sampler
from mlmc.sampling_pool import OneProcessPool
from mlmc.sample_storage_hdf import SampleStorageHDF

PROPERTY = "C09"
PARAMS = [[0.5], [0.25]]
FILES = ("/repo/mlmc/sample_storage_hdf.py", "/repo/mlmc/tool/hdf5.py", "/repo/mlmc/sampler.py", "/repo/mlmc/sample_storage.py")
BOUNDS = {
    "quick": "2 levels, all histories of <=3 operations from {schedule 1-2 more samples per level, poll and store, renew failed}, "
             "kill at every executed line (and return) of sampler and storage code in the last operation, then resume to the end",
    "thorough": "histories of <=4 operations and a second kill during the resumed run at every 3rd line",
}
ASSUMPTIONS = ["the process dies between two lines of Python code (as by SIGKILL while no HDF5 library call is writing); "
               "the page cache survives; the initial creation of the file is not interrupted"]
OPS = ["S", "P", "N"]


def configs(tier):
    n = 4 if tier == "thorough" else 3
    cs = []
    for k in range(1, n + 1):
        for h in itertools.product(OPS, repeat=k):
            if h[0] != "S" or any(a == b for a, b in zip(h, h[1:])):
                continue
            for fail in ("odd", "none", "all"):
                if "N" in h and fail == "none":
                    continue
                cs.append({"h": list(h), "fail": fail, "split": 8, "second": tier == "thorough"})
    return cs


FAIL = {"odd": lambda i: i % 2 == 1, "none": lambda i: False, "all": lambda i: True}


class Master:
    def __init__(self, path):
        self.storage = SampleStorageHDF(path)
        self.pool = OneProcessPool()
        self.sampler = Sampler(self.storage, self.pool, McSim(), PARAMS)

    def do(self, op, round_):
        if op == "S":
            now = [int(x) for x in self.sampler.l_scheduled_samples()]
            self.sampler.set_level_target_n_samples([now[0] + 2, now[1] + 1 + round_ % 2])
            self.sampler.schedule_samples()
        elif op == "P":
            self.sampler.ask_sampling_pool_for_samples()
        else:
            # renewed samples succeed
            McSim.behaviour = {}
            self.sampler.renew_failed_samples()


def ledger(path):
    """Everything observable about the samples in the file; checks its internal consistency."""
    st = SampleStorageHDF(path)
    sched = st.load_scheduled_samples()
    failed = st.failed_samples()
    n_fin = st.n_finished()
    n_col = st.get_n_collected()
    pairs = st.sample_pairs()
    unfinished = sorted(st.unfinished_ids())
    st.get_n_ops()
    require(st.get_n_levels() == len(PARAMS), "levels lost")
    out = {}
    for l in range(len(PARAMS)):
        ids = list(sched[l])
        require(len(ids) == len(set(ids)), lambda: "an id is scheduled twice: %s" % ids, "scheduled twice")
        f = list(failed[str(l)])
        require(len(f) == len(set(f)), "an id failed twice", "failed twice")
        values = {}
        n = 0 if len(pairs[l]) == 0 else pairs[l].shape[1]
        require(int(n_col[l]) == n, "collected count %s but %s values" % (n_col[l], n), "count")
        require(int(n_fin[l]) == n + len(f), "level %d: %s finished ids, but %s values and %s failed" % (l, n_fin[l], n, len(f)),
                "id without value")
        table = {}
        for s in dict.fromkeys([sid(l, i) for i in range(40)] + list(ids)):
            a, b = expected_pair(seed_of(s), PARAMS[l][0], 0 if l == 0 else PARAMS[l - 1][0], 1)
            table.setdefault((a[0],) if l == 0 else (a[0], b[0]), []).append(s)
        collected = []
        for i in range(n):
            v = tuple(float(x) for x in pairs[l][0, i, :])
            require(v in table, lambda: "stored value %r belongs to no sample" % (v,), "foreign value")
            # values of different samples can coincide
            s = ([x for x in table[v] if x in ids and x not in f and x not in collected] or table[v])[0]
            collected.append(s)
        require(len(collected) == len(set(collected)), lambda: "a sample is stored twice: %s" % collected, "stored twice")
        unf = [s for s in unfinished if int(s[1:3]) == l]
        require(sorted(collected + f + unf) == sorted(ids) or set(collected + f) - set(ids),
                lambda: "scheduled %s = collected %s + failed %s + unfinished %s" % (ids, collected, f, unf), "ledger")
        require(not (set(collected) & set(f)), "a sample is both collected and failed", "both")
        require(not (set(collected + f) & set(unf)), "a finished sample is unfinished", "unfinished")
        out[l] = {"sched": ids, "failed": f, "collected": collected}
    return out


def run(ctx):
    cfg = ctx.config
    path = os.path.join(ctx.scratch(), "s.h5")
    fail = FAIL[cfg["fail"]]
    McSim.log = []
    McSim.behaviour = {seed_of(sid(l, i)): "raise" for l in range(2) for i in range(30) if fail(i)}
    m = Master(path)
    for r, op in enumerate(cfg["h"][:-1]):
        m.do(op, r)
    before = ledger(path)
    last = cfg["h"][-1]
    import shutil
    copy = path + ".count"
    shutil.copy(path, copy)
    shutil.copy(path, path + ".orig")
    n = forked(lambda: m.do(last, len(cfg["h"])), FILES)       # complete run, counts the kill points
    os.replace(path + ".orig", path)
    k = ctx.choose(n, "kill at")
    died = forked(lambda: m.do(last, len(cfg["h"])), FILES, kill_at=k)
    ctx.step(k)
    require(died, "kill point not reached", "harness")
    if ctx.visited(file_digest(path)) and not cfg["second"]:
        return
    after = ledger(path)
    for l in before:
        b, a = before[l], after[l]
        require(a["sched"][:len(b["sched"])] == b["sched"], "scheduled ids saved before the crash are lost", "lost scheduled")
        require(a["collected"][:len(b["collected"])] == b["collected"], "results saved before the crash are lost", "lost results")
        if last != "N":
            require(a["failed"][:len(b["failed"])] == b["failed"], "failures saved before the crash are lost", "lost failed")
        else:
            require(set(b["sched"]) == set(a["sched"]), "renewal changes scheduled samples", "renew")
            require(a["failed"] == b["failed"] or a["failed"] == [], "failed list of level %d is torn" % l, "renew torn")
    ctx.state((cfg["h"], cfg["fail"], [sorted(after[l].items()) for l in after]))
    # resume
    McSim.behaviour = {}

    def resume():
        m2 = Master(path)
        known = {s for l in after.values() for s in l["sched"]}
        sch = []
        orig = m2.pool.schedule_sample
        m2.pool.schedule_sample = lambda s, ls: (sch.append(s), orig(s, ls))[1]
        m2.do("S", 1)
        require(not (set(sch) & known), lambda: "known ids scheduled again: %s" % (set(sch) & known), "rescheduled")
        m2.do("P", 1)
        m2.do("N", 1)
        m2.do("P", 1)
        return m2
    if cfg["second"]:
        shutil.copy(path, path + ".orig")
        n2 = forked(resume, FILES)
        os.replace(path + ".orig", path)
        k2 = ctx.choose(n2 // 3, "second kill at") * 3
        forked(resume, FILES, kill_at=k2)
        mid = ledger(path)
        after = mid
    resume()
    end = ledger(path)
    for l in end:
        require(end[l]["sched"][:len(after[l]["sched"])] == after[l]["sched"], "scheduled ids lost when resumed", "lost scheduled")
        require(set(after[l]["collected"]) <= set(end[l]["collected"]), "results lost when resumed", "lost results")
        require(not end[l]["failed"], "renewed samples are still failed", "renew")
