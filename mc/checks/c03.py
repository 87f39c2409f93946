"""C03: the adaptive adding step, over all estimates, starting states, adding fractions and completion patterns."""
import itertools
import os
import numpy as np
from mc.engine import require, Violation
from mc.sims import McSim, sid, seed_of, expected_pair
from mlmc.sampler import Sampler
from mlmc.sampling_pool import SamplingPool
from mlmc.sample_storage import Memory
from mlmc.sample_storage_hdf import SampleStorageHDF

PROPERTY = "C03"
BOUNDS = {
    "quick": "1-3 levels; starting counts and estimates from {0..40, non-integers} (all vectors of the grid), adding fractions "
             "{0.1, 0.25, 0.5, 1}, estimate changed once on the way; completion patterns: all / one by one / newest first / "
             "level-starved / every second failed; every choice none-one-all of the first 4 polls; memory and HDF storage; single "
             "cases of 12 levels and of 2500 samples",
    "thorough": "larger grids, choice over the first 7 polls",
}
ASSUMPTIONS = ["the pool eventually finishes every sample it was given (at most 3 empty polls in a row)",
               "earlier targets are already scheduled when an adding step starts"]


class Pool(SamplingPool):
    """Finishes pending samples in a chosen pattern."""
    def __init__(self, ctx, pattern, n_choices=0, fail=lambda s: False, params=None):
        super().__init__()
        self.ctx, self.pattern, self.left, self.fail = ctx, pattern, n_choices, fail
        self.params = params
        self.pending = []
        self.polls = 0
        self.empty = 0

    def schedule_sample(self, sample_id, level_sim):
        self.pending.append(sample_id)

    def have_permanent_samples(self, sample_ids):
        pass

    def get_finished(self):
        self.polls += 1
        self.ctx.step()
        if self.polls > 5000:
            raise Violation("adding samples does not terminate: polled %d times" % self.polls, "no termination")
        p = self.pattern
        take = list(self.pending)
        if self.left > 0 and self.pending:
            self.left -= 1
            c = self.ctx.choose(3, "poll")
            if c == 0:
                take = list(self.pending)
            elif c == 1:
                take = self.pending[:1]
            else:
                take = []
        elif p == "one":
            take = self.pending[:1]
        elif p == "newest":
            take = self.pending[-2:]
        elif p == "level":
            lv = max(s[:3] for s in self.pending) if self.pending else None
            take = [s for s in self.pending if s[:3] == lv][:3]
        elif p == "lag":
            take = self.pending if self.polls % 3 == 0 else []
        ok, bad = {}, {}
        for s in take:
            self.pending.remove(s)
            lv = int(s[1:3])
            if self.fail(s):
                bad.setdefault(lv, []).append((s, "failed"))
            else:
                f, c = expected_pair(seed_of(s), self.params[lv][0], 0 if lv == 0 else self.params[lv - 1][0], 1)
                ok.setdefault(lv, []).append((s, (f, c)))
        return ok, bad, len(self.pending), [(int(s[1:3]), [0.5, 1]) for s in take]


FAILS = {"none": lambda s: False, "all": lambda s: True, "odd": lambda s: int(s[-1]) % 2 == 1,
         "L0": lambda s: s.startswith("L00")}


def configs(tier):
    th = tier == "thorough"
    cs = []
    n_grid = [0, 1, 3, 10] + ([25] if th else [])
    e_grid = [0, 1, 4, 11, 37] + ([100] if th else [])

    def add(L, start, est, coef, pattern, fail, storage="mem", choices=0, est2=None, kind="int", timeout="default"):
        cs.append(dict(L=L, start=list(start), est=list(est), est2=est2, coef=coef, pattern=pattern, fail=fail,
                       storage=storage, choices=choices, kind=kind, timeout=timeout))
    for coef in (0.1, 0.25, 0.5, 1.0):
        for L in (1, 2, 3):
            g = e_grid if L < 3 else [0, 4, 37]
            ng = n_grid if L < 3 else [0, 3, 10]
            for start in itertools.product(ng, repeat=L):
                for est in itertools.product(g, repeat=L):
                    if L == 3 and not th and (sum(start) % 2 or coef == 0.25):
                        continue
                    add(L, start, est, coef, "all", "none")
        for est in itertools.product([0, 5, 21], repeat=2):
            for pattern in ("one", "newest", "level", "lag"):
                for fail in FAILS:
                    add(2, (2, 3), est, coef, pattern, fail)
        for est in itertools.product([0.3, 4.5, 20.01, 7.0], repeat=2):
            add(2, (2, 3), est, coef, "all", "none", kind="float")
            add(2, (1, 0), est, coef, "one", "odd", kind="float")
    for e1 in itertools.product([3, 30], repeat=2):
        for e2 in itertools.product([0, 10, 45], repeat=2):
            for fail in FAILS:
                add(2, (2, 2), e1, 0.1, "lag", fail, est2=list(e2))
                add(2, (2, 2), e1, 0.5, "one", fail, est2=list(e2))
    # many samples, many levels
    for coef in (0.1, 0.37, 1.0):
        for pattern, fail in (("all", "none"), ("lag", "odd")):
            add(2, (100, 7), (2500, 130), coef, pattern, fail)
            add(12, range(12), [60 - 5 * k for k in range(12)], coef, pattern, fail)
            add(5, (1, 1, 1, 1, 1), (1000.5, 250.25, 60, 16, 4.01), coef, pattern, fail, kind="float")
    # every none/one/all outcome of the first polls
    for start in ((1, 1), (3, 0), (0, 2)):
        for est in ((4, 4), (9, 2), (2, 9)):
            for fail in FAILS:
                for st in ("mem", "hdf"):
                    add(2, start, est, 0.3, "one", fail, storage=st, choices=(7 if th else 4) if st == "mem" else (4 if th else 2))
    for est in itertools.product([0, 6, 19], repeat=2):
        for fail in FAILS:
            add(2, (2, 1), est, 0.25, "lag", fail, storage="hdf")
            add(2, (2, 1), est, 0.25, "all", fail, storage="hdf", timeout="none")
            add(2, (2, 1), est, 0.25, "lag", fail, storage="mem", timeout="none")
    return cs


def run(ctx):
    cfg = ctx.config
    L = cfg["L"]
    params = [[2.0 ** -i] for i in range(1, L + 1)]
    pool = Pool(ctx, cfg["pattern"], cfg["choices"], FAILS[cfg["fail"]], params)
    storage = Memory() if cfg["storage"] == "mem" else SampleStorageHDF(os.path.join(ctx.scratch(), "s.h5"))
    sampler = Sampler(storage, pool, McSim(), params)
    sampler.set_level_target_n_samples(cfg["start"])
    sampler.schedule_samples(timeout=1e-15)
    dt = float if cfg["kind"] == "float" else int
    est = np.array(cfg["est"], dtype=dt)
    coef = cfg["coef"]
    steps = 0
    while True:
        before = np.array([int(x) for x in sampler.l_scheduled_samples()])
        arg = est.copy()
        kw = {} if cfg["timeout"] == "default" else {"timeout": None}
        done = sampler.process_adding_samples(arg, 0, coef, **kw)
        ctx.step()
        steps += 1
        require(np.array_equal(arg, est), "the caller's estimate was modified")
        after = np.array([int(x) for x in sampler.l_scheduled_samples()])
        stored = storage.load_scheduled_samples()
        require([len(stored.get(l, [])) for l in range(L)] == list(after), "storage and sampler disagree on scheduled counts")
        fin = np.array([int(x) for x in sampler.n_finished_samples])
        msg = "estimate %s before %s after %s finished %s returned %s" % (est, before, after, fin, done)
        require(len(fin) == L, "finished counts do not cover all levels: " + msg)
        require(np.all(after >= before), "scheduled count lowered: " + msg)
        require(np.all(after <= np.maximum(before, np.ceil(est))), "scheduled above the estimate: " + msg)
        gap = np.maximum(est - before, 0)
        require(np.all(after >= before + coef * gap - 1e-9), "raised by less than the fraction of the gap: " + msg)
        below = est > after
        require(np.all(fin[below] >= 0.5 * after[below]), "returned before half of the samples finished: " + msg)
        require(np.all(fin <= after), "more finished than scheduled: " + msg)
        require(bool(done) == bool(np.all(after >= est)), "wrong completion answer: " + msg)
        ctx.state((tuple(after), tuple(fin), bool(done)))
        if cfg["est2"] is not None and steps == 2:
            est = np.array(cfg["est2"], dtype=dt)
            continue
        if done:
            break
        require(steps < 400, "adding loop does not end: " + msg)
    # drain
    for _ in range(3000):
        if sampler.ask_sampling_pool_for_samples(timeout=1e-15) == 0:
            break
    fin = [int(x) for x in sampler.n_finished_samples]
    require(fin == list(after), "after draining %s finished of %s scheduled" % (fin, list(after)))
