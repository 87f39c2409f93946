"""C02: target counts, unique consecutive ids, level pairing, over all histories of targets / scheduling / restarts."""
import os
import numpy as np
from mc.engine import require
from mc.sims import sid, seed_of
from mlmc.sampler import Sampler
from mlmc.sampling_pool import OneProcessPool
from mlmc.sample_storage import Memory
from mlmc.sample_storage_hdf import SampleStorageHDF
from mlmc.sim.simulation import Simulation
from mlmc.level_simulation import LevelSimulation
from mlmc.quantity.quantity_spec import QuantitySpec

PROPERTY = "C02"
BOUNDS = {
    "quick": "1-3 levels (12 levels: length 3); all histories of length 4 (memory) / 3 (HDF file) over 6 initial counts, 5 target vectors, schedule, "
             "poll, restart, each followed by schedule+poll; two-component level parameters",
    "thorough": "histories of length 5 (memory) / 4 (HDF file), same alphabet",
}
ASSUMPTIONS = ["one-process pool; a restart of the memory storage is a new sampler on the same storage object"]
PARAMS = {1: [[0.5, 7.0]], 2: [[0.5, 7.0], [0.25, 8.0]], 3: [[1.0, 7.0], [0.5, 8.0], [0.125, 9.0]],
          12: [[1.0 / (i + 1), 7.0 + i] for i in range(12)]}


class Sim(Simulation):
    log = []

    def __init__(self):
        self.need_workspace = False

    def level_instance(self, fine_level_params, coarse_level_params):
        return LevelSimulation(config_dict={"f": [float(x) for x in fine_level_params],
                                            "c": [float(x) for x in coarse_level_params]}, task_size=0.1)

    def result_format(self):
        return [QuantitySpec("q", "m", (1, 1), [1.0], ["a1"])]

    @staticmethod
    def calculate(config, seed):
        Sim.log.append((int(seed), tuple(config["f"]), tuple(config["c"])))
        return np.array([1.0]), np.array([0.5])


class Pool(OneProcessPool):
    def __init__(self):
        super().__init__()
        self.ids = []

    def schedule_sample(self, sample_id, level_sim):
        self.ids.append(sample_id)
        return super().schedule_sample(sample_id, level_sim)


def alphabet(L):
    ops = [("I", [4]), ("I", [5, 2]), ("I", [1, 1]), ("I", [2, 40])]
    if L == 12:
        return [("I", [4]), ("I", [5, 2]), ("T", [(i * 5) % 12 for i in range(L)]), ("T", [1] * L), ("S",), ("P",), ("R",)]
    if L == 3:
        ops += [("I", [1, 3, 2]), ("I", np.array([2, 0, 1]))]
        ops += [("T", [1, 2, 0]), ("T", [3, 1, 4]), ("T", np.array([2., 2., 2.])), ("T", [0, 0, 5])]
    elif L == 2:
        ops += [("T", [1, 2]), ("T", [3, 0]), ("T", np.array([0., 4.])), ("T", [5, 5])]
    else:
        ops += [("T", [1]), ("T", [3]), ("T", np.array([6.]))]
    return ops + [("S",), ("P",), ("R",)]


def configs(tier):
    d = 1 if tier == "thorough" else 0
    cs = []
    for st, depth in (("mem", 4 + d), ("hdf", 3 + d)):
        for L in (1, 2, 3):
            n = len(alphabet(L))
            for first in range(n):
                for second in range(n):
                    cs.append({"storage": st, "L": L, "depth": depth, "first": first, "second": second})
        n = len(alphabet(12))
        cs += [{"storage": st, "L": 12, "depth": 3, "first": a, "second": b} for a in range(n) for b in range(n)]
    return cs


def ref_range(n0, nL, L):
    e = [np.log2(n0)] if L == 1 else [np.log2(n0) + (np.log2(nL) - np.log2(n0)) * i / (L - 1) for i in range(L)]
    return [2.0 ** x for x in e]


def run(ctx):
    cfg = ctx.config
    L = cfg["L"]
    params = PARAMS[L]
    Sim.log = []
    path = os.path.join(ctx.scratch(), "s.h5")
    st = {"storage": Memory() if cfg["storage"] == "mem" else SampleStorageHDF(path), "ids": []}

    def fresh():
        st["pool"] = Pool()
        st["sampler"] = Sampler(st["storage"], st["pool"], Sim(), params)
        st["target"] = [0] * L

    fresh()
    sched = [0] * L
    alpha = alphabet(L)

    def check():
        ids = st["ids"] + st["pool"].ids
        want = [sid(l, i) for l in range(L) for i in range(sched[l])]
        require(sorted(ids) == sorted(want), lambda: "samples handed to the pool %s, expected %s" % (sorted(ids), want))
        stored = st["storage"].load_scheduled_samples()
        for l in range(L):
            got = list(stored.get(l, []))
            require(got == [sid(l, i) for i in range(sched[l])],
                    lambda: "scheduled ids of level %d in the storage: %s (expected %d)" % (l, got, sched[l]))
        require([int(x) for x in st["sampler"].l_scheduled_samples()] == sched, "reported scheduled counts differ")
        require(st["sampler"].n_levels == L, "wrong number of levels")
        # each sample was computed once, with its own level pair
        want_log = sorted((seed_of(sid(l, i)), tuple(params[l]), (0.0,) if l == 0 else tuple(params[l - 1]))
                          for l in range(L) for i in range(sched[l]))
        require(sorted(Sim.log) == want_log, lambda: "computed samples %s, expected %s" % (sorted(Sim.log), want_log))
        ctx.state((sched, st["target"], len(ids)))

    def do(op):
        nonlocal sched
        ctx.step()
        s = st["sampler"]
        if op[0] == "I":
            n = op[1]
            s.set_initial_n_samples(n.copy() if isinstance(n, np.ndarray) else list(n))
            if len(n) == 1:
                st["target"] = ref_range(n[0], 10, L)
            elif len(n) == 2:
                st["target"] = ref_range(n[0], n[1], L)
            else:
                st["target"] = [int(x) for x in n]
        elif op[0] == "T":
            s.set_level_target_n_samples(op[1])
            st["target"] = [max(st["target"][l], int(op[1][l])) for l in range(L)]
        elif op[0] == "S":
            s.schedule_samples()
            new = [int(x) for x in s.l_scheduled_samples()]
            for l in range(L):
                t = st["target"][l]
                if t == int(t):
                    require(new[l] == max(sched[l], int(t)),
                            "level %d: %d scheduled, before %d, target %s" % (l, new[l], sched[l], t))
                else:       # rounded geometric range
                    require(abs(new[l] - max(sched[l], t)) <= 0.5 + 1e-9,
                            "level %d: %d scheduled, before %d, target %s" % (l, new[l], sched[l], t))
                    st["target"][l] = max(new[l], int(np.round(t))) if new[l] > sched[l] else t
            sched = new
            check()
        elif op[0] == "P":
            r = s.ask_sampling_pool_for_samples()
            require(r == 0, "%s samples still running" % r)
        elif op[0] == "R":
            st["ids"] += st["pool"].ids
            if cfg["storage"] == "hdf":
                st["storage"] = SampleStorageHDF(path)
            fresh()
            check()

    do(alpha[cfg["first"]])
    do(alpha[cfg["second"]])
    for _ in range(cfg["depth"] - 2):
        do(alpha[ctx.choose(len(alpha), "op")])
    do(("S",))
    do(("P",))
    nf = [int(x) for x in st["sampler"].n_finished_samples]
    require(all(nf[l] <= sched[l] for l in range(L)), "more finished than scheduled")
