"""Controllable simulations: the result encodes (fine step, coarse step, seed); behaviour is keyed by the seed."""
import numpy as np
from typing import List
from mlmc.sim.simulation import Simulation
from mlmc.level_simulation import LevelSimulation
from mlmc.quantity.quantity_spec import QuantitySpec
from mlmc.sampling_pool import SamplingPool


def sid(level, i):
    """The documented sample id format."""
    return "L{:02d}_S{:07d}".format(level, i)


def seed_of(sample_id):
    return int(SamplingPool.compute_seed(sample_id))


def expected_pair(seed, fine, coarse, size):
    """Reference result of a sample."""
    base = float(seed % 9973) / 16.0
    k = np.arange(size)
    f = base + k + fine * 1024
    if coarse == 0:
        c = np.zeros(size)
    else:
        c = base + k + coarse * 1024
    return f, c


class Boom(Exception):
    pass


class Unloadable(Exception):
    """Can be pickled but not loaded again."""
    def __init__(self, a, b):
        super().__init__("unloadable")


class McSim(Simulation):
    """behaviour[seed] in {'ok','raise','short','long','baseexc-like'...}; calls are logged in McSim.log"""
    behaviour = {}
    log = []
    SIZE_SPEC = [QuantitySpec("q", "m", (1, 1), [1.0], ["a1"])]

    def __init__(self, spec=None, task_size=0.1, workspace=False, common_files=None):
        self.spec = spec or McSim.SIZE_SPEC
        self.task_size = task_size
        self.need_workspace = workspace
        self.common_files = common_files

    def level_instance(self, fine_level_params: List[float], coarse_level_params: List[float]) -> LevelSimulation:
        cfg = {"fine": float(fine_level_params[0]), "coarse": float(coarse_level_params[0]),
               "size": result_len(self.spec)}
        return LevelSimulation(config_dict=cfg, task_size=self.task_size, need_sample_workspace=self.need_workspace,
                               common_files=self.common_files)

    def result_format(self):
        return self.spec

    @staticmethod
    def calculate(config, seed):
        McSim.log.append((int(seed), config["fine"], config["coarse"]))
        b = McSim.behaviour.get(int(seed), "ok")
        n = config["size"]
        f, c = expected_pair(int(seed), config["fine"], config["coarse"], n)
        if b == "ok":
            return f, c
        if b == "raise":
            raise Boom("boom %d" % int(seed))
        if b == "short":
            return f[:-1], c[:-1]
        if b == "long":
            return np.append(f, 1.0), np.append(c, 1.0)
        if b == "uneven":
            return f, np.append(c, 1.0)
        if b == "keyerror":
            return {}["missing"]
        if b == "zerodiv":
            return 1 / 0
        if b == "unpicklable":
            class Local(Exception):
                def __init__(self, a, b):
                    super().__init__(a)
            raise Local(1, 2)
        if b == "unicode":
            raise ValueError("teplota \u00e9\u0159 \U0001F600 mimo rozsah")
        if b == "nul":
            raise ValueError("bad \x00 byte: and 'yaml' \\n- {x: [")
        if b == "longmsg":
            raise ValueError("\u010d" * 5000)
        if b == "none":
            return None
        if b == "single":
            return (f,)
        if b == "empty":
            return np.array([]), np.array([])
        if b == "untransferable":
            o = np.empty(n, dtype=object)
            o[:] = lambda: 0
            return o, o
        if b == "badpickle":
            raise Unloadable(1, 2)
        raise AssertionError(b)


def result_len(specs):
    return int(sum(np.prod(s.shape) * len(s.times) * len(s.locations) for s in specs))


class CapturePool(SamplingPool):
    """Records what the sampler hands to a pool (the public pool interface)."""
    def __init__(self):
        super().__init__()
        self.calls = []

    def schedule_sample(self, sample_id, level_sim):
        self.calls.append((sample_id, level_sim))

    def have_permanent_samples(self, sample_ids):
        self.permanent = list(sample_ids)

    def get_finished(self):
        return {}, {}, 0, []


def level_sims(sim, params):
    """LevelSimulation objects exactly as the sampler creates them, one per level."""
    from mlmc.sampler import Sampler
    from mlmc.sample_storage import Memory
    p = CapturePool()
    s = Sampler(Memory(), p, sim, params)
    s.set_level_target_n_samples([1] * len(params))
    s.schedule_samples()
    by_level = {}
    for sample_id, ls in p.calls:
        by_level[int(sample_id[1:3])] = ls
    return [by_level[i] for i in range(len(params))]
