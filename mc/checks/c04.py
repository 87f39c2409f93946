"""C04: the result of a sample depends on its id, level and simulation only."""
import itertools
import os
import subprocess
import sys
from unittest import mock
import numpy as np
import scipy.stats as stats
from mc import sched, pbs
from mc.engine import require
from mc.sims import McSim, sid, level_sims
import mlmc.sampling_pool
import mlmc.sim.synth_simulation
from mlmc.sampler import Sampler
from mlmc.sample_storage import Memory
from mlmc.sampling_pool import SamplingPool, OneProcessPool, ProcessPool, ThreadPool
from mlmc.sim.synth_simulation import SynthSimulation, SynthSimulationWorkspace

PROPERTY = "C04"
PARAMS = [[0.5], [0.125]]
BOUNDS = {
    "quick": "every order of 3 samples (2 levels) in the one-process pool and in PBS batches of 1-3, every completion order and "
             "<=1 preemption in the thread pool (every completion order in the process pool) with the synthetic simulations, sampler seeds {0,1,1234}, numpy global "
             "state perturbations, 3 interpreter hash seeds; seeds of all ids of 12 levels x 4000 samples + sparse ids to 9999999",
    "thorough": "4 samples, <=2 preemptions, 64 levels x 20000 ids",
}
ASSUMPTIONS = ["a simulation without randomly injected failures (nan_fraction = 0), which are by design history dependent",
               "threads switch only where CPython 3.12 can switch"]
DISTR = {"norm": lambda: stats.norm(loc=1, scale=2), "lognorm": lambda: stats.lognorm(scale=np.exp(1), s=0.5),
         "generic": lambda: stats.weibull_min(1.7, loc=0.5)}


def setup(tier):
    pbs.install_fast_yaml()
    sched.install(mlmc.sampling_pool)
    sched.instrument(["/repo/mlmc/sampling_pool.py", "/repo/mlmc/sim/synth_simulation.py"])
    # the library code that reads and writes the generator of a (possibly shared) distribution object
    import scipy.stats._distn_infrastructure as di
    sched.instrument([di.__file__], ("rvs", "random_state"))


def ids(n):
    return [(0, 0), (1, 0), (1, 1), (0, 7)][:n]


def configs(tier):
    th = tier == "thorough"
    n = 4 if th else 3
    cs = []
    for distr in DISTR:
        for order in itertools.permutations(range(n)):
            cs.append({"kind": "one", "distr": distr, "order": list(order)})
            cs.append({"kind": "one", "distr": distr, "order": list(order) + [order[0]]})
        for k in range(1, n + 1):
            for order in itertools.permutations(range(n), k):
                for size in (0.3, 0.6, 2.0):
                    if distr == "norm" or (th or k == 2):
                        cs.append({"kind": "pbs", "distr": distr, "order": list(order), "size": size})
    for distr in ("norm", "generic"):
        for order in itertools.permutations(range(2 if not th else 3)):
            if not th and distr == "generic" and order[0] == 0:
                continue
            cs.append({"kind": "thread", "distr": distr, "order": list(order), "bound": 1 if not th else 2, "split": 8})
        for order in itertools.permutations(range(3)):
            cs.append({"kind": "process", "distr": distr, "order": list(order), "bound": 0 if not th else 1, "split": 4})
    for order in itertools.permutations(range(n)):
        cs.append({"kind": "workspace", "order": list(order)})
    for seed in (0, 1, 1234):
        for pool in ("one", "process", "thread"):
            cs.append({"kind": "sampler", "seed": seed, "pool": pool})
    for hs in ("0", "1", "random"):
        cs.append({"kind": "hash", "hs": hs})
    levels, per = (64, 20000) if th else (12, 4000)
    for l in range(0, levels, 4):
        cs.append({"kind": "seeds", "levels": list(range(l, l + 4)), "per": per, "total": levels})
    for steps in itertools.product([1.0, 0.5, 0.1], repeat=2):
        for distr in DISTR:
            cs.append({"kind": "pair", "distr": distr, "steps": list(steps)})
    cs.sort(key=lambda c: -c.get("split", 1))
    return cs


REF = {}


def reference(distr, samples):
    """Each sample alone, with a simulation of its own."""
    key = (distr, tuple(samples))
    if key not in REF:
        out = {}
        for l, i in samples:
            out[sid(l, i)] = alone(sim(distr), l, sid(l, i))
        REF[key] = out
    return REF[key]


def alone(s, l, sample_id):
    ls = level_sims(s, PARAMS)
    p = OneProcessPool()
    p.schedule_sample(sample_id, ls[l])
    ok, bad, n, _ = p.get_finished()
    require(not bad and n == 0, lambda: "the sample failed %s" % bad, "failed")
    (lv, [(s_id, (f, c))]), = ok.items()
    require(lv == l and s_id == sample_id, "wrong sample", "wrong")
    return f.tobytes(), c.tobytes()


def sim(distr):
    return SynthSimulation(dict(distr=DISTR[distr](), complexity=2, nan_fraction=0))


def compare(got, ref, what):
    for s, (f, c) in got.items():
        require((np.asarray(f).tobytes(), np.asarray(c).tobytes()) == ref[s],
                lambda: "%s: sample %s differs from its reference: %s vs %s" % (
                    what, s, np.asarray(f), np.frombuffer(ref[s][0])), "not reproducible")


def collect(pool):
    import time
    got = {}
    while True:
        ok, bad, n, _ = pool.get_finished()
        require(not any(bad.values()), lambda: "failed %s" % bad, "failed")
        for lv, items in ok.items():
            for s, val in items:
                got.setdefault(s, []).append(val)
        if n == 0:
            return got
        time.sleep(0.001)


def perturb(k):
    """Arbitrary consumption of the global generators between samples must not matter."""
    import random
    np.random.seed(k)
    np.random.rand(k % 3)
    random.seed(k)


def run(ctx):
    cfg = ctx.config
    k = cfg["kind"]
    return globals()["run_" + k](ctx, cfg)


def run_one(ctx, cfg):
    samples = [ids(4)[i] for i in cfg["order"]]
    ref = reference(cfg["distr"], sorted(set(samples)))
    ls = level_sims(sim(cfg["distr"]), PARAMS)
    pool = OneProcessPool()
    for j, (l, i) in enumerate(samples):
        perturb(j + 1)
        pool.schedule_sample(sid(l, i), ls[l])
        ctx.step()
    for s, vals in collect(pool).items():
        for v in vals:
            compare({s: v}, ref, "one-process pool")
    ctx.state(sorted(ref.items()))


def run_pbs(ctx, cfg):
    samples = [ids(4)[i] for i in cfg["order"]]
    ref = reference(cfg["distr"], sorted(set(samples)))
    d = ctx.scratch()
    s = sim(cfg["distr"])
    with mock.patch.object(SynthSimulation, "n_ops_estimate", lambda self, step: cfg["size"]):
        ls = level_sims(s, PARAMS)
    with pbs.FakePbs() as q, mock.patch("time.time", pbs.Tick().time):
        pool = pbs.new_pool(os.path.join(d, "work"))
        for l, i in samples:
            pool.schedule_sample(sid(l, i), ls[l])
        pool.get_finished()
        os.chdir(d)
        for j in reversed(list(q.jobs.values())):
            perturb(5)
            q.finish(j)
            ctx.step()
        got = collect(pool)
        os.chdir(d)
    require(sorted(got) == sorted(ref), "samples missing", "missing")
    for x, vals in got.items():
        compare({x: vals[0]}, ref, "PBS pool")
    ctx.state((sorted(ref.items()), cfg["size"]))


def run_thread(ctx, cfg):
    samples = [ids(4)[i] for i in cfg["order"]]
    ref = reference(cfg["distr"], sorted(set(samples)))
    ls = level_sims(sim(cfg["distr"]), PARAMS)
    # both levels share one distribution object, as created by the sampler
    with sched.Sched(ctx) as sc:
        pool = ThreadPool(2) if cfg["kind"] == "thread" else ProcessPool(2)
        for l, i in samples:
            pool.schedule_sample(sid(l, i), ls[l])
        sc.wait_pools()
        got = collect(pool)
    require(sorted(got) == sorted(ref), "samples missing", "missing")
    for x, vals in got.items():
        compare({x: vals[0]}, ref, cfg["kind"] + " pool")


run_process = run_thread


def run_workspace(ctx, cfg):
    d = ctx.scratch()
    with open(os.path.join(d, SynthSimulationWorkspace.CONFIG_FILE), "w") as f:
        f.write("distr: norm\nnan_fraction: 0.0\n")
    conf = {"config_yaml": os.path.join(d, SynthSimulationWorkspace.CONFIG_FILE)}
    samples = [ids(4)[i] for i in cfg["order"]]

    def results(work, batch):
        ls = level_sims(SynthSimulationWorkspace(conf), PARAMS)
        pool = OneProcessPool(work_dir=os.path.join(d, work))
        for l, i in batch:
            perturb(l + i)
            pool.schedule_sample(sid(l, i), ls[l])
            ctx.step()
        got = collect(pool)
        os.chdir(d)
        return got
    ref = {}
    for j, x in enumerate(sorted(samples)):
        (s, [(f, c)]), = results("w%d" % j, [x]).items()
        ref[s] = (f.tobytes(), c.tobytes())
    for s, vals in results("all", samples).items():
        compare({s: vals[0]}, ref, "workspace simulation")
    ctx.state(sorted(ref.items()))


def run_sampler(ctx, cfg):
    st = Memory()
    if cfg["pool"] == "one":
        pool = OneProcessPool()
    else:
        pool = {"process": ProcessPool, "thread": ThreadPool}[cfg["pool"]](2)
    seen = {}
    orig = st.save_samples

    def save(ok, bad):
        require(not any(bad.values()), "failed", "failed")
        for l, items in ok.items():
            for s, v in items:
                seen[s] = v
        return orig(ok, bad)
    st.save_samples = save
    sampler = Sampler(st, pool, sim("norm"), PARAMS, seed=cfg["seed"])
    sampler.set_level_target_n_samples([3, 2])
    sampler.schedule_samples()
    sampler.ask_sampling_pool_for_samples()
    ref = reference("norm", [(0, 0), (0, 1), (0, 2), (1, 0), (1, 1)])
    require(sorted(seen) == sorted(ref), "samples missing", "missing")
    compare(seen, ref, "sampler")
    ctx.step(5)
    if hasattr(pool, "_pool"):
        pool._pool.terminate()


def run_hash(ctx, cfg):
    code = ("import sys; sys.path[:0]=['/verif','/repo']; from mc.checks import c04\n"
            "r=c04.reference('norm',[(0,0),(1,0)])\n"
            "from mlmc.sampling_pool import SamplingPool\n"
            "print(sorted((k,a.hex(),b.hex()) for k,(a,b) in r.items()),[int(SamplingPool.compute_seed(c04.sid(l,i))) "
            "for l in range(5) for i in range(50)])")
    env = dict(os.environ, PYTHONHASHSEED=cfg["hs"])
    env["PYTHONPATH"] = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))) + ":/repo"
    p = subprocess.run([sys.executable, "-c", code], env=env, capture_output=True, text=True)
    require(p.returncode == 0, lambda: p.stderr[-2000:], "subprocess failed")
    r = reference("norm", [(0, 0), (1, 0)])
    want = "%s %s" % (sorted((k, a.hex(), b.hex()) for k, (a, b) in r.items()),
                      [int(SamplingPool.compute_seed(sid(l, i))) for l in range(5) for i in range(50)])
    require(p.stdout.strip().splitlines()[-1] == want, "seeds or results differ in another interpreter", "hash seed")
    ctx.step(250)


def run_seeds(ctx, cfg):
    """Distinct samples get distinct seeds (independent random inputs), each seed fits RandomState."""
    per = cfg["per"]
    extra = [10 ** k + j for k in range(4, 7) for j in range(-2, 3)] + [9999999]
    seen = {}
    for l in range(cfg["total"]):
        for i in itertools.chain(range(per), extra):
            s = sid(l, i)
            v = int(SamplingPool.compute_seed(s))
            require(0 <= v < 2 ** 32, "seed %s is out of the generator's range" % v, "range")
            if v in seen and seen[v] != s and l in cfg["levels"]:
                seen.setdefault("collisions", []).append((s, seen[v]))
            seen[v] = s
        ctx.step(per)
    n = len(seen)
    total = cfg["total"] * (per + len(set(extra) - set(range(per))))
    c = seen.get("collisions", [])
    # a 32 bit seed: accidental collisions of a good hash are tolerated, systematic ones are not
    require(len(c) <= 3 + 2 * total * total / 2 ** 32, lambda: "%d of %d ids share their seed with another id, e.g. %s" % (
        len(c), total, c[:3]), "seed collisions")
    ctx.state(n)


def run_pair(ctx, cfg):
    """The fine and the coarse simulation of a sample have the same random input."""
    hf, hc = cfg["steps"]
    d = DISTR[cfg["distr"]]()
    s = SynthSimulation(dict(distr=d, complexity=2, nan_fraction=0))
    for x in ids(4):
        seed = SamplingPool.compute_seed(sid(*x))
        calc = lambda a, b: SynthSimulation.calculate(s.level_instance([a], [b]).config_dict, seed)
        f, c = calc(hf, hc)
        f2, c2 = calc(hc, hf)
        require(f.tobytes() == c2.tobytes() and c.tobytes() == f2.tobytes(),
                "coarse simulation with step h differs from the fine simulation with step h for the same sample", "pairing")
        if hf == hc:
            require(f.tobytes() == c.tobytes(), "equal steps give different results", "pairing")
        # every bit of the seed changes the random input
        for k in range(32):
            g, _ = SynthSimulation.calculate(s.level_instance([hf], [hc]).config_dict, seed ^ (1 << k))
            require(np.all(g != f), "seeds %d and %d give the same results" % (seed, seed ^ (1 << k)), "different samples")
        ctx.step(2)
        ctx.state((f, c))
