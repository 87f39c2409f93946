"""C21: a PBS job killed at any line or byte of its result files."""
import builtins
import itertools
import os
from unittest import mock
from mc import pbs
from mc.crash import forked
from mc.engine import require, file_digest
from mc.sims import McSim, sid, seed_of, expected_pair, level_sims
from mlmc.quantity.quantity_spec import QuantitySpec

PROPERTY = "C21"
PARAMS = [[0.5], [0.25]]
FILES = ("/repo/mlmc/tool/pbs_job.py", "/repo/mlmc/sampling_pool.py")
BOUNDS = {
    "quick": "jobs of 1-4 samples on 2 levels, ok/failing mixes, with and without workspace; kill at every executed line of the "
             "job and after every byte written to the job directory (every torn prefix of every record)",
    "thorough": "more mixes and longer result vectors, every byte",
}
ASSUMPTIONS = ["bytes written before the kill are kept in order per file (no reordering of page writes after a power failure)"]


def setup(tier):
    pbs.install_fast_yaml()


def configs(tier):
    th = tier == "thorough"
    cs = []
    jobs = [("0", "o"), ("00", "oo"), ("01", "of"), ("10", "fo"), ("0011", "ofof"), ("0101", "ooff"), ("111", "fff")]
    if th:
        jobs += [("".join(l), "".join(b)) for l in itertools.product("01", repeat=3) for b in itertools.product("of", repeat=3)]
    for lv, beh in jobs:
        for size in ((1, 3) if not th else (1, 3, 40)):
            for ws in (False, True):
                if not th and (size == 3 or (ws and len(lv) > 3)) and lv != "01":
                    continue
                cs.append({"lv": lv, "beh": beh, "mode": "line", "size": size, "ws": ws, "split": 4})
            if th or size == 1 or lv == "01":
                step = 1 if (len(lv) <= 2 or th) else 11
                cs.append({"lv": lv, "beh": beh, "mode": "byte", "size": size, "ws": False, "step": step, "split": 8})
    return cs


def run(ctx):
    cfg = ctx.config
    d = ctx.scratch()
    side = os.path.join(d, "started")
    spec = [QuantitySpec("q", "m", (cfg["size"], 1), [1.0], ["a1"])]
    work = os.path.join(d, "work")
    McSim.behaviour, McSim.log = {}, []
    samples, n = [], [0, 0]
    for lv, b in zip(cfg["lv"], cfg["beh"]):
        l = int(lv)
        s = sid(l, n[l])
        n[l] += 1
        samples.append((l, s, "ok" if b == "o" else "raise"))
        McSim.behaviour[seed_of(s)] = samples[-1][2]
    by_seed = {seed_of(s): s for _, s, _ in samples}
    with pbs.FakePbs() as q, mock.patch("time.time", pbs.Tick().time):
        pool = pbs.new_pool(work, debug=cfg["ws"])
        sims = level_sims(McSim(spec, task_size=0.01, workspace=cfg["ws"]), PARAMS)
        for l, s, b in samples:
            pool.schedule_sample(s, sims[l])
        ok, bad, n_running, _ = pool.get_finished()
        os.chdir(d)             # the pool works inside the directory that is restored below
        require(not ok and not bad and n_running == len(samples), "the job is not running", "running")
        job = list(q.jobs.values())[0]

        class Log(list):
            def append(self, x):
                fd = os.open(side, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
                os.write(fd, (by_seed[x[0]] + "\n").encode())
                os.close(fd)
        McSim.log = Log()

        def body():
            pbs.run_job(job.output_dir, job.job_name)
        if cfg["mode"] == "line":
            snapshot = os.path.join(d, "snap")
            import shutil
            shutil.copytree(work, snapshot)
            total = forked(body, FILES)
            shutil.rmtree(work)
            shutil.move(snapshot, work)
            if os.path.exists(side):
                os.remove(side)
            k = ctx.choose(total, "kill at line")
            require(forked(body, FILES, kill_at=k), "kill point not reached", "harness")
        else:
            import shutil
            snapshot = os.path.join(d, "snap")
            shutil.copytree(work, snapshot)
            sizes = os.path.join(d, "bytes")
            forked(lambda: torn(body, work, None, sizes), ("/nonexistent",))
            with open(sizes) as f:
                total = int(f.read())
            shutil.rmtree(work)
            shutil.move(snapshot, work)
            os.remove(side)
            k = ctx.choose(total // cfg["step"] + 1, "kill after byte") * cfg["step"]
            forked(lambda: torn(body, work, k, sizes), ("/nonexistent",), kill_at=10 ** 9)
        McSim.log = []
        ctx.step(k + 1)
        started = []
        if os.path.exists(side):
            with open(side) as f:
                started = f.read().split()
        if ctx.visited((file_digest(work), started)):
            return
        # collect: the job has ended
        q.finish(job, killed=True)
        ok, bad, n_running, _ = pool.get_finished()
        require(n_running == 0, "%s samples are still running" % n_running, "running")
        got = {}
        for kind, res in (("ok", ok), ("raise", bad)):
            for lv, items in res.items():
                for s, val in items:
                    require(s not in got, "sample %s reported twice" % s, "duplicate")
                    require(int(s[1:3]) == int(lv), "wrong level", "level")
                    if kind == "ok":
                        l = int(lv)
                        f, c = expected_pair(seed_of(s), PARAMS[l][0], 0 if l == 0 else PARAMS[l - 1][0], cfg["size"])
                        require(list(val[0]) == list(f) and list(val[1]) == list(c),
                                lambda: "sample %s has a wrong value %r" % (s, val), "value")
                    else:
                        require(bool(val), "no message", "message")
                    got[s] = kind
        require(sorted(got) == sorted(s for _, s, _ in samples), lambda: "reported %s" % sorted(got), "lost or invented")
        truth = {s: b for _, s, b in samples}
        require(len(started) == len(set(started)), "a sample was computed twice", "twice")
        for s in started[:-1]:
            require(got[s] == truth[s], lambda: "sample %s finished (%s) before the kill but is reported as %s; started %s" % (
                s, truth[s], got[s], started), "finished sample lost")
        for s in got:
            if s not in started:
                require(got[s] == "raise", "sample %s was not computed but is reported as successful" % s, "not computed")
            elif truth[s] == "raise":
                require(got[s] == "raise", "failing sample is reported as successful", "failing")
        ctx.state((sorted(got.items()), started))


def torn(body, work, limit, sizes):
    """Run the job with every write into the work directory unbuffered and cut (with death) after `limit` bytes."""
    real_open = builtins.open
    total = [0]

    class F:
        def __init__(self, f, raw):
            self.f, self.raw = f, raw

        def write(self, data):
            b = data.encode() if isinstance(data, str) else bytes(data)
            if limit is not None and total[0] + len(b) > limit:
                os.write(self.raw, b[:limit - total[0]])
                os._exit(77)
            total[0] += len(b)
            self.f.flush()
            os.write(self.raw, b)
            return len(data)

        def writelines(self, ls):
            for x in ls:
                self.write(x)

        def __getattr__(self, n):
            return getattr(self.f, n)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.f.close()

    def fake(file, mode="r", *a, **k):
        f = real_open(file, mode, *a, **k)
        if isinstance(file, str) and os.path.abspath(file).startswith(work) and any(c in mode for c in "awx+"):
            return F(f, f.fileno())
        return f
    builtins.open = fake
    try:
        body()
    finally:
        builtins.open = real_open
    with real_open(sizes, "w") as f:
        f.write(str(total[0]))
    if limit is not None:
        os._exit(77)
