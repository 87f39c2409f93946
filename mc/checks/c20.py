"""C20: PBS master stopped at any point and restarted on the kept work directory and file storage."""
import itertools
import os
import shutil
from unittest import mock
from mc import pbs
from mc.checks import c09
from mc.crash import forked
from mc.engine import require, file_digest
from mc.sims import McSim, sid, seed_of
from mlmc.sampler import Sampler
from mlmc.sample_storage_hdf import SampleStorageHDF

PROPERTY = "C20"
PARAMS = c09.PARAMS
FILES = ("/repo/mlmc/sampling_pool_pbs.py", "/repo/mlmc/tool/pbs_job.py", "/repo/mlmc/sampler.py")
OPS = ["S", "P", "J", "K", "C", "R", "F", "N"]
BOUNDS = {
    "quick": "2 levels; all histories S + <=3 operations from {schedule, poll, finish oldest job, finish newest job, compute newest "
             "job without ending it, restart master, PBS server forgets a finished job, renew failed}, then restart, drain, "
             "restart, renew, drain; kill inside the last schedule/poll/renew of a history of <=3 operations at every executed "
             "line of pool, job and sampler code; 120 jobs in every state with two restarts",
    "thorough": "histories S + <=4 operations; kill inside the last operation of histories of <=4 operations",
}
ASSUMPTIONS = ["the work directory and the storage file are kept (debug=True, as documented for restarts)",
               "a job whose submission was accepted but not recorded before the master was killed may be reported as failed",
               "the master dies between two lines of Python code; job files written before are kept"]


def setup(tier):
    pbs.install_fast_yaml()


def redundant(h):
    for a, b in zip(h, h[1:]):
        if (a, b) in (("R", "R"), ("N", "N"), ("C", "C")):
            return True
    if h[-1] == "R":
        return True
    return "F" in h and not ({"J", "K"} & set(h[:h.index("F")]))


def configs(tier):
    th = tier == "thorough"
    cs = []
    for n in range(0, 5 if th else 4):
        for h in itertools.product(OPS, repeat=n):
            h = ["S"] + list(h)
            if redundant(h):
                continue
            for fail in ("none", "odd"):
                if fail == "none" and "N" in h:
                    continue
                cs.append({"mode": "stop", "h": h, "fail": fail})
    for n in range(0, 4 if th else 3):
        for h in itertools.product(OPS, repeat=n):
            h = ["S"] + list(h)
            if redundant(h) or h[-1] not in "SPN":
                continue
            if h[-1] == "N" and not ({"J", "K"} & set(h)) and "R" not in h:
                continue
            cs.append({"mode": "kill", "h": h, "fail": "odd", "split": 8})
    if not th:
        for h in ("SPJP", "SPJS", "SJPN", "SKPN", "SRPN", "SJRP"):
            cs.append({"mode": "kill", "h": list(h), "fail": "odd", "split": 8})
    for poll in (False, True):
        for fail in ("none", "odd"):
            cs.append({"mode": "scale", "n": 160 if th else 80, "poll": poll, "fail": fail})
    return cs


class World:
    def __init__(self, ctx):
        self.ctx = ctx
        self.d = ctx.scratch()
        self.work = os.path.join(self.d, "work")
        self.path = os.path.join(self.d, "s.h5")
        self.outcome = {}           # sample -> outcomes computed by jobs so far
        self.quiet = ctx.config["mode"] == "kill"      # the same histories are checked step by step in mode "stop"
        self.doubtful = set()       # samples of jobs accepted in the operation that was killed
        self.by_seed = {seed_of(sid(l, i)): sid(l, i) for l in range(2) for i in range(200)}
        self.size = 1.5 if ctx.config["mode"] == "scale" else 0.6

    def restart(self):
        os.chdir(self.d)
        self.storage = SampleStorageHDF(self.path)
        self.pool = pbs.new_pool(self.work, debug=True)
        self.sampler = Sampler(self.storage, self.pool, McSim(task_size=self.size), PARAMS)

    def samples_of(self, job):
        """Samples a job computes - observed by running it."""
        return job.samples

    def compute(self, job):
        if job.computed:
            return
        McSim.log = []
        self.q.compute(job)
        job.samples = [self.by_seed[x[0]] for x in McSim.log]
        for s in job.samples:
            self.outcome.setdefault(s, []).append(McSim.behaviour.get(seed_of(s), "ok"))

    def poll(self):
        self.sampler.ask_sampling_pool_for_samples(timeout=1e-15)

    def master(self, op):
        """Operations of the master process."""
        if op == "S":
            now = [int(x) for x in self.sampler.l_scheduled_samples()]
            self.sampler.set_level_target_n_samples([now[0] + 2, now[1] + 1])
            self.sampler.schedule_samples(timeout=1e-15)
        elif op == "P":
            self.poll()
        elif op == "N":
            self.sampler.renew_failed_samples()

    def do(self, op):
        q = self.q
        if op == "R":
            self.restart()
        elif op in "SPN":
            if op == "N":
                McSim.behaviour = {}
            self.master(op)
            os.chdir(self.d)
        elif op == "F":
            fin = [j for j in q.jobs.values() if j.state == "F" and not j.forgotten]
            if fin:
                fin[0].forgotten = True
        else:
            live = [j for j in q.jobs.values() if j.state != "F"]
            if live:
                j = live[0] if op == "J" else live[-1]
                self.compute(j)
                if op != "C":
                    q.finish(j)
        q.save()
        if not self.quiet:
            self.check()

    def unique(self):
        names = [(j.output_dir, j.job_name) for j in self.q.jobs.values()]
        require(len(names) == len(set(names)), lambda: "job names reused: %s" % names, "job name")

    def check(self):
        self.ctx.step()
        self.unique()
        led = c09.ledger(self.path)
        for l in led.values():
            for s in l["collected"]:
                require("ok" in self.outcome.get(s, []), lambda: "sample %s is collected, jobs computed %s" % (s, self.outcome.get(s)),
                        "collected without result")
            for s in l["failed"]:
                if s in self.outcome or s in self.doubtful:
                    require("raise" in self.outcome.get(s, []) or s in self.doubtful,
                            lambda: "sample %s is failed, jobs computed %s" % (s, self.outcome.get(s)), "successful lost")
                else:
                    live = [j for j in self.q.jobs.values() if not j.computed]
                    if live:
                        require(s not in self.pending(live), "sample %s of a job still in the queue is declared failed" % s,
                                "queued failed")
        self.ctx.state((sorted((k, sorted(v.items())) for k, v in led.items()), [j.state for j in self.q.jobs.values()]))
        return led

    def check_scale(self):
        self.ctx.step()
        led = c09.ledger(self.path)
        for l in led.values():
            for kind, want in (("collected", "ok"), ("failed", "raise")):
                bad = [s for s in l[kind] if self.outcome.get(s) != [want]]
                require(not bad, lambda: "%s %s, computed %s" % (kind, bad[:3], [self.outcome.get(s) for s in bad[:3]]), "scale kind")
        self.ctx.state([(k, len(v["collected"]), len(v["failed"]), len(v["sched"])) for k, v in sorted(led.items())])
        return led

    def pending(self, jobs):
        """Samples that the jobs in the queue will compute (observed on a copy of the work directory)."""
        shot = os.path.join(self.d, "peek")
        shutil.copytree(self.work, shot)
        log, beh = McSim.log, McSim.behaviour
        out = set()
        try:
            for j in jobs:
                McSim.log = []
                pbs.run_job(j.output_dir, j.job_name)
                out |= {self.by_seed[x[0]] for x in McSim.log}
        finally:
            McSim.log, McSim.behaviour = log, beh
            os.chdir(self.d)
            shutil.rmtree(self.work)
            shutil.move(shot, self.work)
        return out

    def drain(self):
        q = self.q
        for _ in range(25):
            n = self.sampler.ask_sampling_pool_for_samples(timeout=1e-15)
            os.chdir(self.d)
            q.save()
            self.check()
            rest = self.storage.unfinished_ids()
            if n == 0:
                require(not rest, lambda: "nothing is running but %s are unfinished" % sorted(rest), "lost")
                return
            live = [j for j in q.jobs.values() if j.state != "F"]
            require(live, lambda: "%s samples are running but no job is in the queue (unfinished %s)" % (n, sorted(rest)), "phantom")
            self.compute(live[0])
            q.finish(live[0])
        require(False, "the pool still reports running samples", "endless")


FAIL = c09.FAIL


def scale(ctx, w, q, cfg):
    """More than a hundred jobs, restarts with jobs in every state"""
    n = cfg["n"]
    w.sampler.set_level_target_n_samples([n, n // 2])
    w.sampler.schedule_samples(timeout=1e-15)
    jobs = list(q.jobs.values())
    require(len(jobs) >= 100, "%d jobs" % len(jobs), "harness")
    w.unique()

    def end(sel):
        for j in sel:
            w.compute(j)
            q.finish(j)
    end(jobs[::3])
    for j in jobs[1::3]:
        w.compute(j)
    if cfg["poll"]:
        w.poll()
    os.chdir(w.d)
    w.do("R")
    w.poll()
    os.chdir(w.d)
    done = {s for j in jobs[::3] for s in j.samples}
    led = w.check_scale()
    for l in led.values():
        require(set(l["collected"]) | set(l["failed"]) == {s for s in done if s in l["sched"]}, "samples of finished jobs after a restart", "scale")
    w.sampler.set_level_target_n_samples([n + 7, n // 2 + 7])
    w.sampler.schedule_samples(timeout=1e-15)
    w.unique()
    w.do("R")
    end([j for j in q.jobs.values() if j.state != "F"][::2])
    w.poll()
    os.chdir(w.d)
    w.check_scale()
    w.do("R")
    end([j for j in q.jobs.values() if j.state != "F"])
    left = w.sampler.ask_sampling_pool_for_samples(timeout=1e-15)
    os.chdir(w.d)
    require(left == 0 and not w.storage.unfinished_ids(), "%s running, %d unfinished" % (left, len(w.storage.unfinished_ids())), "scale lost")
    led = w.check_scale()
    require([len(led[l]["collected"]) + len(led[l]["failed"]) for l in sorted(led)] == [n + 7, n // 2 + 7], "samples of the levels", "scale")
    require(all(len(v) == 1 for v in w.outcome.values()), "a sample is computed twice", "scale computed")


def run(ctx):
    cfg = ctx.config
    w = World(ctx)
    fail = FAIL[cfg["fail"]]
    McSim.log = []
    McSim.behaviour = {seed_of(sid(l, i)): "raise" for l in range(2) for i in range(200) if fail(i)}
    qpath = os.path.join(w.d, "queue")
    with pbs.FakePbs(path=qpath) as q, mock.patch("time.time", pbs.Tick().time):
        w.q = q
        q.save()
        if cfg["mode"] == "scale":
            w.quiet = True
            w.restart()
            return scale(ctx, w, q, cfg)
        w.restart()
        h = cfg["h"]
        for op in h if cfg["mode"] == "stop" else h[:-1]:
            w.do(op)
        if cfg["mode"] == "kill":
            kill(ctx, w, h[-1], qpath)
            if ctx.visited((file_digest(w.work, w.path), q.snapshot(), sorted(w.doubtful), sorted(w.outcome.items()))):
                return
        w.quiet = False
        w.do("R")
        w.drain()
        first = w.check()
        w.do("R")
        w.poll()
        os.chdir(w.d)
        again = w.check()
        require(first == again, lambda: "restart changes the collected samples: %s -> %s" % (first, again), "again")
        McSim.behaviour = {}
        w.do("N")
        w.drain()
        end = w.check()
        for l in end:
            require(not end[l]["failed"] and sorted(end[l]["collected"]) == sorted(end[l]["sched"]),
                    lambda: "not all samples are collected after renewal: %s" % end[l], "renewed lost")
            require(first[l]["sched"] == end[l]["sched"], "scheduled samples changed", "sched")


def kill(ctx, w, op, qpath):
    q = w.q
    if op == "N":
        McSim.behaviour = {}
    keep = [w.work, w.path, qpath]
    for p in keep:
        (shutil.copytree if os.path.isdir(p) else shutil.copy)(p, p + ".keep")

    def restore():
        os.chdir(w.d)
        for p in keep:
            if os.path.isdir(p):
                shutil.rmtree(p)
                shutil.copytree(p + ".keep", p)
            else:
                shutil.copy(p + ".keep", p)
    n = forked(lambda: w.master(op), FILES)
    restore()
    before = set(q.jobs)
    k = ctx.choose(n, "kill at")
    require(forked(lambda: w.master(op), FILES, kill_at=k), "kill point not reached", "harness")
    ctx.step(k)
    q.reload()
    new = [j for i, j in q.jobs.items() if i not in before]
    if new:
        w.doubtful = w.pending(new)
    os.chdir(w.d)
