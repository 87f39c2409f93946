"""C19: the PBS pool conserves samples under all job progress and qsub/qstat fault patterns."""
import itertools
import os
from unittest import mock
from mc import pbs
from mc.engine import Violation, require
from mc.sims import McSim, sid, seed_of, expected_pair, level_sims

PROPERTY = "C19"
PARAMS = [[0.5], [0.25], [0.125]]
BOUNDS = {
    "quick": "programs of up to 5 schedule/poll steps over 2 of 3 levels, task sizes 0.3/0.6/1.5 (1-4 samples per job), every job "
             "state (queued/running/finished) at every poll, <=2 command faults at any qsub/qstat (plus runs of 10 consecutive "
             "faults, also twice with one success in between), ok/failing samples; job progress deviations <=3 per execution; single large cases: 1100 "
             "samples in a job, 130 jobs, 12 levels, sample numbers beyond 10^7",
    "thorough": "programs of up to 6 steps, <=3 faults, progress deviations <=5",
}
ASSUMPTIONS = ["a failing qsub has not accepted the job; qstat -x prints one line per known job (PBS Pro format)",
               "jobs run to completion here (killed jobs are C21)"]


def setup(tier):
    pbs.install_fast_yaml()


def configs(tier):
    th = tier == "thorough"
    cs = []
    maxlen = 6 if th else 5
    for n in range(1, maxlen + 1):
        for p in itertools.product(["S0", "S1", "P"], repeat=n):
            k = sum(x != "P" for x in p)
            if k == 0 or p[0] == "P" or p[-1] == "P":
                continue
            if any(p[i] == p[i + 1] == "P" for i in range(n - 1)):
                continue
            if not th and n == 5 and k == 5 and p.count("S1") not in (1, 2):
                continue
            for size in (0.3, 0.6, 1.5):
                beh = ["raise" if (i % 3 == 1) else "ok" for i in range(k)]
                cs.append({"prog": list(p), "size": size, "beh": beh, "bound": (5 if n <= 4 else 4) if th else (3 if n <= 4 else 2),
                           "faults": 3 if th else 2})
    for kind in ("qsub", "qstat"):
        for p in (["S0", "S1"], ["S0", "P", "S1"], ["S0", "S1", "P", "S0"], ["S0"] + ["P"] * 12 + ["S1"]):
            for size in (0.6, 1.5):
                for again in (0, 1):
                    cs.append({"prog": p, "size": size, "beh": ["ok"] * 3, "bound": 0, "faults": 0, "burst": kind, "again": again})
    for first in (0, 9999990):
        cs.append({"scale": "one job", "n": 1100, "size": 0.0, "first": first, "bound": 0})
        cs.append({"scale": "jobs", "n": 260 if th else 130, "size": 1.5, "first": first, "bound": 0})
        cs.append({"scale": "levels", "n": 60, "size": 0.3, "first": first, "bound": 0})
    return cs


class Run:
    def __init__(self, ctx):
        self.ctx = ctx
        self.cfg = ctx.config
        self.left = self.cfg["faults"]
        self.burst = 10 if self.cfg.get("burst") else 0
        self.again = self.cfg.get("again", 0)

    def fault(self, kind):
        if self.cfg.get("burst") == kind and self.burst > 0:
            self.burst -= 1
            return True
        if self.cfg.get("burst") == kind and self.again:
            self.again, self.burst = 0, 10      # one success in between
            return False
        if self.left > 0 and self.ctx.choose(2, kind + " fault", costs=[0, 1]):
            self.left -= 1
            return True
        return False


def run_scale(ctx, cfg):
    """Single large cases: a job of more than a thousand samples, more than a hundred jobs, twelve levels, seven-digit sample numbers"""
    d = ctx.scratch()
    n_levels = 12 if cfg["scale"] != "one job" else 3
    par = [[2.0 ** -i] for i in range(n_levels)]
    sims = level_sims(McSim(task_size=cfg["size"]), par)
    McSim.behaviour, McSim.log = {}, []
    with pbs.FakePbs() as q, mock.patch("time.time", pbs.Tick().time):
        pool = pbs.new_pool(os.path.join(d, "work"))
        want = {}
        kinds = ["ok", "ok", "raise", "ok", "longmsg", "ok", "ok", "unicode"]
        for i in range(cfg["n"]):
            s = sid(i * 7 % n_levels, cfg["first"] + i)
            want[s] = kinds[i % len(kinds)]
            McSim.behaviour[seed_of(s)] = want[s]
            pool.schedule_sample(s, sims[i * 7 % n_levels])
            if cfg["scale"] == "one job" and i + 1 < 1000:
                require(not q.jobs, "%d samples of no weight are already submitted" % (i + 1), "scale early")
            if cfg["scale"] == "jobs":
                require(len(q.jobs) == i + 1, "a sample of weight 1.5 is not submitted", "scale submit")
            ctx.step()
        if cfg["scale"] == "one job":
            require(q.jobs, "more than 1000 samples wait for a single job", "scale submit")
        seen = {}
        for k in range(30):
            ok, bad, n_running, n_ops = pool.get_finished()
            for kind, res in (("ok", ok), ("fail", bad)):
                for lv, items in res.items():
                    for s, val in items:
                        require(s in want and s not in seen and lv == int(s[1:3]), "sample %s reported on level %s" % (s, lv), "scale report")
                        seen[s] = kind
                        if kind == "ok":
                            f, c = expected_pair(seed_of(s), par[lv][0], 0 if lv == 0 else par[lv - 1][0], 1)
                            require(list(val[0]) == list(f) and list(val[1]) == list(c), "sample %s has a wrong value" % s, "scale value")
                        else:
                            require(bool(val), "no message for %s" % s, "scale message")
            require((n_running > 0) == (len(seen) < len(want)), "pool says %s running, %d samples are not reported" % (
                n_running, len(want) - len(seen)), "scale running")
            if len(seen) == len(want):
                break
            # a third of the jobs ends between two polls
            todo = [j for j in q.jobs.values() if j.state != "F"]
            for j in todo[::3] if k < 3 else todo:
                q.finish(j)
        require(sorted(seen) == sorted(want) and all((seen[s] == "ok") == (want[s] == "ok") for s in want),
                lambda: "%d of %d samples reported, kinds differ for %s" % (len(seen), len(want), [s for s in seen if (seen[s] == "ok") != (want[s] == "ok")][:5]),
                "scale lost")
        require(len(McSim.log) == len(want), "%d computations of %d samples" % (len(McSim.log), len(want)), "scale computed")
        ctx.state(("scale", cfg["scale"], cfg["first"], cfg["n"]))


def run(ctx):
    cfg = ctx.config
    if "scale" in cfg:
        return run_scale(ctx, cfg)
    r = Run(ctx)
    d = ctx.scratch()
    sims = level_sims(McSim(task_size=cfg["size"]), PARAMS)
    McSim.behaviour, McSim.log = {}, []
    with pbs.FakePbs(r.fault) as q, mock.patch("time.time", pbs.Tick().time):
        pool = pbs.new_pool(os.path.join(d, "work"))
        n = [0, 0, 0]
        scheduled, reported = {}, {}
        i = 0
        weight = 0.0

        def progress(final=False):
            for j in list(q.jobs.values()):
                if j.state == "F":
                    continue
                opts = ["finish"] if final else (["finish", "stay", "compute"] if j.state == "Q" else ["finish", "stay"])
                c = opts[ctx.choose(len(opts), "job", costs=[0] + [1] * (len(opts) - 1))] if len(opts) > 1 else opts[0]
                if c == "finish":
                    q.finish(j)
                elif c == "compute":
                    q.compute(j)

        def poll():
            ok, bad, n_running, n_ops = pool.get_finished()
            ctx.step()
            for kind, res in (("ok", ok), ("fail", bad)):
                for lv, items in res.items():
                    for s, val in items:
                        require(s in scheduled, "sample %s was never scheduled" % s, "invented")
                        require(s not in reported, "sample %s reported twice" % s, "duplicate")
                        require(int(lv) == int(s[1:3]), "sample %s reported on level %s" % (s, lv), "level")
                        want = "ok" if scheduled[s] == "ok" else "fail"
                        require(kind == want, lambda: "sample %s reported as %s: %r" % (s, kind, val), "kind")
                        if kind == "ok":
                            l = int(s[1:3])
                            f, c = expected_pair(seed_of(s), PARAMS[l][0], 0 if l == 0 else PARAMS[l - 1][0], 1)
                            require(list(val[0]) == list(f) and list(val[1]) == list(c), "sample %s has a wrong value" % s, "value")
                        else:
                            require(bool(val), "no message", "message")
                        reported[s] = kind
            left = len(scheduled) - len(reported)
            require((n_running > 0) == (left > 0),
                    "pool says %s running, %d scheduled samples are not reported" % (n_running, left), "n_running")
            ctx.state((sorted(scheduled), sorted(reported), sorted((j.pbs_id, j.state) for j in q.jobs.values())))
            return left

        for op in cfg["prog"]:
            if op == "P":
                progress()
                before = len(q.log)
                poll()
                if any(x[0] == "qsub" and x[1] != "failed" for x in q.log[before:]):
                    weight = 0.0
                require(weight == 0.0 or ("qsub", "failed") in q.log[before:], "a poll does not submit the pending samples",
                        "not submitted with a poll")
            else:
                lv = int(op[1])
                if lv and cfg["size"] == 0.6:
                    lv = 2
                s = sid(lv, n[lv])
                n[lv] += 1
                scheduled[s] = cfg["beh"][i % len(cfg["beh"])]
                McSim.behaviour[seed_of(s)] = scheduled[s]
                i += 1
                before = len(q.log)
                pool.schedule_sample(s, sims[lv])
                ctx.step()
                weight += cfg["size"]
                if weight > 1 + 1e-9:
                    require(any(x[0] == "qsub" for x in q.log[before:]),
                            "sum of task sizes %.2f exceeds one but no job is submitted" % weight, "not submitted")
                if any(x[0] == "qsub" and x[1] != "failed" for x in q.log[before:]):
                    weight = 0.0
        # with the next poll everything pending is submitted (unless the command fails), then all jobs finish
        for k in range(40):
            progress(final=k >= 2)
            if poll() == 0:
                break
        require(set(reported) == set(scheduled), "samples never reported: %s" % sorted(set(scheduled) - set(reported)), "lost")
        want = sorted((seed_of(s), PARAMS[int(s[1:3])][0], 0.0 if s[1:3] == "00" else PARAMS[int(s[1:3]) - 1][0])
                      for s in scheduled)
        require(sorted(McSim.log) == want, lambda: "computed samples %s, expected each once %s" % (sorted(McSim.log), want),
                "computed")
        ok, bad, n_running, _ = pool.get_finished()
        require(not ok and not bad and n_running == 0, "something is reported after the end", "after end")
