"""C06: sample workspaces - directory tree oracle over all short sample histories."""
import itertools
import json
import os
import re
import time
from unittest import mock
import numpy as np
from mc import sched, pbs
from mc.engine import require
from mc.sims import sid, seed_of, level_sims
import mlmc.sampling_pool
from mlmc.level_simulation import LevelSimulation
from mlmc.quantity.quantity_spec import QuantitySpec
from mlmc.sampling_pool import OneProcessPool, ProcessPool, ThreadPool
from mlmc.sim.simulation import Simulation

PROPERTY = "C06"
PARAMS = [[0.5], [0.25]]
NUMS = [0, 4, 5, 14]
COMMON = ["a.yaml", "b.msh", "c.txt"]
BOUNDS = {
    "quick": "all histories of <=3 samples over 2 levels x numbers {0,4,5,14} x ok/failing (<=2: x debug x with/without common files) in "
             "the one-process pool; selected histories (recomputed samples, large numbers) and the other pools (process, genuine "
             "process pool, thread pool, PBS job, one-process without work dir); with and without workspace",
    "thorough": "all histories of <=3 samples x debug x files in the one-process pool, all of <=2 in all others",
}
ASSUMPTIONS = ["samples of killed jobs are C21; the retention of successful samples is documented for pools with a work directory only"]


def setup(tier):
    pbs.install_fast_yaml()
    sched.install(mlmc.sampling_pool)
    sched.instrument(["/repo/mlmc/sampling_pool.py"])


class WsSim(Simulation):
    def __init__(self, files, log, workspace=True, block=False):
        self.block = block
        self.files, self.log, self.need_workspace = files, log, workspace

    def level_instance(self, fine, coarse):
        lv = PARAMS.index(list(fine))
        return LevelSimulation(config_dict={"log": self.log, "block": self.block, "fine": fine[0]}, task_size=0.4,
                               need_sample_workspace=self.need_workspace, common_files=self.files[lv])

    def result_format(self):
        return [QuantitySpec("q", "m", (1, 1), [1.0], ["a1"])]

    @staticmethod
    def calculate(config, seed):
        seed = int(seed)
        cwd = os.getcwd()
        rec = {"cwd": cwd, "list": tree(".")}
        with open(os.path.join(config["log"], "beh_%d" % seed)) as f:
            beh = f.read()
        k = 0           # which attempt
        if os.path.exists(os.path.join(config["log"], "rec_%d" % seed)):
            with open(os.path.join(config["log"], "rec_%d" % seed)) as f:
                k = len(f.readlines())
        if config.get("write", True) and beh != "nows":
            with open("out.txt", "w") as f:
                f.write("result %d %d" % (seed, k))
            os.makedirs("sub/dir", exist_ok=True)
            with open("sub/dir/%d_%d.dat" % (seed, k), "w") as f:
                f.write("x" * (seed % 7))
            for x in COMMON:
                if os.path.exists(x):
                    with open(x, "a") as f:         # own copies of common files may be changed
                        f.write(" used %d" % k)
        if config.get("block"):
            time.sleep(0.001)       # an external program is running
        rec["cwd_end"] = os.getcwd()
        with open(os.path.join(config["log"], "rec_%d" % seed), "a") as f:
            f.write(json.dumps(rec) + "\n")
        if beh == "fail":
            raise ValueError("failing sample")
        return np.array([float(seed)]), np.array([0.0])


def tree(d):
    """All files (with content) and directories below d, relative."""
    out = {}
    for root, dirs, files in os.walk(d):
        for x in dirs:
            out[os.path.relpath(os.path.join(root, x), d)] = None
        for x in files:
            p = os.path.join(root, x)
            with open(p, "rb") as f:
                out[os.path.relpath(p, d)] = f.read().decode("latin1")
    return out


def configs(tier):
    th = tier == "thorough"
    alpha = [(l, n, b) for l in (0, 1) for n in NUMS for b in ("ok", "fail")]
    one = [h for k in range(1, 4) for h in itertools.product(alpha, repeat=k)]
    special = [((0, 4, "fail"), (0, 4, "ok")), ((0, 4, "fail"), (0, 4, "fail")), ((1, 5, "fail"), (1, 5, "ok"), (1, 5, "fail")),
               ((0, 1000004, "ok"), (0, 4, "ok")), ((0, 1000000, "ok"),), ((0, 9999999, "fail"), (1, 3, "ok")),
               ((0, 3, "ok"), (1, 3, "ok"), (0, 3, "ok")), ((0, 0, "nofile"), (0, 1, "ok")), ((1, 2, "ok"), (1, 7, "nofile")),
               ((0, 5, "ok"), (1, 5, "fail"), (0, 6, "ok")), ((0, 104, "ok"), (1, 40, "ok"), (0, 1, "fail"))]
    few = [h for h in one if len(h) == 2 and h[0] != h[1]][::1 if th else 9] + special
    cs = []
    for h in one:
        for debug in (False, True):
            for files in ((1, 2), (0, None)):
                if not th and len(h) == 3 and (debug or files == (0, None)):
                    continue
                if not th and len(h) == 2 and files == (0, None) and h[0][1] != 4:
                    continue
                cs.append({"pool": "one", "h": [list(x) for x in h], "debug": debug, "files": list(files)})
    for h in special:
        for debug in (False, True):
            cs.append({"pool": "one", "h": [list(x) for x in h], "debug": debug, "files": [2, 1]})
    for pool in ("process", "thread", "pbs", "nodir", "relative", "plain"):
        for h in few:
            for debug in (False, True):
                cs.append({"bound": 0, "pool": pool, "h": [list(x) for x in h], "debug": debug, "files": [1, 2]})
    for h in special:
        cs.append({"pool": "real", "h": [list(x) for x in h], "debug": False, "files": [1, 2]})
    cs.append({"pool": "thread2", "h": [[0, 0, "ok"], [0, 1, "ok"]], "debug": False, "files": [1, 2], "bound": 0, "block": True})
    return cs


def run(ctx):
    cfg = ctx.config
    d = ctx.scratch()
    base = os.path.join(d, "work" if cfg["pool"] == "pbs" else "my work")
    log = os.path.join(d, "log")
    src = os.path.join(d, "src")
    for x in (base, log, src, os.path.join(base, "mine"), os.path.join(d, "outside")):
        os.makedirs(x)
    for p in ("mine/keep.txt", "L00_S0000004.txt", "../outside/a.txt", "../src/a.yaml", "../src/b.msh", "../src/c.txt"):
        with open(os.path.join(base, p), "w") as f:
            f.write(p)
    pool_files = {0: [], 1: ["a.yaml"], 2: ["b.msh", "c.txt"], None: None}
    names = [pool_files[k] for k in cfg["files"]]
    files = [None if n is None else [os.path.join(src, x) for x in n] for n in names]
    before = {k: v for k, v in tree(d).items() if not k.startswith("log")}
    for x in cfg["h"]:
        with open(os.path.join(log, "beh_%d" % seed_of(sid(x[0], x[1]))), "w") as f:
            f.write("nows" if cfg["pool"] == "plain" else x[2])
    os.chdir(d)
    args = (ctx, cfg, d, base, log, src, names, files, before)
    if cfg["pool"] == "pbs":
        with pbs.FakePbs() as q, mock.patch("time.time", pbs.Tick().time):
            body(*args, q=q)
    elif cfg["pool"] in ("process", "thread", "thread2"):
        with sched.Sched(ctx) as sc:
            body(*args, sc=sc)
    else:
        body(*args)


def body(ctx, cfg, d, base, log, src, names, files, before, q=None, sc=None):
    dbg = cfg["debug"]
    kind = cfg["pool"]
    sims = level_sims(WsSim(files, log, kind != "plain", cfg.get("block", False)), PARAMS)
    home = os.getcwd()
    if kind in ("one", "plain"):
        pool = OneProcessPool(work_dir=base, debug=dbg)
    elif kind == "relative":
        pool = OneProcessPool(work_dir="my work", debug=dbg)
    elif kind == "nodir":
        os.chdir(base)
        pool = OneProcessPool(debug=dbg)
    elif kind in ("process", "real"):
        pool = ProcessPool(2, work_dir=base, debug=dbg)
    elif kind == "thread":
        pool = ThreadPool(1, work_dir=base, debug=dbg)
    elif kind == "thread2":
        pool = ThreadPool(2, work_dir=base, debug=dbg)
    else:
        pool = pbs.new_pool(base, debug=dbg)
    root = base if kind == "nodir" else os.path.join(base, "output")
    failed, good, working, left = {}, {}, {}, {}
    n_rec = {}
    hist = cfg["h"]

    def settle():
        if q is not None:
            pool.get_finished()
            os.chdir(d)
            for j in list(q.jobs.values()):
                if j.state != "F":
                    q.finish(j)
        ok, bad = {}, {}
        while True:
            a, b, n, _ = pool.get_finished()
            for src_, dst in ((a, ok), (b, bad)):
                for l, items in src_.items():
                    for x in items:
                        dst.setdefault(x[0], []).append(x)
            if n == 0:
                break
            if sc is not None:
                sc.wait_pools()
            else:
                import time
                time.sleep(0.002)
        return ok, bad

    def finish(batch):
        ok, bad = settle()
        for l, num, beh in batch:
            s = sid(l, num)
            content = {x: "../src/" + x for x in (names[l] or [])}
            seed = seed_of(s)
            if kind != "plain" and beh != "nofile":
                require(kind != "thread2" or os.path.exists(os.path.join(log, "rec_%d" % seed)),
                        lambda: "sample %s failed: %s" % (s, bad),
                        "thread pool with several threads: the current directory is shared")
                with open(os.path.join(log, "rec_%d" % seed)) as f:
                    recs = [json.loads(x) for x in f]
                k = n_rec.get(s, 0)
                n_rec[s] = len(recs)
                require(len(recs) == k + 1, "sample %s was computed %d times" % (s, len(recs) - k), "computed")
                rec = recs[-1]
                if kind == "thread2":
                    require(os.path.basename(rec["cwd"]) == s and rec["cwd_end"] == rec["cwd"],
                            lambda: "sample %s runs in %s (%s at its end)" % (s, rec["cwd"], rec["cwd_end"]),
                            "thread pool with several threads: the current directory is shared")
                require(rec["cwd"] == rec["cwd_end"] == os.path.join(os.path.realpath(root), s),
                        lambda: "sample %s runs in %s" % (s, rec["cwd"]), "cwd")
                expect = {k2: v for k2, v in content.items()}
                got = rec["list"]
                if s in left:
                    got = {k2: v for k2, v in got.items() if k2 in expect or k2 not in left[s]}      # debug: own leftovers
                require(got == expect, lambda: "sample %s starts with the files %s instead of %s" % (s, sorted(got), sorted(expect)),
                        "initial content")
                content = {x: v + " used %d" % k for x, v in content.items()}
                content.update({"out.txt": "result %d %d" % (seed, k), "sub": None, "sub/dir": None,
                                "sub/dir/%d_%d.dat" % (seed, k): "x" * (seed % 7)})
                extra = {x: v for x, v in left.get(s, {}).items() if x not in content}
            if kind == "plain":
                require(s in ok and s not in bad, lambda: "sample %s failed %s" % (s, bad), "outcome")
                continue
            if beh == "ok":
                require(s in ok and s not in bad, lambda: "sample %s failed %s" % (s, bad), "outcome")
                content.update(extra)
                working[s] = content if dbg else None
                left.pop(s, None)
                if dbg:
                    left[s] = content
                if num < 5 and not dbg:
                    good[s] = content
            else:
                require(s in bad and s not in ok, "sample %s did not fail" % s, "outcome")
                if beh != "nofile":
                    content.update(extra)
                failed[s] = content if beh != "nofile" else None
                left.pop(s, None)
                working[s] = "either" if dbg else None

    if kind in ("one", "nodir", "relative", "plain", "thread") or len({(x[0], x[1]) for x in hist}) < len(hist):
        for x in hist:
            if x[2] == "nofile":
                sims[x[0]].common_files = [os.path.join(src, "no_such_file")]
                if kind == "pbs":
                    return
            if q is not None or kind in ("real", "process"):
                with open(os.path.join(log, "beh_%d" % seed_of(sid(x[0], x[1]))), "w") as f:
                    f.write(x[2])
            elif kind != "plain":
                with open(os.path.join(log, "beh_%d" % seed_of(sid(x[0], x[1]))), "w") as f:
                    f.write(x[2])
            if kind != "nodir":
                os.chdir(home)
            pool.schedule_sample(sid(x[0], x[1]), sims[x[0]])
            ctx.step()
            if sc is not None:
                sc.wait_pools()
            finish([x])
            if x[2] == "nofile":
                sims[x[0]].common_files = files[x[0]]
    else:
        if any(x[2] == "nofile" for x in hist):
            return
        for x in hist:
            pool.schedule_sample(sid(x[0], x[1]), sims[x[0]])
            ctx.step()
        if sc is not None:
            sc.wait_pools()
        finish(hist)
    os.chdir(home)
    if kind == "real":
        pool._pool.terminate()
    # the tree
    now = {k: v for k, v in tree(d).items() if not k.startswith("log")}
    for k, v in before.items():
        require(k in now and now[k] == v, lambda: "%s was %s" % (k, "removed" if k not in now else "changed"), "foreign file")
    is_sample = re.compile(r"^L\d\d_S\d{7}$")
    allowed = {os.path.relpath(root, d)}

    def listing(p):
        return {x for x in os.listdir(p) if is_sample.match(x)} if os.path.isdir(p) else set()
    if kind == "plain":
        require(not any(is_sample.match(os.path.basename(k)) for k in now), "a directory is created without being asked for", "plain")
        return
    fdir, gdir = os.path.join(root, "failed"), os.path.join(root, "several_successful")
    require(listing(fdir) == set(failed), lambda: "failed directory contains %s instead of %s" % (sorted(listing(fdir)), sorted(failed)),
            "failed dir")
    for s, c in failed.items():
        if c is not None:
            require(tree(os.path.join(fdir, s)) == c, lambda: "failed %s: %s instead of %s" % (s, tree(os.path.join(fdir, s)), c),
                    "failed content")
    if kind != "nodir" and not dbg:
        require(listing(gdir) == set(good), lambda: "several_successful contains %s instead of %s" % (sorted(listing(gdir)), sorted(good)),
                "successful dir")
        for s, c in good.items():
            require(tree(os.path.join(gdir, s)) == c, lambda: "successful %s: %s" % (s, tree(os.path.join(gdir, s))), "successful content")
    top = listing(root)
    for s, w in working.items():
        if w is None:
            require(s not in top, "the working directory of %s is left" % s, "working copy left")
        elif w != "either":
            require(s in top and tree(os.path.join(root, s)) == w, "debug mode does not keep the directory of %s" % s, "debug")
    require(top <= set(working), lambda: "unknown directories %s" % (top - set(working)), "unknown dir")
    # sample directories nowhere else
    for k in now:
        b = os.path.basename(k)
        if is_sample.match(b) and os.path.join(d, os.path.dirname(k)) not in (root, fdir, gdir):
            require(False, "a sample directory at %s" % k, "elsewhere")
    ctx.state((kind, dbg, sorted(failed), sorted(good), sorted(top)))
