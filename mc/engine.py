"""
Stateless explicit-state explorer used by every check.

A check is a finite set of *configurations* (the enumerated inputs, programs, histories or
fault patterns) and, per configuration, a *run* function that executes the real code of
/repo and may ask `ctx.choose(n)` at every nondeterministic point (which thread runs next,
where the crash happens, whether qsub fails, ...).  The explorer enumerates ALL choice
sequences of ALL configurations depth first; nothing is sampled.  `ctx.state(x)` records a
(canonical) state observed on the implementation, `ctx.step()` a transition executed on it.
"""
import hashlib
import json
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


class Violation(Exception):
    """The property is broken on the current execution. `key` identifies the finding."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.msg = msg
        self.key = key or msg


class Hang(BaseException):
    pass


class Abort(BaseException):
    """Execution pruned (bound exceeded); not a violation."""


def require(cond, msg, key=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, key)


PASSED = set()


def file_digest(*paths):
    """Digest of the complete content of files and directory trees (names, types, bytes)."""
    h = hashlib.blake2b(digest_size=16)
    for p in paths:
        if os.path.isdir(p):
            for root, dirs, files in os.walk(p):
                dirs.sort()
                for f in sorted(files) + ["D:" + x for x in dirs]:
                    h.update(os.path.join(root, f).encode())
                    if not f.startswith("D:"):
                        with open(os.path.join(root, f), "rb") as fh:
                            h.update(fh.read())
        elif os.path.exists(p):
            h.update(p.encode())
            with open(p, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


class Ctx:
    def __init__(self, prefix=(), config=None, scratch=None, tier="quick"):
        self.prefix = list(prefix)
        self.trail = []          # [(choice, n, cost-vector or None)]
        self.labels = []
        self.config = config
        self.scratch_root = scratch
        self.tier = tier
        self.states = set()
        self.transitions = 0
        self.notes = []
        self._n = 0
        self._pending = []

    def choose(self, n, label="", costs=None):
        """Nondeterministic choice 0..n-1; costs[i] counts against the deviation bound."""
        if n <= 0:
            raise RuntimeError("empty choice")
        i = len(self.trail)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise RuntimeError("nondeterministic replay: choice %d of %d at %s" % (c, n, label))
        self.trail.append((c, n, costs))
        if label:
            self.labels.append((label, c))
        return c

    def pick(self, seq, label=""):
        seq = list(seq)
        return seq[self.choose(len(seq), label)]

    def cost(self):
        return sum((costs[c] if costs else 0) for c, n, costs in self.trail)

    def visited(self, key):
        """True if an earlier execution passed through the same complete state (same configuration) and its future held."""
        k = digest((jsonable({a: b for a, b in self.config.items() if a != "shard"}), key))
        if k in PASSED:
            self.notes.append("merged with an explored state")
            return True
        self._pending.append(k)
        return False

    def state(self, obj):
        self.states.add(digest(obj))

    def step(self, k=1):
        self.transitions += k

    def scratch(self):
        self._n += 1
        d = os.path.join(self.scratch_root, "x%d" % self._n)
        os.makedirs(d)
        return d


def canon(o):
    import numpy as np
    if isinstance(o, dict):
        return ("d",) + tuple(sorted(((canon(k), canon(v)) for k, v in o.items()), key=repr))
    if isinstance(o, (list, tuple)):
        return ("l",) + tuple(canon(x) for x in o)
    if isinstance(o, (set, frozenset)):
        return ("s",) + tuple(sorted((canon(x) for x in o), key=repr))
    if isinstance(o, np.ndarray):
        return ("a", o.shape, tuple(canon(x) for x in o.ravel().tolist()))
    if isinstance(o, np.generic):
        return canon(o.item())
    if isinstance(o, float):
        return repr(o)
    return o if isinstance(o, (str, int, bool, bytes, type(None))) else repr(o)


def digest(o):
    return hashlib.blake2b(repr(canon(o)).encode(), digest_size=8).digest()


def scratch_base():
    for d in ("/dev/shm", tempfile.gettempdir()):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return tempfile.gettempdir()


WALL_LIMIT = 150
CPU_LIMIT = 60


def _hang(signum, frame):
    raise Hang("execution exceeded the %s limit" % ("wall" if signum == signal.SIGALRM else "cpu"))


def run_once(run, ctx, cpu=None):
    """Run one execution; return None or (key, msg)."""
    home = os.path.dirname(ctx.scratch_root)
    if os.path.isdir(ctx.scratch_root):
        shutil.rmtree(ctx.scratch_root, ignore_errors=True)
    os.makedirs(ctx.scratch_root)
    os.chdir(ctx.scratch_root)
    signal.signal(signal.SIGALRM, _hang)
    signal.signal(signal.SIGVTALRM, _hang)
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu or CPU_LIMIT)
    signal.setitimer(signal.ITIMER_REAL, WALL_LIMIT)
    try:
        run(ctx)
        PASSED.update(ctx._pending)
        return None
    except Violation as e:
        return (e.key, e.msg)
    except Abort:
        return None
    except Hang as e:
        return ("hang", "hang: %s" % e)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if f.filename.startswith(REPO)]
        loc = "%s" % (os.path.relpath(where[-1].filename, REPO),) if where else "harness"
        key = "exception %s in %s" % (type(e).__name__, loc)
        return (key, "unexpected exception: " + "".join(
            traceback.format_exception(type(e), e, e.__traceback__))[-3000:])
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        os.chdir(home)
        shutil.rmtree(ctx.scratch_root, ignore_errors=True)


def next_prefix(trail, bound, floor=0):
    """Lexicographic successor of a trail under the deviation bound (first `floor` choices fixed), or None."""
    t = list(trail)
    while len(t) > floor:
        c, n, costs = t.pop()
        base = sum((cs[x] if cs else 0) for x, _, cs in t)
        for c2 in range(c + 1, n):
            if bound is None or base + (costs[c2] if costs else 0) <= bound:
                return [x for x, _, _ in t] + [c2]
    return None


class Result:
    def __init__(self):
        self.executions = 0
        self.transitions = 0
        self.states = set()
        self.violations = []      # dicts
        self.known = {}
        self.unconfirmed = []
        self.samples = []
        self.notes = {}
        self.exhaustive = True
        self.configs = 0


def expand(configs):
    """Split a configuration with 'split': m into m disjoint shards of its execution tree (for load balance)."""
    out = []
    for c in configs:
        m = c.get("split", 1) if isinstance(c, dict) else 1
        if m > 1:
            out += [dict(c, shard=i) for i in range(m)]
        else:
            out.append(c)
    return out


def explore_config(spec, config, scratch, tier, res, known, deadline):
    """DFS over all choices of one configuration."""
    bound = config.get("bound") if isinstance(config, dict) else None
    m = config.get("split", 1) if isinstance(config, dict) else 1
    shard = config.get("shard", 0) if isinstance(config, dict) else 0
    if m == 1:
        trees = [([], 0)]
    else:
        # the default execution, then the subtrees of its alternatives, dealt out round robin
        ctx = Ctx([], config, os.path.join(scratch, "run"), tier)
        run_once(spec.run, ctx, getattr(spec, "CPU", None))
        trees = []
        base = 0
        k = 0
        for p, (c, n, costs) in enumerate(ctx.trail):
            for c2 in range(1, n):
                if bound is None or base + (costs[c2] if costs else 0) <= bound:
                    if k % m == shard:
                        trees.append(([x for x, _, _ in ctx.trail[:p]] + [c2], p + 1))
                    k += 1
            base += costs[c] if costs else 0
        if shard == 0:
            trees.insert(0, ([x for x, _, _ in ctx.trail], len(ctx.trail)))
    first = True
    for prefix, floor in trees:
        while prefix is not None:
            ctx = Ctx(prefix, config, os.path.join(scratch, "run"), tier)
            out = run_once(spec.run, ctx, getattr(spec, "CPU", None))
            res.executions += 1
            res.transitions += ctx.transitions
            res.states |= ctx.states
            for k in ctx.notes:
                res.notes[k] = res.notes.get(k, 0) + 1
            if first and len(res.samples) < 2:
                res.samples.append({"config": jsonable(config),
                                    "choices": [c for c, _, _ in ctx.trail][:60],
                                    "labels": [list(x) for x in ctx.labels][:20]})
            first = False
            if out is not None:
                key, msg = out
                trail = [c for c, _, _ in ctx.trail]
                k = match_known(known, key, msg)
                if k is not None:
                    res.known.setdefault(k, {"key": key, "msg": msg[:300], "count": 0})["count"] += 1
                else:
                    ok = False
                    for _ in range(3):
                        c2 = Ctx(trail, config, os.path.join(scratch, "run"), tier)
                        o2 = run_once(spec.run, c2, getattr(spec, "CPU", None))
                        if o2 is not None and match_known(known, o2[0], o2[1]) is None:
                            ok = True
                            break
                    rec = {"key": key, "msg": msg, "config": jsonable(config), "trail": trail,
                           "labels": [list(x) for x in ctx.labels]}
                    if ok:
                        res.violations.append(rec)
                        return
                    res.unconfirmed.append(rec)
            if time.time() > deadline:
                res.exhaustive = False
                return
            prefix = next_prefix(ctx.trail, bound, floor)
    res.configs += 1


def jsonable(o):
    import numpy as np
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [jsonable(x) for x in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, (str, int, float, bool, type(None))):
        return o
    return repr(o)


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data.get("known", []) if k["property"] == prop]


def match_known(known, key, msg):
    for i, k in enumerate(known):
        if key == k["key"]:
            return i
    return None


def run_spec(spec, tier, jobs=None, deadline=None, only=None):
    """Explore every configuration of `spec` with forked workers."""
    known = load_known(spec.PROPERTY)
    configs = expand(list(spec.configs(tier)) if only is None else only)
    jobs = jobs or getattr(spec, "JOBS", None) or min(8, os.cpu_count() or 1)
    jobs = max(1, min(jobs, len(configs)))
    base = tempfile.mkdtemp(prefix="mlmcmc_%s_" % spec.PROPERTY, dir=scratch_base())
    deadline = deadline or (time.time() + (780 if tier == "quick" else 6 * 3600))
    try:
        import multiprocessing.synchronize  # noqa
        from multiprocessing import get_context
        mp = get_context("fork")
        counter = mp.Value("i", 0)
        stop = mp.Value("i", 0)
        pids = []
        sys.stdout.flush()
        sys.stderr.flush()
        for w in range(jobs):
            pid = os.fork()
            if pid == 0:
                code = 3
                try:
                    _worker(w, spec, configs, tier, base, known, deadline, counter, stop)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            pids.append(pid)
        bad = []
        for w, pid in enumerate(pids):
            _, st = os.waitpid(pid, 0)
            if st != 0:
                bad.append((w, st))
        total = Result()
        per_worker = []
        for w in range(jobs):
            path = os.path.join(base, "res%d" % w)
            if not os.path.exists(path):
                continue
            with open(path, "rb") as f:
                r = pickle.load(f)
            total.executions += r.executions
            total.transitions += r.transitions
            total.states |= r.states
            total.violations += r.violations
            total.unconfirmed += r.unconfirmed
            total.samples += r.samples
            total.exhaustive = total.exhaustive and r.exhaustive
            total.configs += r.configs
            for k, v in r.known.items():
                if k in total.known:
                    total.known[k]["count"] += v["count"]
                else:
                    total.known[k] = v
            for k, v in r.notes.items():
                total.notes[k] = total.notes.get(k, 0) + v
            per_worker.append(r.executions)
        # a worker that died while running the code under test: the configuration it was on is the witness
        for w, st in bad:
            cur = os.path.join(base, "cur%d" % w)
            cfg = None
            if os.path.exists(cur):
                with open(cur, "rb") as f:
                    cfg = pickle.load(f)
            total.violations.append({"key": "worker died", "config": jsonable(cfg), "trail": [], "labels": [],
                                     "msg": "the process running the code under test died (status %d)" % st})
        total.n_configs = len(configs)
        if total.violations:
            total.exhaustive = False
        return total, known
    finally:
        shutil.rmtree(base, ignore_errors=True)


def _worker(w, spec, configs, tier, base, known, deadline, counter, stop):
    scratch = os.path.join(base, "w%d" % w)
    os.makedirs(scratch)
    res = Result()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("MC_DEBUG"):
        os.dup2(devnull, 2)
    if hasattr(spec, "setup"):
        spec.setup(tier)
    while not stop.value:
        with counter.get_lock():
            i = counter.value
            counter.value += 1
        if i >= len(configs):
            break
        with open(os.path.join(base, "cur%d" % w), "wb") as f:
            pickle.dump(configs[i], f)
        explore_config(spec, configs[i], scratch, tier, res, known, deadline)
        if res.violations and not os.environ.get("MC_ALL"):
            stop.value = 1
            break
        if time.time() > deadline:
            if i + 1 < len(configs):
                res.exhaustive = False
            break
    with open(os.path.join(base, "res%d.tmp" % w), "wb") as f:
        pickle.dump(res, f)
    os.rename(os.path.join(base, "res%d.tmp" % w), os.path.join(base, "res%d" % w))
