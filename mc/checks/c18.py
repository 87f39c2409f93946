"""C18: a subsample has exactly the requested number of stored samples for every outcome of the draws."""
import itertools
import numpy as np
from mc import qmodel as qm
from mc.engine import require
import mlmc.quantity.quantity as mq
import mlmc.quantity.quantity_estimate as qe
from mlmc.estimator import Estimate
from mlmc.moments import Legendre, Monomial
from mlmc.quantity.quantity_spec import QuantitySpec
from mlmc.quantity.quantity import make_root_quantity, Quantity
from mlmc.sample_storage import Memory

PROPERTY = "C18"
SPEC = [QuantitySpec("a", "m", (2, 1), [1.0], ["x"]), QuantitySpec("b", "m", (1, 1), [1.0, 2.0], ["x"])]
M = 4
BOUNDS = {
    "quick": "2 levels, 1-5 collected samples each, every requested count 0..collected, every partition into chunks, every outcome of the "
             "hypergeometric and index draws (one level at a time, the other drawn in the first way); bootstrap estimates on the same tables",
    "thorough": "up to 6 collected samples, both levels drawn in every way for up to 3 samples",
}
ASSUMPTIONS = ["random draws are taken from the module's numpy generator and from scipy's hypergeometric distribution; both are replaced by "
               "stand-ins that enumerate every outcome of the support; other sources of randomness would be left as they are"]


class Draws:
    ctx = None
    free = None          # level whose draws are enumerated, None = all
    level = None
    turn = None          # a counter: the draws go round all outcomes

    @classmethod
    def pick(cls, n, what):
        if n <= 1:
            return 0
        if cls.turn is not None:
            cls.turn += 1
            return cls.turn % n
        return cls.ctx.choose(n, what) if cls.ctx is not None and (cls.free is None or cls.free == cls.level) else 0


class FakeRng:
    """Enumerates the outcomes of Generator.choice (rows of an array or range), everything else goes to a real generator"""
    def __init__(self):
        self.real = np.random.default_rng(7)

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        if p is not None:
            return self.real.choice(a, size=size, replace=replace, p=p, axis=axis, shuffle=shuffle)
        a = np.arange(int(a)) if np.ndim(a) == 0 else np.asarray(a)
        n = a.shape[axis]
        m = 1 if size is None else int(np.prod(size))
        if m and n == 0 or (not replace and m > n):
            return self.real.choice(a, size=size, replace=replace, axis=axis)        # raises as numpy does
        idx, rest = [], list(range(n))
        for _ in range(m):
            k = rest[Draws.pick(len(rest), "index")]
            idx.append(k)
            if not replace:
                rest.remove(k)
        out = np.take(a, np.array(idx, dtype=int), axis=axis)
        if size is None:
            return np.take(out, 0, axis=axis)
        if np.ndim(size) > 0 and np.size(size) > 1:
            return out.reshape(out.shape[:axis] + tuple(int(s) for s in size) + out.shape[axis + 1:])
        return out

    def hypergeometric(self, ngood, nbad, nsample, size=None):
        return FakeHypergeom(ngood + nbad, ngood, nsample).rvs(size=size)

    def permutation(self, x, axis=0):
        x = np.arange(int(x)) if np.ndim(x) == 0 else np.asarray(x)
        return self.choice(x, size=x.shape[axis], replace=False, axis=axis)

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        lo, hi = (0, low) if high is None else (low, high)
        n = int(hi) - int(lo) + (1 if endpoint else 0)
        if n <= 0:
            return self.real.integers(low, high, size=size, endpoint=endpoint)
        m = 1 if size is None else int(np.prod(size))
        v = [int(lo) + Draws.pick(n, "integer") for _ in range(m)]
        return v[0] if size is None else np.array(v, dtype=dtype).reshape(size)

    def __getattr__(self, name):
        return getattr(self.real, name)


class FakeHypergeom:
    def __init__(self, M, n, N):
        self.M, self.n, self.N = int(M), int(n), int(N)

    def rvs(self, size=None, random_state=None):
        if not (0 <= self.n <= self.M and 0 <= self.N <= self.M):
            raise ValueError("Domain error in arguments.")
        lo, hi = max(0, self.N - (self.M - self.n)), min(self.n, self.N)
        m = 1 if size is None else int(np.prod(size))
        v = [lo + Draws.pick(hi - lo + 1, "hypergeometric") for _ in range(m)]
        return v[0] if size is None else np.array(v).reshape(size)


class _Hyper:
    def __call__(self, *args, **kw):
        return FakeHypergeom(*args, **kw)

    def rvs(self, M, n, N, loc=0, size=None, random_state=None):
        return FakeHypergeom(M, n, N).rvs(size=size)

    def __getattr__(self, name):
        return getattr(_real_hypergeom, name)


_real_hypergeom = None


class _Stats:
    """scipy.stats with the enumerated hypergeometric distribution"""
    hypergeom = _Hyper()

    def __init__(self, real):
        self._real = real

    def __getattr__(self, name):
        return getattr(self._real, name)


class _Scipy:
    def __init__(self, real):
        self._real = real
        self.stats = _Stats(real.stats)

    def __getattr__(self, name):
        return getattr(self._real, name)


def setup(tier):
    global _real_hypergeom
    import scipy
    import scipy.stats
    _real_hypergeom = scipy.stats.hypergeom
    for k, v in list(vars(mq).items()):
        if v is scipy:
            setattr(mq, k, _Scipy(scipy))
        elif v is scipy.stats:
            setattr(mq, k, _Stats(scipy.stats))
        elif v is scipy.stats.hypergeom:
            setattr(mq, k, _Hyper())
        elif isinstance(v, (np.random.Generator, np.random.RandomState)):
            setattr(mq, k, FakeRng())


def compositions(n):
    if n == 0:
        return [()]
    return [(k,) + r for k in range(1, n + 1) for r in compositions(n - k)]


def configs(tier):
    th = tier == "thorough"
    cs = []
    nmax = 6 if th else 5
    for n0, n1 in itertools.product(range(1, nmax + 1), repeat=2):
        if n1 != 3 and n0 != 3 and not (n0 == n1 and n0 < 3):
            continue
        for free in (0, 1) if not (th and max(n0, n1) <= 3) else (0, 1, None):
            n = (n0, n1)[free] if free is not None else max(n0, n1)
            if n < nmax - 1 and free is not None and (n0, n1)[1 - free] != 3:
                continue
            for parts in compositions(n):
                for k in range(n + 1):
                    cs.append({"n": [n0, n1], "free": free, "sizes": list(parts), "k": k, "split": 4 if n >= 5 and k >= 4 else 1})
    for n0, n1 in ((4, 3), (2, 4), (3, 3)):
        for parts in compositions(max(n0, n1)):
            for k0, k1 in itertools.product(range(2, n0 + 1), range(2, n1 + 1)):
                cs.append({"n": [n0, n1], "bootstrap": [k0, k1], "sizes": list(parts)})
    return cs


def tables(n):
    out = []
    for l, k in enumerate(n):
        fine = np.arange(M * k, dtype=float).reshape(M, k) * 0.125 + 10 * l + 0.0625
        out.append(np.stack([fine, -fine - 100.0], axis=-1) if l else fine[:, :, None])
    return out


def build(n, sizes):
    st = qm.Chunked(sizes)
    st.save_global_data(level_parameters=qm.params(len(n)), result_format=SPEC)
    arr = tables(n)
    qm.fill(st, arr)
    return st, arr


def run(ctx):
    cfg = ctx.config
    Draws.ctx, Draws.level, Draws.free, Draws.turn = ctx, None, None, None
    st, arr = build(cfg["n"], cfg["sizes"])
    root = make_root_quantity(st, SPEC)
    if "bootstrap" in cfg:
        return bootstrap(ctx, cfg, st, arr, root)
    free = cfg["free"]
    k = [min(cfg["k"], n) if free is None or l == free else n for l, n in enumerate(cfg["n"])]
    Draws.free = free
    qe.cache_clear()
    sub = root.subsample(k)
    a, b = sub["a"][1.0]["x"], sub["b"][2.0]["x"]
    both = Quantity.QArray([a[0, 0], b[0, 0]])
    twice = sub * 2.0
    for rnd in range(2):
        # the second round repeats the draw with the first way of every choice after the cache is cleared
        if rnd:
            Draws.ctx = None
            qe.cache_clear()
        for l in (0, 1):
            Draws.level = l
            total = 0
            for ch in st.chunks(level_id=l):
                stored = arr[l][:, ch.chunk_slice]
                s = np.asarray(sub.samples(ch))
                m = s.shape[1]
                total += m
                require(s.shape == (M, m, arr[l].shape[2]), lambda: "shape %s" % (s.shape,), "shape")
                cols = {stored[:, i].tobytes() for i in range(stored.shape[1])}
                for i in range(m):
                    require(np.ascontiguousarray(s[:, i]).tobytes() in cols, lambda: "level %d chunk %s: %s is not a stored sample of the chunk" % (
                        l, ch.chunk_slice, s[:, i].tolist()), "not a stored sample")
                for q, w, nm in ((a, s[:2], "item"), (b, s[3:4], "item"), (both, s[[0, 3]], "assembled items"), (twice, s * 2.0, "multiple"),
                                 (sub, s, "itself")):
                    g = np.asarray(q.samples(ch))
                    require(g.shape == w.shape and np.array_equal(g, w), lambda: "level %d chunk %s: %s of the subsample is %s instead of %s" % (
                        l, ch.chunk_slice, nm, g.tolist(), w.tolist()), "selection differs")
                ctx.step()
            require(total == k[l], lambda: "level %d: %d samples instead of %d of %d (chunks %s)" % (l, total, k[l], cfg["n"][l], cfg["sizes"]), "count")
        ctx.state((tuple(cfg["n"]), tuple(cfg["sizes"]), tuple(k), rnd))


def bootstrap(ctx, cfg, st, arr, root):
    """Averages of estimates over subsamples; with every sample requested from single chunks the level counts are exact"""
    Draws.ctx = None
    Draws.turn = 0
    q = root["b"][1.0]["x"][0, 0]
    fn = Monomial(2, (-200.0, 20.0), ref_domain=(-200.0, 20.0))
    seen = []
    orig = qe.estimate_mean

    def spy(*args, **kw):
        r = orig(*args, **kw)
        seen.append(r)
        return r
    est = Estimate(q, st, fn)
    qe.estimate_mean = spy
    try:
        full = cfg["bootstrap"] == cfg["n"]
        # counts beyond the last level are left out, by default all collected samples are drawn
        vec = ctx.pick([cfg["bootstrap"], cfg["bootstrap"] + [1]] + ([None] if full else []), "vector")
        est.est_bootstrap(n_subsamples=3, sample_vector=vec)
    finally:
        qe.estimate_mean = orig
    if seen:
        require(len(seen) == 3, lambda: "%d estimates" % len(seen), "bootstrap count")
        for r in seen:
            require([int(x) for x in r.n_samples] == cfg["bootstrap"], lambda: "bootstrap with %s samples instead of %s" % (
                r.n_samples, cfg["bootstrap"]), "bootstrap samples")
        for name, ref in (("mean_bs_mean", [r.mean for r in seen]), ("mean_bs_var", [r.var for r in seen]),
                          ("mean_bs_l_means", [r.l_means for r in seen]), ("mean_bs_l_vars", [r.l_vars for r in seen])):
            require(np.allclose(getattr(est, name), np.mean(ref, axis=0), equal_nan=True), "bootstrap " + name, "bootstrap average")
        for name, ref in (("var_bs_mean", [r.mean for r in seen]), ("var_bs_var", [r.var for r in seen]),
                          ("var_bs_l_means", [r.l_means for r in seen]), ("var_bs_l_vars", [r.l_vars for r in seen])):
            require(np.allclose(getattr(est, name), np.var(ref, axis=0, ddof=1), equal_nan=True), "bootstrap " + name, "bootstrap variance")
    lo = hi = 0.0
    for l, x in enumerate(arr):
        d = x[2, :, 0] - (x[2, :, 1] if l else 0.0)
        lo, hi = lo + d.min(), hi + d.max()
    mean = np.ravel(est.mean_bs_mean)
    require(lo - 1e-9 <= mean[1] <= hi + 1e-9 and abs(mean[0] - 1.0) < 1e-12,
            lambda: "bootstrap mean %s outside of the range [%s, %s] of stored samples" % (mean, lo, hi), "bootstrap range")
    ctx.step()
    ctx.state((tuple(cfg["n"]), tuple(cfg["sizes"]), tuple(cfg["bootstrap"])))
