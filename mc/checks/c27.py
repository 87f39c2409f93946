"""C27: domain, level samples and level variances taken from stored samples of every level."""
import itertools
import os
import numpy as np
from mc import qmodel as qm
from mc.engine import require
import mlmc.estimator as me
import mlmc.moments as mo
import mlmc.quantity.quantity_estimate as qe
from mlmc.estimator import Estimate
from mlmc.quantity.quantity_spec import QuantitySpec
from mlmc.quantity.quantity import make_root_quantity
from mlmc.sample_storage import Memory
from mlmc.sample_storage_hdf import SampleStorageHDF

PROPERTY = "C27"
SPEC = [QuantitySpec("a", "m", (1, 1), [1.0], ["x"]), QuantitySpec("b", "m", (2, 1), [1.0], ["x"])]
BOUNDS = {
    "quick": "1-3 levels with every assignment of 1-4 samples, the extreme value on every level and position, NaN at every position, memory, file "
             "and chunked storages, 4 quantiles; level variances and their regression for every table of 1-6 levels over 4 magnitudes (zero "
             "included) and for exact log-quadratic models",
    "thorough": "up to 5 samples per level, tables over 5 magnitudes",
}
ASSUMPTIONS = ["quantiles are those of numpy with linear interpolation", "every level has a sample that is not NaN"]
QUANT = [0.0, 0.01, 0.1, 0.25]


def configs(tier):
    th = tier == "thorough"
    cs = []
    for L in (1, 2, 3):
        for ns in itertools.product(range(1, (5 if th else 4) + 1), repeat=L):
            if L == 3 and len(set(ns)) == 2 and not th:
                continue
            for kind in ("memory", "hdf", "chunked"):
                if kind == "hdf" and (L == 3 or sum(ns) > 5):
                    continue
                cs.append({"mode": "domain", "ns": list(ns), "storage": kind})
    for L in range(1, 7):
        cs.append({"mode": "regression", "L": L, "mags": [0.0, 1e-6, 0.3, 40.0] + ([1e3] if th else [])})
    for L in (1, 2, 3, 4):
        cs.append({"mode": "vars", "L": L})
    return cs


def run(ctx):
    globals()["mode_" + ctx.config["mode"]](ctx, ctx.config)


class Chunked(qm.Chunked):
    """As the file storage: chunks, but the first n samples come at once"""
    def chunks(self, level_id=None, n_samples=None):
        return qm.Chunked.chunks(self, level_id) if n_samples is None else Memory.chunks(self, level_id, n_samples)


def make(ctx, kind, L, arrays):
    if kind == "memory":
        st = Memory()
    elif kind == "chunked":
        st = Chunked([2, 1])
    else:
        st = SampleStorageHDF(file_path=os.path.join(ctx.scratch(), "s.h5"))
    st.save_global_data(level_parameters=qm.params(L), result_format=SPEC)
    qm.fill(st, arrays)
    return st


def tables(ns):
    """Values of the level l are spread differently, fine and coarse differ"""
    out = []
    for l, n in enumerate(ns):
        fine = np.array([[(7 * i + 3 * l) % 11 + 0.25 * l + 20.0 * c for i in range(n)] for c in range(3)])
        out.append(np.stack([fine, fine - 300.0 - fine * 0.5], axis=-1) if l else fine[:, :, None].copy())
    return out


def check_domain(ctx, st, q, rows, arr, what):
    for quantile in QUANT:
        lo, hi = [], []
        for a in arr:
            v = a[rows, :, 0].ravel()
            v = v[~np.isnan(v)]
            x = np.percentile(v, [100 * quantile, 100 * (1 - quantile)])
            lo.append(x[0])
            hi.append(x[1])
        for fn in (Estimate.estimate_domain, me.estimate_domain):
            g = fn(q, st, quantile=quantile)
            require(len(g) == 2 and np.allclose(g, (min(lo), max(hi)), rtol=1e-12, atol=1e-12), lambda: "domain for the quantile %g is %s instead of %s; %s" % (
                quantile, tuple(g), (min(lo), max(hi)), what()), "domain")
            ctx.step()
    full = [min(np.nanmin(a[rows, :, 0]) for a in arr), max(np.nanmax(a[rows, :, 0]) for a in arr)]
    g = Estimate.estimate_domain(q, st)
    require(full[0] <= g[0] <= g[1] <= full[1], lambda: "default domain %s of samples in %s" % (g, full), "default domain")


def mode_domain(ctx, cfg):
    ns, L = cfg["ns"], len(cfg["ns"])
    base = tables(ns)
    variants = [("plain", None)]
    for l, n in enumerate(ns):
        for i in range(n):
            for v in (-1000.0, 1000.0) + ((np.nan,) if n > 1 else ()):
                variants.append(("%s at sample %d of level %d" % (v, i, l), (l, i, v)))
    if cfg["storage"] == "hdf":
        variants = variants[:1] + variants[1::3]
    for name, change in variants:
        arr = [a.copy() for a in base]
        if change:
            arr[change[0]][0, change[1], 0] = change[2]
        st = make(ctx, cfg["storage"], L, arr)
        root = make_root_quantity(st, SPEC)
        qe.cache_clear()
        q = root["a"][1.0]["x"][0, 0]
        what = lambda: "%s storage, %s samples, %s" % (cfg["storage"], ns, name)
        check_domain(ctx, st, q, [0], arr, what)
        est = Estimate(q, st, mo.Legendre(3, (-2000, 2000)))
        for l, n in enumerate(ns):
            for k in [None] + list(range(1, n + 1)):
                g = np.asarray(est.get_level_samples(l, n_samples=k))
                m = g.shape[1]
                require((m == k if k is not None else 1 <= m <= n) and g.shape == (1, m, 1 if l == 0 else 2),
                        lambda: "%s samples of level %d: shape %s; %s" % (k, l, g.shape, what()), "level samples shape")
                if k is None and cfg["storage"] != "chunked":
                    require(m == n, lambda: "%d of %d samples of level %d; %s" % (m, n, l, what()), "level samples count")
                require(np.array_equal(g[0], arr[l][0, :m], equal_nan=True), lambda: "samples of level %d are %s instead of %s; %s" % (
                    l, g[0].tolist(), arr[l][0, :m].tolist(), what()), "level samples")
                ctx.step()
        ctx.state((tuple(ns), cfg["storage"], name))


class Steps:
    """Only what the regression asks of a storage"""
    def __init__(self, steps, ops):
        self.steps, self.ops = steps, ops

    def get_level_parameters(self):
        return [[s] for s in self.steps]

    def get_n_ops(self):
        return self.ops

    def get_n_levels(self):
        return len(self.steps)

    def get_n_collected(self):
        return [10] * len(self.steps)


def reference(v, steps):
    """Least squares of log variance by powers of log step over levels 1.. with positive variance"""
    out = np.array(v, dtype=float)
    if len(v) < 3:
        return out
    pos = [l for l in range(1, len(v)) if v[l] > 0]
    if not pos:
        return out
    x = np.log([steps[l] for l in pos])
    A = np.stack([np.ones_like(x), x, x * x], axis=1)
    c, *_ = np.linalg.lstsq(A, np.log([v[l] for l in pos]), rcond=None)
    out[pos] = np.exp(A @ c)
    return out


def mode_regression(ctx, cfg):
    L = cfg["L"]
    ops = list(np.arange(1.0, L + 1))
    for steps in ([0.5 ** l for l in range(L)], [1.0 / (1 + 3 * l) for l in range(L)]):
        st = Steps(steps, ops)
        est = Estimate(None, st, mo.Legendre(3, (0, 1)))
        n = [10 + l for l in range(L)]
        for v in itertools.product(cfg["mags"], repeat=L):
            if L >= 5 and v[0] != 0.3:
                continue
            w = tuple(reversed(v))
            more = L <= 4 or sum(x > 0 for x in v) > 2
            raw = np.stack([np.zeros(L), v, w] + ([v, w, w, v] if more else []), axis=1)
            keep = raw.copy()
            got, cost = est.estimate_diff_vars_regression(n, raw_vars=raw)
            what = lambda: "variances %s on steps %s" % (keep[:, 1:].T.tolist(), steps)
            require(np.array_equal(raw, keep), lambda: "the given variances were changed; %s" % what(), "variances changed")
            require(list(cost) == ops, lambda: "costs %s instead of %s" % (cost, ops), "costs")
            require(got.shape == raw.shape and np.all(np.isfinite(got)) and np.all(got >= 0), lambda: "variances %s; %s" % (got.tolist(), what()), "finite")
            require(np.array_equal(got[:, 0], np.zeros(L)) and np.array_equal(got[0], keep[0]), lambda: "first moment or coarsest level changed: %s; %s" % (
                got.tolist(), what()), "unchanged part")
            for m, col in ((1, v), (2, w), (3, v), (4, w), (5, w), (6, v))[:raw.shape[1] - 1]:
                if np.allclose(col, 0):
                    require(np.allclose(got[:, m], col), lambda: "variances %s; %s" % (got[:, m], what()), "zero variances")
                    continue
                ref = reference(col, steps)
                require(np.allclose(got[:, m], ref, rtol=1e-6), lambda: "variances %s instead of %s; %s" % (got[:, m].tolist(), ref.tolist(), what()), "regression")
            ctx.step()
            ctx.state((tuple(steps), v))
        # exact models are reproduced
        for a, b, c in itertools.product((-2.0, 0.0, 1.0), (0.5, 1.0, 2.0), (0.0, 0.1)):
            x = np.log(steps)
            v = np.exp(a + b * x + c * x * x)
            raw = np.stack([np.zeros(L), v], axis=1)
            got, _ = est.estimate_diff_vars_regression(n, raw_vars=raw)
            require(np.allclose(got, raw, rtol=1e-8), lambda: "the exact model %s becomes %s" % (raw.tolist(), got.tolist()), "exact model")
            ctx.step()


def mode_vars(ctx, cfg):
    """Variances and counts come from the same data as the multilevel estimate, with and without explicit moments"""
    L = cfg["L"]
    ns = [4, 3, 3, 2][:L]
    arr = tables(ns)
    for nan in [None] + [(l, i) for l in range(L) for i in range(ns[l])]:
        a = [x.copy() for x in arr]
        if nan:
            a[nan[0]][0, nan[1], 0] = np.nan
        st = make(ctx, "chunked", L, a)
        st.save_n_ops([(l, [2.0 * (l + 1) * ns[l], ns[l]]) for l in range(L)])
        qe.cache_clear()
        q = make_root_quantity(st, SPEC)["a"][1.0]["x"][0, 0]
        for fn, other in ((mo.Legendre(4, (-400, 40)), mo.Monomial(2, (-400, 40))), (mo.Monomial(3, (-400, 40)), mo.Fourier(5, (-400, 40)))):
            est = Estimate(q, st, fn)
            for arg in (None, other):
                use = fn if arg is None else arg
                cnt, var, mean, cov = [], [], np.zeros(use.size), np.zeros((use.size, use.size))
                for l, x in enumerate(a):
                    ok = ~np.isnan(x[0]).any(axis=1)
                    f = use.eval_all(x[0, ok, 0])
                    c = use.eval_all(x[0, ok, 1]) if l else np.zeros_like(f)
                    cnt.append(int(ok.sum()))
                    var.append(np.var(f - c, axis=0, ddof=1) if ok.sum() > 1 else np.full(use.size, np.nan))
                    mean += np.mean(f - c, axis=0)
                    cov += (f.T @ f - c.T @ c) / cnt[-1]
                if min(cnt) < 2:
                    continue
                what = lambda: "NaN at %s, moments %s of %s" % (nan, type(use).__name__, [x[0].tolist() for x in a])
                v, n = est.estimate_diff_vars(arg) if arg is not None else est.estimate_diff_vars()
                require([int(k) for k in n] == cnt, lambda: "counts %s instead of %s; %s" % (n, cnt, what()), "counts")
                require(np.allclose(v, np.array(var), rtol=1e-8, atol=1e-10), lambda: "variances %s instead of %s; %s" % (v, var, what()), "variances")
                m, mv = est.estimate_moments(arg)
                require(np.allclose(m, mean, rtol=1e-9, atol=1e-10) and np.allclose(mv, sum(np.array(var[l]) / cnt[l] for l in range(L)), atol=1e-10),
                        lambda: "moments %s, %s; %s" % (m, mv, what()), "moments")
                g, _ = est.estimate_covariance(arg)
                require(np.allclose(g, cov, rtol=1e-9, atol=1e-10), lambda: "covariance %s instead of %s; %s" % (g, cov, what()), "covariance")
                r, ops = est.estimate_diff_vars_regression(ns, arg) if arg is not None else est.estimate_diff_vars_regression(ns)
                require(np.allclose(ops, [2.0 * (l + 1) for l in range(L)]), lambda: "costs %s" % (ops,), "costs")
                steps = [p[0] for p in st.get_level_parameters()]
                ref = np.array(var).copy()
                for k in range(1, use.size):
                    if not np.allclose(ref[:, k], 0):
                        ref[:, k] = reference(np.where(ref[:, k] > 0, ref[:, k], 0), steps)
                require(np.allclose(r[:, 1:], ref[:, 1:], rtol=1e-6, atol=1e-10), lambda: "regression %s instead of %s; %s" % (r, ref, what()), "regression")
                require(est.n_moments == fn.size, "n_moments", "n_moments")
                ctx.step()
        ctx.state((L, nan))
