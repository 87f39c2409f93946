"""C23: correlated fields are the exact linear image of their random input."""
import itertools
from unittest import mock
import numpy as np
from mc.engine import require
from mlmc.random import correlated_field as cf

PROPERTY = "C23"
BOUNDS = {
    "quick": "every nonempty point set of up to 5 points of a 3x3 grid and up to 6 points of a line, correlation exponents gauss/exp/1.5, lengths "
             "0.05/0.7/20 and an anisotropic tensor, scalar and per-point mean and deviation, log on/off; every basis vector as the random input; "
             "every pair of point sets as history set_points/sample/set_points/sample; precisions and term limits incl. those of Fields; 36 and 64 points; "
             "the spectral generator in 1 and 2 dimensions, 2/7 modes, with every pattern of up to 4 memory failures of one sample",
    "thorough": "up to 6 points of the grid, every 3-step history over 8 point sets, up to 11 points of a line, up to 5 memory failures",
}
ASSUMPTIONS = ["the random input is drawn through numpy's normal generator, which is replaced by prescribed vectors; if it is drawn otherwise only "
               "the factor returned by the decomposition is checked",
               "exactness is asked of at most 11 points, where the randomised SVD of the package is exact; 36 and 64 points only to 2 %"]
GRID = [(x, y) for x in (0.0, 0.5, 2.0) for y in (0.0, 1.0, 1.25)]
LINE = [0.0, 0.1, 0.5, 1.0, 3.0, 3.5, 4.5, 5.0, 7.0, 8.0, 10.0]
PARAMS = [dict(corr_exp=e, corr_length=l) for e in ("gauss", "exp", 1.5) for l in (0.05, 0.7, 20.0)]
ANISO = [np.diag([4.0, 0.25]), np.array([[2.0, 0.5], [0.5, 1.0]])]


def configs(tier):
    th = tier == "thorough"
    cs = []
    for i in range(len(PARAMS)):
        for n in range(1, (6 if th else 5) + 1):
            cs.append({"mode": "grid", "par": i, "n": n})
        cs.append({"mode": "line", "par": i, "n": 11 if th else 6})
        cs.append({"mode": "history", "par": i, "len": 3 if th else 2})
        cs.append({"mode": "terms", "par": i})
    for i in range(len(ANISO)):
        cs.append({"mode": "grid", "aniso": i, "n": 3})
        cs.append({"mode": "history", "aniso": i, "len": 2})
    cs.append({"mode": "fields"})
    cs.append({"mode": "gstools"})
    cs.append({"mode": "small sigma"})
    cs.append({"mode": "zero sigma"})
    for i in range(len(PARAMS)):
        for side in ((6, 8) if th else (6,)):
            cs.append({"mode": "large", "par": i, "side": side})
    for dim, exp, n, modes in itertools.product((1, 2), ("gauss", "exp"), (1, 2, 5) if th else (2, 5), (1, 2, 7) if th else (2, 7)):
        cs.append({"mode": "fourier", "dim": dim, "exp": exp, "n": n, "modes": modes, "bound": 5 if th else 4})
    return cs


def make(cfg, dim, **kw):
    if "aniso" in cfg:
        return cf.SpatialCorrelatedField(corr_exp="exp", dim=dim, aniso_correlation=ANISO[cfg["aniso"]].copy(), **kw)
    return cf.SpatialCorrelatedField(dim=dim, **dict(PARAMS[cfg["par"]], **kw))


def correlation(cfg, pts):
    pts = np.asarray(pts, dtype=float)
    out = np.empty((len(pts), len(pts)))
    if "aniso" in cfg:
        K, e = ANISO[cfg["aniso"]], 1.0
    else:
        p = PARAMS[cfg["par"]]
        K, e = np.eye(pts.shape[1]) / p["corr_length"] ** 2, {"gauss": 2.0, "exp": 1.0}.get(p["corr_exp"], p["corr_exp"])
    for i, j in itertools.product(range(len(pts)), repeat=2):
        d = pts[i] - pts[j]
        out[i, j] = np.exp(-(d @ K @ d) ** (e / 2.0))
    return out


class Normal:
    """Prescribed random input: the j-th unit vector (j < 0: zeros)"""
    def __init__(self):
        self.j, self.sizes, self.z = -1, [], None

    def vector(self, n):
        self.sizes.append(n)
        if self.z is not None:
            return np.resize(self.z, n)
        z = np.zeros(n)
        if 0 <= self.j < n:
            z[self.j] = 1.0
        return z

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.vector(int(np.prod(size)))

    def standard_normal(self, size=None):
        return self.vector(int(np.prod(size)))

    def randn(self, *size):
        return self.vector(int(np.prod(size)))


def samples(field):
    """(zero sample, list of samples for unit vectors) or None when the input is not drawn by the patched functions"""
    nm = Normal()
    with mock.patch("numpy.random.normal", nm.normal), mock.patch("numpy.random.standard_normal", nm.standard_normal), \
            mock.patch("numpy.random.randn", nm.randn):
        base = np.array(field.sample())
        if not nm.sizes:
            return None
        require(len(nm.sizes) == 1, lambda: "random input drawn %d times" % len(nm.sizes), "draws")
        k = nm.sizes[0]
        cols = []
        for j in range(k):
            nm.j = j
            cols.append(np.array(field.sample()))
        large = []
        for z in ([-25.0], [30.0, -11.0], [9.0, 8.0, -7.5]):
            nm.z = np.array(z)
            large.append((np.resize(nm.z, k), np.array(field.sample())))
        require(all(s == k for s in nm.sizes), "number of random inputs changes between samples", "inputs")
    return base, cols, large


def audit(ctx, cfg, field, pts, mu, sigma, log, precision, what, max_terms=None):
    C = correlation(cfg, pts)
    n = len(pts)
    r = samples(field)
    if r is None:
        return
    base, cols, large = r
    un = np.log if log else (lambda x: x)
    mu_v, sg_v = np.broadcast_to(np.asarray(mu, float), (n,)), np.broadcast_to(np.asarray(sigma, float), (n,))
    require(base.shape == (n,), lambda: "%s: sample of shape %s in %d points" % (what, base.shape, n), "shape")
    require(np.allclose(un(base), mu_v, rtol=1e-9, atol=1e-9), lambda: "%s: sample for zero input %s instead of the mean %s" % (
        what, base.tolist(), mu_v.tolist()), "mean")
    L = np.stack([(un(c) - mu_v) / sg_v for c in cols], axis=1) if cols else np.zeros((n, 0))
    for z, s in large:
        w = mu_v + sg_v * (L @ z)
        require(np.allclose(un(s), w, rtol=1e-7, atol=1e-6 * np.max(sg_v)), lambda: "%s: sample for the input %s is %s instead of %s" % (
            what, z.tolist(), un(s).tolist(), w.tolist()), "linear")
    ev = np.sort(np.linalg.eigvalsh(C))[::-1]
    m = L.shape[1]
    err = np.linalg.norm(L @ L.T - C, 2)
    # eigenvalues below the precision (relative to the largest) may be dropped, or those beyond the allowed number of terms
    limit = max(precision * ev[0], ev[m] if max_terms is not None and m == max_terms and m < n else 0.0) * (1 + 1e-6) + 1e-7
    require(err <= limit, lambda: "%s: L L^T differs from the correlation matrix by %s > %s in points %s (%d terms)" % (
        what, err, limit, np.asarray(pts).tolist(), m), "covariance")
    ctx.step()
    ctx.state((cfg["mode"], str(cfg.get("par", cfg.get("aniso"))), tuple(map(tuple, np.asarray(pts))), str(mu), str(sigma), log, what))


def run(ctx):
    cfg = ctx.config
    np.random.seed(1)
    globals()["mode_" + cfg["mode"].replace(" ", "_")](ctx, cfg)


def mode_grid(ctx, cfg):
    for pts in itertools.combinations(GRID, cfg["n"]):
        n = len(pts)
        f = make(cfg, 2)
        f.set_points(np.array(pts))
        audit(ctx, cfg, f, pts, 0.0, 1.0, False, 0.01, "default")
    pts = GRID[:cfg["n"]]
    n = len(pts)
    for mu, sigma, log in itertools.product([0.0, -1.5, 3.25, np.arange(n) * 0.5], [1.0, 0.25, 0.5 + np.arange(n)], [False, True]):
        f = make(cfg, 2, log=log, mu=mu if np.ndim(mu) == 0 else 0.0, sigma=sigma if np.ndim(sigma) == 0 else 1.0)
        if np.ndim(mu) or np.ndim(sigma):
            f.set_points(np.array(pts), mu=mu, sigma=sigma)
        else:
            f.set_points(np.array(pts))
        audit(ctx, cfg, f, pts, mu, sigma, log, 0.01, "parameters")
        # the parameters stay when only points change
        moved = [(x + 0.25, y) for x, y in pts]
        f.set_points(np.array(moved))
        audit(ctx, cfg, f, moved, mu, sigma, log, 0.01, "parameters kept")
        f.set_points(np.array(pts), mu=2.0, sigma=3.0)
        audit(ctx, cfg, f, pts, 2.0, 3.0, log, 0.01, "parameters changed")


def mode_line(ctx, cfg):
    for k in range(1, cfg["n"] + 1):
        for pts in itertools.combinations(LINE[:max(6, k)], k):
            f = make(cfg, 1)
            P = np.array(pts)[:, None]
            f.set_points(P)
            audit(ctx, cfg, f, P, 0.0, 1.0, False, 0.01, "line")
            Cm = f.cov_matrix()
            require(np.allclose(Cm, correlation(cfg, P), rtol=1e-12, atol=0), "covariance matrix of %s" % (pts,), "matrix")
            L, ev = f.svd_dcmp(precision=1e-8)
            require(np.allclose(L @ L.T, Cm if Cm is not None else 0, atol=1e-6), "factor of %s" % (pts,), "factor")


def histories(cfg):
    sets = [GRID[:1], GRID[:2], GRID[3:5], GRID[:4], GRID[2:6], GRID[4:7], GRID[::2], [(0.3, 0.3), (0.3, 0.9)]]
    return itertools.product(sets, repeat=cfg["len"])


def mode_history(ctx, cfg):
    for hist in histories(cfg):
        for prepare in ("none", "matrix", "factor"):
            f = make(cfg, 2)
            for i, pts in enumerate(hist):
                given = np.array(pts)
                f.set_points(given)
                given[:] = -7.0          # the caller may reuse its array
                if prepare == "matrix":
                    f.cov_matrix()
                elif prepare == "factor":
                    f.svd_dcmp(n_terms_range=(10, 100))
                audit(ctx, cfg, f, pts, 0.0, 1.0, False, 0.01, "step %d, %s" % (i, prepare))
            # prepared for the previous points and not used
            f.set_points(np.array(hist[0]))
            f.cov_matrix()
            f.set_points(np.array(hist[-1]))
            audit(ctx, cfg, f, hist[-1], 0.0, 1.0, False, 0.01, "unused matrix")
        # two fields do not influence each other
        a, b = make(cfg, 2), make(cfg, 2)
        a.set_points(np.array(hist[0]))
        b.set_points(np.array(hist[-1]))
        audit(ctx, cfg, a, hist[0], 0.0, 1.0, False, 0.01, "first of two")
        audit(ctx, cfg, b, hist[-1], 0.0, 1.0, False, 0.01, "second of two")


def mode_terms(ctx, cfg):
    for n in (2, 4, 5, 6, 9, 11):
        P = np.array(LINE[:n])[:, None]
        for precision in (0.5, 0.1, 0.01, 1e-4, 1e-9):
            for lo, hi in ((1, np.inf), (1, 1), (1, 3), (2, 4), (3, 100), (10, 100), (5, 7)):
                if lo > n and hi < n:
                    continue
                f = make(cfg, 1)
                f.set_points(P)
                L, ev = f.svd_dcmp(precision=precision, n_terms_range=(lo, hi))
                require(L.shape[1] >= min(lo, n) and (L.shape[1] <= hi or lo >= n) and L.shape[1] <= n, lambda: "%d terms for range %s, %d points" % (
                    L.shape[1], (lo, hi), n), "number of terms")
                audit(ctx, cfg, f, P, 0.0, 1.0, False, precision, "precision %s terms %s-%s" % (precision, lo, hi), max_terms=min(hi, n))


def mode_small_sigma(ctx, cfg):
    """The a-priori estimate of the number of terms is anywhere with respect to the precision"""
    for sigma in (1e-3, 0.02, 0.05, 0.08, 0.1, 0.12, 0.15, 0.3, 1.0, 10.0):
        for i in range(len(PARAMS)):
            for pts in (GRID[:4], GRID, [(0.0, 0.0), (1.0, 0.0), (0.0, 1.0), (1.0, 1.0)]):
                c = {"mode": cfg["mode"], "par": i}
                f = make(c, 2, sigma=sigma)
                f.set_points(np.array(pts))
                audit(ctx, c, f, pts, 0.0, sigma, False, 0.01, "sigma")


def mode_zero_sigma(ctx, cfg):
    """A deviation vanishing in some points: the mean there, the others as if alone"""
    for pts in (GRID[:2], GRID[:4], GRID[2:7]):
        n = len(pts)
        for zero in itertools.product((0, 1), repeat=n):
            for i, log in itertools.product(range(0, len(PARAMS), 2), (False, True)):
                sigma = np.array([0.0 if z else 0.5 + k for k, z in enumerate(zero)])
                mu = 0.25 * np.arange(n) - 0.5
                c = {"mode": cfg["mode"], "par": i}
                f = make(c, 2, log=log)
                f.set_points(np.array(pts), mu=mu, sigma=sigma)
                r = samples(f)
                if r is None:
                    return
                un = np.log if log else (lambda x: x)
                base, cols, large = r
                C = correlation(c, pts) * np.outer(sigma, sigma)
                L = np.stack([un(x) - mu for x in cols], axis=1)
                require(np.allclose(un(base), mu, atol=1e-12), lambda: "mean %s instead of %s" % (un(base), mu), "zero sigma mean")
                require(all(np.allclose((un(s) - mu)[sigma == 0], 0, atol=1e-12) for _, s in large), "values where sigma is zero", "zero sigma")
                require(np.linalg.norm(L @ L.T - C, 2) <= 0.011 * n * np.max(sigma) ** 2 + 1e-7, lambda: "covariance %s instead of %s" % (
                    (L @ L.T).tolist(), C.tolist()), "zero sigma covariance")
                ctx.step()
                ctx.state((cfg["mode"], i, log, n, zero))


def mode_fields(ctx, cfg):
    """Correlated fields inside of a set of fields, shared by regions"""
    for i in range(len(PARAMS)):
        for layout in itertools.product([1, 2], repeat=5):
            c = {"mode": "fields", "par": i}
            rf = make(c, 2, mu=1.0, sigma=0.5)
            F = cf.Fields([cf.Field("a", rf, regions="x"), cf.Field("b", rf, regions="y")])
            pts = np.array(GRID[:5])
            if len(set(layout)) < 2:
                continue
            F.set_points(pts, list(layout), {"x": 1, "y": 2})
            nm = Normal()
            with mock.patch("numpy.random.normal", nm.normal), mock.patch("numpy.random.standard_normal", nm.standard_normal), \
                    mock.patch("numpy.random.randn", nm.randn):
                base = F.sample()
                if not nm.sizes:
                    return
                cols = []
                for j in range(max(nm.sizes)):
                    nm.j = j
                    cols.append(F.sample())
            for name, reg in (("a", 1), ("b", 2)):
                ids = [k for k in range(5) if layout[k] == reg]
                L = np.stack([(s[name] - base[name])[ids] / 0.5 for s in cols], axis=1)
                require(np.allclose(base[name][ids], 1.0), "mean of field %s" % name, "mean")
                require(np.allclose(L @ L.T, correlation(c, pts[ids]), atol=1e-6), lambda: "field %s in elements %s: covariance %s instead of %s" % (
                    name, ids, (L @ L.T).tolist(), correlation(c, pts[ids]).tolist()), "covariance in fields")
                ctx.step()
            ctx.state(("fields", i, layout))


def mode_gstools(ctx, cfg):
    """The wrapped gstools generator: affine and log transformation, current points, reproducible by seed"""
    import gstools
    for dim, n, log, sigma, seed in itertools.product((1, 2, 3), (1, 2, 4), (False, True), (1.0, 0.25), (1, 7)):
        model = gstools.Exponential(dim=dim, var=1, len_scale=0.5)
        f = cf.GSToolsSpatialCorrelatedField(model, mode_no=16, log=log, sigma=sigma)
        for shift in (0.0, 2.0):
            P = (np.arange(n * dim).reshape(n, dim) * 0.3) ** 1.5 + shift
            f.change_srf(seed)
            f.set_points(P)
            got = np.asarray(f.sample())
            ref = np.ravel(gstools.SRF(model, seed=seed, mode_no=16)(tuple(P.T)))
            ref = sigma * ref
            ref = np.exp(ref) if log else ref
            require(got.shape == (n,) and np.allclose(got, ref, rtol=1e-9), lambda: "gstools field %s instead of %s" % (got.tolist(), ref.tolist()), "gstools")
            ctx.step()
            ctx.state(("gstools", dim, n, log, sigma, seed, shift))


def mode_large(ctx, cfg):
    """Sets where only the leading part of the spectrum is computed"""
    k = cfg["side"]
    pts = [(x * 0.4, y * 0.3) for x in range(k) for y in range(k)]
    C = correlation(cfg, pts)
    top = np.linalg.eigvalsh(C)[-1]
    for precision in (0.3, 0.1, 0.01, 1e-3):
        for seed in (0, 1):
            np.random.seed(seed)
            f = make(cfg, 2)
            f.set_points(np.array(pts))
            L, ev = f.svd_dcmp(precision=precision)
            require(L.shape[1] <= len(pts) and np.linalg.norm(L @ L.T - C, 2) <= 2 * precision * top, lambda: "%d points, precision %s: error %s > %s" % (
                len(pts), precision, np.linalg.norm(L @ L.T - C, 2), 2 * precision * top), "covariance of many points")
            ctx.step()
    f = make(cfg, 2)
    f.set_points(np.array(pts))
    r = samples(f)
    if r is not None:
        L = np.stack([c - r[0] for c in r[1]], axis=1)
        require(np.linalg.norm(L @ L.T - C, 2) <= 0.02 * top, "samples in many points", "covariance of many points")
    ctx.state(("large", cfg["par"], k))


def fourier(cfg, pts, seed, **kw):
    f = cf.FourierSpatialCorrelatedField(corr_exp=cfg["exp"], dim=cfg["dim"], corr_length=0.7, mode_no=cfg["modes"], **kw)
    f.set_points(np.array(pts))
    np.random.seed(seed)
    return f


def mode_fourier(ctx, cfg):
    """The spectral generator: reproducible, a function of the point alone, and indifferent to where the memory runs out"""
    import warnings
    warnings.simplefilter("ignore")
    n, dim = cfg["n"], cfg["dim"]
    pts = (np.array(LINE[:n])[:, None] if dim == 1 else np.array(GRID[:n]))
    ref = np.ravel(fourier(cfg, pts, 5).sample())
    require(ref.shape == (n,) and np.all(np.isfinite(ref)), lambda: "spectral field %s in %d points" % (ref.tolist(), n), "fourier")
    fails, cos = [], np.cos

    def faulty(x, *a, **kw):
        if np.ndim(x) == 2 and len(fails) < cfg["bound"] and ctx.choose(2):
            fails.append(np.shape(x))
            raise MemoryError()
        return cos(x, *a, **kw)
    f = fourier(cfg, pts, 5)
    with mock.patch("numpy.cos", faulty), mock.patch("builtins.print"):
        got = np.ravel(f.sample())
    require(got.shape == ref.shape and np.allclose(got, ref, rtol=1e-9, atol=1e-12), lambda: "spectral field with memory failures %s: %s instead of %s" % (
        fails, got.tolist(), ref.tolist()), "fourier chunks")
    if not fails:
        for k in range(1, n):
            part = np.ravel(fourier(cfg, pts[k:], 5).sample())
            require(np.allclose(part, ref[k:], rtol=1e-9, atol=1e-12), "spectral field in a part of the points", "fourier part")
        for mu, sigma, log in itertools.product((0.0, 2.0), (1.0, 0.5), (False, True)):
            s = np.ravel(fourier(cfg, pts, 5, mu=mu, sigma=sigma, log=log).sample())
            w = sigma * ref + mu
            require(np.allclose(s, np.exp(w) if log else w, rtol=1e-9), "transformed spectral field", "fourier transform")
        f = fourier(cfg, pts, 5)
        f.sample()
        require(not np.allclose(np.ravel(f.sample()), ref), "the next sample is the same", "fourier next")
    ctx.step(len(fails) + 1)
    ctx.state(("fourier", dim, cfg["exp"], n, cfg["modes"], tuple(fails)))
