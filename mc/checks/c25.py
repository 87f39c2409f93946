"""C25: distributions approximated from moments over a grid of densities, domains, bases and query orders."""
import contextlib
import io
import itertools
import numpy as np
from mc import qmodel as qm
from mc.engine import require
import mlmc.moments as mo
import mlmc.tool.simple_distribution as sd
import mlmc.quantity.quantity_estimate as qe
from mlmc.estimator import Estimate
from mlmc.quantity.quantity_spec import QuantitySpec
from mlmc.quantity.quantity import make_root_quantity

PROPERTY = "C25"
BOUNDS = {
    "quick": "densities exp(polynomial of degree <=3 / trigonometric polynomial) with all coefficients of {-1.5, 0, 2} on 5 domains (one "
             "logarithmic), Legendre, monomial and Fourier bases of 3-7 functions, 2 eigenvalue thresholds, 3 scales of moment errors, exact "
             "moments; 10 densities concentrated in the middle or at the ends; cumulative function for every permutation of 4 of 9 query points inside, at the ends of and outside of the domain; "
             "orthogonalised moments for the covariance of every multiset of 4-6 points of a 6-point grid and of multilevel samples in every chunking",
    "thorough": "bases of 3-12 functions, coefficients of {-3, -1.5, 0, 2, 4}, every permutation of 5 query points",
}
ASSUMPTIONS = ["the fit is asked to succeed only for densities of the exponential family of the basis, which it can represent exactly"]
DOMAINS = [(-1.0, 1.0, False), (0.0, 10.0, False), (-300.0, -200.0, False), (1e-3, 3e-3, False), (0.5, 7.0, True)]
PT, WT = np.polynomial.legendre.leggauss(30)


def quad(f, a, b, n=40):
    """Composite Gauss integral of a vector function (rows = points)"""
    e = np.linspace(a, b, n + 1)
    x = ((PT[None, :] + 1) / 2 * (e[1:] - e[:-1])[:, None] + e[:-1, None]).ravel()
    w = (WT[None, :] * ((e[1:] - e[:-1]) / 2)[:, None]).ravel()
    return np.tensordot(w, np.asarray(f(x)), axes=(0, 0))


def basis_obj(name, size, dom):
    return getattr(mo, name)(size, (dom[0], dom[1]), log=dom[2])


def functions(name, dom, k):
    """Closed form of the first k functions on the mapped variable"""
    a, b, log = dom

    def f(x):
        x = np.asarray(x, dtype=float)
        t = (np.log(x) - np.log(a)) / (np.log(b) - np.log(a)) if log else (x - a) / (b - a)
        if name == "Fourier":
            t = 2 * np.pi * t
            return np.stack([np.ones_like(t), np.cos(t), np.sin(t), np.cos(2 * t)][:k], axis=-1)
        t = 2 * t - 1
        return np.stack([np.ones_like(t), t, t * t, t ** 3][:k], axis=-1)
    return f


def true_density(name, dom, c):
    f = functions(name, dom, len(c) + 1)
    e = lambda x: np.exp(f(x)[..., 1:] @ np.asarray(c))
    z = quad(e, dom[0], dom[1])
    return lambda x: e(x) / z


def configs(tier):
    th = tier == "thorough"
    cs = []
    for name in ("Legendre", "Monomial", "Fourier"):
        for d in range(len(DOMAINS)):
            for size in range(3, (12 if th else 7) + 1):
                cs.append({"mode": "fit", "basis": name, "dom": d, "size": size, "coef": [-3, -1.5, 0, 2, 4] if th else [-1.5, 0, 2]})
            if d < 2:
                cs += [{"mode": "narrow", "basis": name, "dom": d, "size": size} for size in range(4, (9 if th else 6) + 1)]
            cs += [{"mode": "cdf", "basis": name, "dom": d, "n": 5 if th else 4, "first": k} for k in range(9)]
    for name in ("Legendre", "Monomial", "Fourier"):
        for n in (4, 5, 6):
            cs.append({"mode": "ortho", "basis": name, "n": n, "size": 4})
    for sizes in ([2], [3], [100], [1, 4], [5, 2]):
        for L in (1, 2, 3):
            cs.append({"mode": "samples", "sizes": sizes, "L": L})
    cs += [{"mode": "tools", "dom": d} for d in range(len(DOMAINS))]
    return cs


def run(ctx):
    with contextlib.redirect_stdout(io.StringIO()):
        globals()["mode_" + ctx.config["mode"]](ctx, ctx.config)


def fit(ctx, name, dom, c, size, tol, var, what):
    base = basis_obj(name, size, dom)
    rho = true_density(name, dom, c)
    a, b, _ = dom
    phi = base.eval_all
    cov = quad(lambda x: (phi(x)[:, :, None] * phi(x)[:, None, :]) * rho(x)[:, None, None], a, b)
    orth, info = sd.construct_ortogonal_moments(base, cov, tol=tol)
    m = quad(lambda x: orth.eval_all(x) * rho(x)[:, None], a, b)
    got_cov = quad(lambda x: (orth.eval_all(x)[:, :, None] * orth.eval_all(x)[:, None, :]) * rho(x)[:, None, None], a, b)
    at = 1e-6 if size <= 7 else 1e-4        # rounding grows with the size
    require(np.allclose(got_cov, np.eye(orth.size), atol=at), lambda: "covariance of the orthogonalised moments differs from unit by %.2g; %s" % (
        np.max(np.abs(got_cov - np.eye(orth.size))), what()), "unit covariance")
    require(np.allclose(m, np.eye(orth.size)[0], atol=at), lambda: "means of the orthogonalised moments %s; %s" % (m, what()), "orthogonal means")
    d = sd.SimpleDistribution(orth, np.stack([m, np.full(orth.size, var)], axis=1), domain=(a, b))
    res = d.estimate_density_minimize(1e-7)
    return rho, orth, m, d, res


def proper(d, a, b, what):
    x = np.linspace(a, b, 201)
    y = np.asarray(d.density(x))
    require(y.shape == x.shape and np.all(np.isfinite(y)) and np.all(y >= 0), lambda: "density %s; %s" % (y, what()), "nonnegative density")
    total = quad(d.density, a, b)
    require(abs(total - 1) < 1e-7, lambda: "density integrates to %.12g; %s" % (total, what()), "integral")
    return x, y


def mode_fit(ctx, cfg):
    dom, name, size = DOMAINS[cfg["dom"]], cfg["basis"], cfg["size"]
    a, b, _ = dom
    n_c = 2 if name == "Fourier" else min(3, size - 1)
    i = 0
    for c in itertools.product(cfg["coef"], repeat=n_c):
        tol = (1e-8, 1e-4)[i % 2]
        var = (1.0, 0.25, 9.0)[i % 3]
        i += 1
        what = lambda: "%s basis of %d functions on %s, log density coefficients %s, tol %g, var %g" % (name, size, dom, c, tol, var)
        rho, orth, m, d, res = fit(ctx, name, dom, c, size, tol, var, what)
        x, y = proper(d, a, b, what)
        got = quad(lambda x: orth.eval_all(x) * np.asarray(d.density(x))[:, None], a, b)
        # the fit may be inaccurate but has to say so
        if res.success:
            require(np.allclose(got, m, atol=1e-6 if size <= 7 else 1e-4), lambda: "moments %s instead of %s although the fit succeeded; %s" % (got, m, what()), "moments")
        easy = max(np.abs(c)) <= 2          # further ones need not be found, the result says so
        if orth.size == size and size <= 7 and (easy or res.success):
            err = np.max(np.abs(y - rho(x)) / np.max(rho(x)))
            require(err < (1e-4 if easy else 1e-2), lambda: "density differs by %.2g from the only one of the family with these moments; %s" % (err, what()), "density")
        ctx.step()
        ctx.state((cfg["dom"], name, size, c))


NARROW = [(0, -20.0), (0, -60.0), (0, 30.0), (3, -40.0), (12.0, 0), (-12.0, 0.0), (0, 8.0), (8.0, 0), (-8.0, 0), (-30.0, 0)]


def mode_narrow(ctx, cfg):
    """Densities concentrated in a part of the domain or at its ends: whatever is reported as fitted has the moments"""
    dom, name, size = DOMAINS[cfg["dom"]], cfg["basis"], cfg["size"]
    a, b, _ = dom
    for c in NARROW:
        what = lambda: "%s basis of %d functions on %s, log density coefficients %s" % (name, size, dom, c)
        rho, orth, m, d, res = fit(ctx, name, dom, c, size, 1e-8, 1.0, what)
        if res.success:
            proper(d, a, b, what)
            got = quad(lambda x: orth.eval_all(x) * np.asarray(d.density(x))[:, None], a, b)
            require(np.allclose(got, m, atol=1e-6 if size <= 7 else 1e-4), lambda: "moments %s instead of %s although the fit succeeded; %s" % (got, m, what()), "moments")
        ctx.step()
        ctx.state((cfg["dom"], name, size, c, bool(res.success)))


def mode_cdf(ctx, cfg):
    dom, name = DOMAINS[cfg["dom"]], cfg["basis"]
    a, b, _ = dom
    w = b - a
    c = (1.5, -8.0) if name == "Fourier" else (0.5, -20.0)      # rather narrow
    what = lambda: "%s basis on %s" % (name, dom)
    rho, orth, m, d, res = fit(ctx, name, dom, c, 4, 1e-8, 1.0, what)
    proper(d, a, b, what)
    pts = [a - w, a, a + 0.1 * w, a + 0.45 * w, a + 0.5 * w, a + 0.93 * w, np.nextafter(b, a), b, b + 3 * w]
    ref = [0.0 if p <= a else 1.0 if p >= b else quad(d.density, a, p, 60) for p in pts]
    for p, r in zip(pts, ref):
        for q in (p, [p], np.array([p])):
            g = np.asarray(d.cdf(q)).ravel()
            require(g.shape == (1,) and abs(g[0] - r) < 1e-6, lambda: "cdf(%r) = %s instead of %.10g; %s" % (q, g, r, what()), "cdf value")
    for sub in itertools.permutations(range(len(pts)), cfg["n"]):
        if sub[0] != cfg["first"]:
            continue
        q = np.array([pts[k] for k in sub])
        keep = q.copy()
        g = np.asarray(d.cdf(q))
        require(np.array_equal(q, keep), lambda: "cdf changed its argument %s" % keep, "cdf argument")
        require(g.shape == q.shape and np.max(np.abs(g - [ref[k] for k in sub])) < 1e-6, lambda: "cdf(%s) = %s instead of %s; %s" % (
            keep.tolist(), g.tolist(), [ref[k] for k in sub], what()), "cdf order")
        s = np.argsort(q, kind="stable")
        require(np.all(np.diff(g[s]) >= -1e-8), lambda: "cdf(%s) = %s decreases; %s" % (keep.tolist(), g.tolist(), what()), "cdf monotone")
        ctx.step()
    dup = np.array([pts[4], pts[2], pts[4], pts[2]])
    g = np.asarray(d.cdf(dup))
    require(np.max(np.abs(g - [ref[k] for k in (4, 2, 4, 2)])) < 1e-6, lambda: "cdf(%s) = %s" % (dup, g), "cdf order")
    ctx.state((cfg["dom"], name))


def discrete_cov(base, pts):
    v = base.eval_all(np.asarray(pts))
    return v.T @ v / len(pts)


def mode_ortho(ctx, cfg):
    """Every multiset of points is a discrete distribution"""
    name, n, size = cfg["basis"], cfg["n"], cfg["size"]
    grid = [0.3, 1.0, 1.6, 2.5, 3.1, 4.4]
    base = getattr(mo, name)(size, (0.0, 5.0))
    for pts in itertools.combinations_with_replacement(grid, n):
        cov = discrete_cov(base, pts)
        ev = np.linalg.eigvalsh(cov - np.outer(cov[0], cov[0]) + np.outer(np.eye(size)[0], np.eye(size)[0]))
        what = lambda: "%s moments of %s" % (name, list(pts))
        for tol in (1e-6, 0.05, None):
            if tol is None and ev[0] < 1e-6:
                continue            # the slope test is meant for positive eigenvalues
            if tol is not None and np.any(np.abs(ev - tol) < 1e-9):
                continue
            keep = cov.copy()
            orth, info = sd.construct_ortogonal_moments(base, cov, tol=tol)
            require(np.array_equal(cov, keep), "covariance matrix changed", "argument changed")
            if tol is not None:
                require(orth.size == int(np.sum(ev > tol)), lambda: "%d moments instead of %d above the threshold %g; %s" % (
                    orth.size, int(np.sum(ev > tol)), tol, what()), "orthogonal size")
            require(2 - (np.sum(ev > 1e-6) < 2) <= orth.size <= size or tol is not None, lambda: "%d moments" % orth.size, "orthogonal size")
            v = orth.eval_all(np.asarray(pts))
            got = v.T @ v / n
            require(np.allclose(got, np.eye(orth.size), atol=1e-7), lambda: "covariance %s; %s" % (got.tolist(), what()), "unit covariance")
            require(np.allclose(v[:, 0], 1.0, atol=1e-7), lambda: "the first function %s; %s" % (v[:, 0], what()), "first function")
            if orth.size == size:
                x = np.array(grid)
                lead = np.linalg.lstsq(base.eval_all(x), orth.eval_all(x), rcond=None)[0]
                require(np.allclose(np.tril(lead, -1), 0, atol=1e-5 * np.max(np.abs(lead))), lambda: "functions are not of increasing degree: %s; %s" % (
                    lead.tolist(), what()), "triangular")
            ctx.step()
        ctx.state((name, pts))


SPEC = [QuantitySpec("a", "m", (1, 1), [1.0], ["x"])]
SAMPLES = {
    0: np.array([0.4, 1.1, 2.2, 2.9, 3.3, 4.6, 1.7, 0.9, 3.8, 2.4, 2.0]),
    1: np.array([[1.0, 1.1], [2.0, 1.8], [3.5, 3.3], [4.0, 4.1], [2.6, 2.5]]),
    2: np.array([[2.1, 2.0], [3.0, 3.05], [1.2, 1.25]]),
}


def mode_samples(ctx, cfg):
    L = cfg["L"]
    arr = [SAMPLES[0].reshape(1, -1, 1)] + [SAMPLES[l].reshape(1, -1, 2) for l in range(1, L)]
    for cut in range(0, 4):
        st = qm.Chunked(cfg["sizes"])
        st.save_global_data(level_parameters=qm.params(L), result_format=SPEC)
        data = [x[:, :x.shape[1] - (cut if l == 0 else 0)] for l, x in enumerate(arr)]
        qm.fill(st, data)
        q = make_root_quantity(st, SPEC)["a"][1.0]["x"][0, 0]
        for name in ("Legendre", "Monomial", "Fourier"):
            fn = getattr(mo, name)(4, (0.0, 5.0))
            est = Estimate(q, st, fn)
            what = lambda: "%s moments, %d levels, %d samples cut, chunks %s" % (name, L, cut, cfg["sizes"])
            # multilevel covariance by hand
            cov = np.zeros((4, 4))
            for l, x in enumerate(data):
                f = fn.eval_all(x[0, :, 0])
                g = np.zeros_like(f) if l == 0 else fn.eval_all(x[0, :, 1])
                cov += (f.T @ f - g.T @ g) / len(f)
            ev = np.linalg.eigvalsh(cov - np.outer(cov[0], cov[0]) + np.outer(np.eye(4)[0], np.eye(4)[0]))
            if np.min(ev) < 1e-3:
                continue
            qe.cache_clear()
            d, info, res, orth = est.construct_density(tol=1e-8, orth_moments_tol=1e-4)
            require(orth.size == 4, lambda: "%d moments; %s" % (orth.size, what()), "orthogonal size")
            c2 = qe.estimate_mean(qe.covariance(q, orth)).mean
            require(np.allclose(c2, np.eye(4), atol=1e-7), lambda: "covariance of the orthogonalised moments is %s; %s" % (c2, what()), "unit covariance")
            m2 = qe.estimate_mean(qe.moments(q, orth)).mean
            require(np.allclose(m2, [1, 0, 0, 0], atol=1e-7), lambda: "means of the orthogonalised moments are %s; %s" % (m2, what()), "orthogonal means")
            require(tuple(d.domain) == (0.0, 5.0), lambda: "domain %s" % (d.domain,), "domain")
            proper(d, 0.0, 5.0, what)
            if res.success:
                got = quad(lambda x: orth.eval_all(x) * np.asarray(d.density(x))[:, None], 0.0, 5.0)
                require(np.allclose(got, m2, atol=1e-5), lambda: "moments %s instead of %s although the fit succeeded; %s" % (got, m2, what()), "moments")
            else:
                # few samples may have no smooth density at all
                ctx.state(("no fit", name, L, cut))
            ctx.step()
            ctx.state((name, L, cut, tuple(cfg["sizes"])))


def mode_tools(ctx, cfg):
    dom = DOMAINS[cfg["dom"]]
    a, b, _ = dom
    dens = {c: true_density("Legendre", dom, c) for c in itertools.product((-1.0, 0.0, 2.0), repeat=2)}
    for c, rho in dens.items():
        for name in ("Legendre", "Monomial", "Fourier"):
            base = basis_obj(name, 4, dom)
            m = quad(lambda x: base.eval_all(x) * rho(x)[:, None], a, b)
            cov = quad(lambda x: base.eval_all(x)[:, :, None] * base.eval_all(x)[:, None, :] * rho(x)[:, None, None], a, b)
            for fn, ref in ((sd.compute_exact_moments, m), (sd.compute_semiexact_moments, m), (sd.compute_exact_cov, cov), (sd.compute_semiexact_cov, cov)):
                g = fn(base, rho)
                require(g.shape == ref.shape and np.allclose(g, ref, atol=1e-6), lambda: "%s of %s basis, %s: %s instead of %s" % (
                    fn.__name__, name, dom, g.tolist(), ref.tolist()), fn.__name__)
                ctx.step()
    for c, e in itertools.product(dens, repeat=2):
        p, q = dens[c], dens[e]
        kl = quad(lambda x: p(x) * np.log(p(x) / q(x)), a, b)
        g = sd.KL_divergence(p, q, a, b)
        require(abs(g - max(kl, 0.0)) < 1e-6 * max(1, kl) and g >= 0, lambda: "KL divergence of %s and %s is %s instead of %s" % (c, e, g, kl), "KL divergence")
        l2 = np.sqrt(quad(lambda x: (p(x) - q(x)) ** 2, a, b))
        g = sd.L2_distance(p, q, a, b)
        require(abs(g - l2) <= 1e-5 * max(1.0, l2), lambda: "L2 distance of %s and %s is %s instead of %s" % (c, e, g, l2), "L2 distance")
        ctx.step()
        ctx.state((cfg["dom"], c, e))
