"""C15: moment bases over all kinds, sizes, domains and options of a grid against closed forms."""
import itertools
import numpy as np
from mc.engine import require
import mlmc.moments as mo

PROPERTY = "C15"
BOUNDS = {
    "quick": "Legendre, monomial and Fourier bases of all sizes 1-10, 10 linear and 5 logarithmic domains, default and 2 other reference "
             "domains, safe and unsafe evaluation; 25 values inside (ends included), values outside and NaN, in 0-3 dimensional arrays; all "
             "single moments, all prefixes, all changes of size; derivatives of degree 1-3; transformed bases by 4 matrices",
    "thorough": "sizes 1-25",
}
ASSUMPTIONS = ["the first moment outside of the domain is not specified"]
DOMAINS = [(0.0, 1.0), (-1.0, 1.0), (0.1, 0.7), (-3.0, 5.0), (1e-8, 2e-8), (-1e6, 3.0), (2.0, 2.5), (100.0, 1e5), (-300.0, -200.0), (1.7, 9.3)]
LOGDOM = [(0.01, 100.0), (1.0, 2.718281828459045), (1e-6, 3e-6), (0.5, 7.0), (0.3, 0.9)]
REFS = [None, (0.0, 1.0), (-2.0, 3.0)]


def configs(tier):
    cs = []
    for basis in ("Legendre", "Monomial", "Fourier"):
        for log in (False, True):
            for d in (LOGDOM if log else DOMAINS):
                for ref in REFS:
                    cs.append({"basis": basis, "log": log, "domain": list(d), "ref": list(ref) if ref else None,
                               "max": 25 if tier == "thorough" else 10})
    return cs


def closed(basis, t, n):
    """First n functions of the basis at t, by explicit formulas; shape t.shape + (n,)"""
    t = np.asarray(t, dtype=float)
    if basis == "Monomial":
        cols = []
        p = np.ones_like(t)
        for k in range(n):
            cols.append(p)
            p = p * t
        return np.stack(cols, axis=-1)
    if basis == "Fourier":
        cols = [np.ones_like(t)]
        for k in range(1, n):
            h = (k + 1) // 2
            cols.append(np.cos(h * t) if k % 2 else np.sin(h * t))
        return np.stack(cols, axis=-1)
    cols = [np.ones_like(t), t]
    for k in range(1, n):
        cols.append(((2 * k + 1) * t * cols[k] - k * cols[k - 1]) / (k + 1))
    return np.stack(cols[:n], axis=-1)


def leg_der(t, n, degree):
    """Derivatives of Legendre polynomials through explicit monomial coefficients"""
    out = []
    for k in range(n):
        c = np.zeros(k + 1)
        for m in range(k // 2 + 1):
            num = 1
            from math import comb
            c[k - 2 * m] += (-1) ** m * comb(k, m) * comb(2 * k - 2 * m, k) / 2.0 ** k
        p = np.polynomial.Polynomial(c).deriv(degree)
        out.append(p(t))
    return np.stack(out, axis=-1)


def make(cfg, size, safe):
    cls = getattr(mo, cfg["basis"])
    kw = {"log": cfg["log"], "safe_eval": safe}
    if cfg["ref"] is not None:
        kw["ref_domain"] = tuple(cfg["ref"])
    return cls(size, tuple(cfg["domain"]), **kw)


def near(a, b, scale):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all((np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= 1e-9 * scale)))


def run(ctx):
    cfg = ctx.config
    n = 1 + ctx.choose(cfg["max"], "size")
    safe = bool(ctx.choose(2, "safe"))
    basis, (a, b) = cfg["basis"], cfg["domain"]
    ref = tuple(cfg["ref"]) if cfg["ref"] else {"Legendre": (-1.0, 1.0), "Monomial": (0.0, 1.0), "Fourier": (0.0, 2 * np.pi)}[basis]
    g = np.log if cfg["log"] else (lambda x: x)
    fn = make(cfg, n, safe)
    what = "%s(%d, %s, ref %s, log=%s, safe=%s)" % (basis, n, cfg["domain"], cfg["ref"], cfg["log"], safe)
    s = np.linspace(0, 1, 25)
    inside = np.exp(np.log(a) + s * (np.log(b) - np.log(a))) if cfg["log"] else a + s * (b - a)
    inside[0], inside[-1] = a, b
    width = b - a
    outside = np.array([a - 0.5 * width, b + 0.25 * width, a - 1e-3 * width, b + 1e-3 * width])
    if cfg["log"]:
        outside = np.array([a * 0.5, b * 1.5, a * 0.999, b * 1.001])
    tin = ref[0] + (g(inside) - g(a)) / (g(b) - g(a)) * (ref[1] - ref[0])
    tout = ref[0] + (g(outside) - g(a)) / (g(b) - g(a)) * (ref[1] - ref[0])
    want = closed(basis, tin, n)
    scale = 1.0 + np.abs(want).max() * (n * n + 1)
    got = fn.eval_all(inside)
    core = slice(None)
    require(near(got[core], want[core], scale), lambda: "%s: values %s instead of %s" % (what, got.tolist(), want.tolist()), "values")
    ends = [0, -1]
    for e in ends:
        g_end = fn.eval_all(np.array([inside[e]]))
        require(near(g_end[0], want[e], scale), lambda: "%s: at the end %s: %s instead of %s" % (
            what, inside[e], g_end, want[e]), "values at the ends")
    require(np.allclose(got[core][:, 0], 1.0), lambda: "%s: first moment %s" % (what, got[:, 0]), "first moment")
    # outside
    o = fn.eval_all(outside)
    if safe:
        require(o.shape == (4, n) and np.isnan(o[:, 1:]).all(), lambda: "%s: outside values %s" % (what, o.tolist()), "outside")
    else:
        wo = closed(basis, tout, n)
        require(near(o, wo, 1 + np.abs(wo).max() * (n * n + 1)), lambda: "%s: extrapolated %s instead of %s" % (what, o.tolist(), wo.tolist()), "extrapolation")
    nn = fn.eval_all(np.array([np.nan, inside[3]]))
    require(np.isnan(nn[0, 1:]).all() and near(nn[1], got[3], scale), "%s: NaN input gives %s" % (what, nn), "nan input")
    # one moment, a prefix, all, in any shape
    cube = inside[:24].reshape(2, 4, 3)
    mixed = np.concatenate([inside[:23], outside[:1]]).reshape(4, 3, 2)
    for vals in (inside, cube[0], cube, mixed, inside[:1]):
        full = fn.eval_all(vals)
        require(full.shape == vals.shape + (n,), lambda: "%s: shape %s for values of shape %s" % (what, full.shape, vals.shape), "shape")
        flat = fn.eval_all(vals.ravel())
        require(near(full.reshape(flat.shape), flat, 0), "%s: values depend on the shape" % what, "shape values")
        require(near(fn(vals), full, 0), "%s: call" % what, "call")
        for k in range(n):
            pre = fn.eval_all(vals, size=k + 1)
            require(near(pre[..., 1:], full[..., 1:k + 1], scale) and pre.shape == vals.shape + (k + 1,), lambda: "%s: prefix %d %s of %s" % (what, k + 1, pre, full), "prefix")
            one = fn.eval_single_moment(k, vals)
            ok = np.broadcast_to(True, vals.shape) if k else (vals > a) & (vals < b)
            require(np.shape(one) == vals.shape and near(np.where(ok, one, 0), np.where(ok, full[..., k], 0), scale),
                    lambda: "%s: single moment %d %s instead of %s" % (what, k, one, full[..., k]), "eval_single_moment")
            e = np.asarray(fn.eval(k, vals), dtype=float)
            require(np.shape(e) == vals.shape and near(np.where(ok, e, 0), np.where(ok, full[..., k], 0), scale),
                    lambda: "%s: eval(%d) %s instead of %s" % (what, k, e, full[..., k]), "eval")
            ctx.step()
    require(near(fn.eval_all(float(inside[5]))[0], got[5], 0), "%s: scalar value" % what, "scalar")
    # the map and its inverse
    back = fn.inv_transform(fn.transform(inside[core]))
    require(np.allclose(back, inside[core], rtol=1e-9, atol=1e-12 * max(abs(a), abs(b))), lambda: "%s: inverse of the map %s of %s" % (what, back, inside), "inverse")
    tt = np.linspace(ref[0], ref[1], 9)[1:-1]
    fwd = fn.transform(fn.inv_transform(tt))
    require(np.allclose(fwd, tt, rtol=1e-7, atol=1e-7), lambda: "%s: map of the inverse %s of %s" % (what, fwd, tt), "map of inverse")
    # change of size
    for k in {1, 2, n - 1, n, n + 1, 2 * n} - {0}:
        other = fn.change_size(k)
        fresh = make(cfg, k, safe)
        require(other.size == k and type(other) is type(fn) and tuple(other.domain) == tuple(fn.domain), "%s: change_size(%d)" % (what, k), "change_size")
        for vals in (inside, outside):
            require(near(other.eval_all(vals), fresh.eval_all(vals), 0), lambda: "%s: change_size(%d) gives other values" % (what, k), "change_size values")
        require(fn.size == n and near(fn.eval_all(inside), got, 0), "%s changed by change_size" % what, "change_size original")
    if basis == "Legendre":
        derivatives(ctx, fn, what, inside, cube, n, ref, tin)
    transformed(ctx, fn, what, inside, outside, n, got, safe, basis, ref, tin)
    ctx.state((what,))


def derivatives(ctx, fn, what, inside, cube, n, ref, tin):
    n = min(n, 15)      # explicit coefficients lose precision beyond
    core = slice(None)
    for size in range(1, n + 1):
        for degree in (1, 2, 3):
            want = leg_der(tin, size, degree)
            sc = 1 + np.abs(want).max() * 100
            d = fn.eval_all_der(inside, size=size, degree=degree)
            require(near(d[core], want[core], sc), lambda: "%s: derivative %d of %d moments %s instead of %s" % (what, degree, size, d, want), "derivative")
            dd = None
            if degree == 1:
                dd = fn.eval_diff(inside, size=size)
            elif degree == 2:
                dd = fn.eval_diff2(inside, size=size)
            if dd is not None:
                require(near(dd[core], want[core], sc), lambda: "%s: eval_diff %d of %d moments %s instead of %s" % (what, degree, size, dd, want), "eval_diff")
            ctx.step()
    d = fn.eval_all_der(cube)
    require(near(d.reshape(24, -1), fn.eval_all_der(cube.ravel()), 0), "%s: derivative depends on the shape" % what, "derivative shape")


def matrices(n):
    low = np.tril(np.arange(1, n * n + 1).reshape(n, n) % 7 - 3.0)
    low[0, 0] = 1.0
    out = [np.eye(n), low]
    if n > 1:
        cut = low[: n - 1].copy()
        out.append(cut)
        rev = np.eye(n)[::-1].copy()
        rev[0] = 0
        rev[0, 0] = 1
        out.append(rev)
    return out


def transformed(ctx, fn, what, inside, outside, n, got, safe, basis, ref, tin):
    core = slice(None)
    for mat in matrices(n):
        tm = mo.TransformedMoments(fn, mat.copy())
        k = mat.shape[0]
        require(tm.size == k and tuple(tm.domain) == tuple(fn.domain), "%s: transformed size" % what, "transformed size")
        want = got @ mat.T
        sc = 1 + np.nanmax(np.abs(want)) * n
        full = tm.eval_all(inside)
        require(near(full[core], want[core], sc), lambda: "%s transformed: %s instead of %s" % (what, full, want), "transformed values")
        for j in range(k):
            require(near(tm.eval_all(inside, size=j + 1)[core], want[core, :j + 1], sc), "transformed prefix", "transformed prefix")
            require(near(tm.eval_single_moment(j, inside)[core], want[core, j], sc), "transformed single", "transformed single")
            require(near(tm.eval(j, inside)[core], want[core, j], sc), "transformed eval", "transformed eval")
        cube = inside[:24].reshape(2, 4, 3)
        require(near(tm.eval_all(cube).reshape(24, k), tm.eval_all(cube.ravel()), sc), "transformed shape", "transformed shape")
        if safe and n > 1:
            o = tm.eval_all(outside)
            require(np.isnan(o[:, 1:]).all(), lambda: "%s transformed outside: %s" % (what, o), "transformed outside")
        if basis == "Legendre" and n <= 15:
            for degree, f in ((1, tm.eval_diff), (2, tm.eval_diff2)):
                w = leg_der(tin, n, degree) @ mat.T
                sd = 1 + np.abs(w).max() * 100
                require(near(f(inside)[core], w[core], sd), "transformed derivative", "transformed eval_diff")
                require(near(tm.eval_all_der(inside, degree=degree)[core], w[core], sd), "transformed derivative", "transformed eval_all_der")
        ctx.step()
