"""C14: the mean estimate for all small level configurations, chunkings and NaN patterns against the textbook formulas."""
import itertools
import os
import numpy as np
from mc import qmodel as qm
from mc.engine import require
import mlmc.moments as mo
import mlmc.quantity.quantity_estimate as qe
from mlmc.estimator import Estimate
from mlmc.quantity.quantity import make_root_quantity, Quantity
from mlmc.quantity.quantity_spec import QuantitySpec
from mlmc.sample_storage import Memory
from mlmc.sample_storage_hdf import SampleStorageHDF

PROPERTY = "C14"
BOUNDS = {
    "quick": "1-3 levels with 1-4 samples each (all vectors), all chunkings into chunks of 1..4 samples, all NaN patterns over (sample, "
             "component, fine/coarse) with <=2 NaN; scalar, vector, matrix, series, field and dictionary layouts; moments and covariance of "
             "3 bases in both layouts; indexing of estimates by all keys; single cases up to 25 levels and 1100 samples",
    "thorough": "1-4 levels, up to 5 samples",
}
ASSUMPTIONS = ["every level keeps at least one sample without NaN; values are of moderate size (the variance formula is compared with a "
               "relative tolerance of 1e-8)"]
RICH = [QuantitySpec("len", "m", (2, 2), [1.0, 2.0], ["a", "b"]), QuantitySpec("wid", "m", (3, 1), [1.0, 2.0], ["a", "b"])]
PLAIN = [QuantitySpec("q", "m", (2, 1), [1.0], ["a"])]


def configs(tier):
    cs = []
    top, L = (5, 4) if tier == "thorough" else (4, 3)
    for levels in range(1, L + 1):
        for counts in itertools.product(range(1, top + 1), repeat=levels):
            if levels == 4 and max(counts) > 3:
                continue
            cs.append({"kind": "counts", "counts": list(counts)})
    for counts in ([1], [3], [1, 1], [2, 3], [3, 2], [2, 2, 2], [1, 3, 2]):
        cs.append({"kind": "nan", "counts": list(counts)})
    for counts in ([5, 4], [4, 3, 2], [6]):
        for chunk in (1, 2, 3, 10):
            for layout in ("scalar", "array", "location", "series", "quantity", "root"):
                cs.append({"kind": "moments", "counts": counts, "chunk": chunk, "layout": layout})
                cs.append({"kind": "index", "counts": counts, "chunk": chunk, "layout": layout})
            for layout in ("arrays", "arrays 2x2", "dictionaries"):
                cs.append({"kind": "index", "counts": counts, "chunk": chunk, "layout": layout})
    for counts in ([14 - l for l in range(12)], [1100, 257], [3] * 25, [70, 130, 33, 64]):
        for chunk in (None, 1, 7, 64):
            cs.append({"kind": "many", "counts": counts, "chunk": chunk})
    cs.append({"kind": "hdf", "counts": [9, 7], "m": 512})
    cs.append({"kind": "hdf", "counts": [5, 5, 3], "m": 1000})
    cs.append({"kind": "hdf", "counts": [1030, 600], "m": 1})
    return cs


def data(m, counts, salt=0):
    out = []
    for l, n in enumerate(counts):
        p = 1 if l == 0 else 2
        a = np.arange(m * n * p).reshape(m, n, p)
        fine = np.sin(1.7 * a + l + 0.3 * salt) * 3.0 + 1.5
        if p == 2:
            fine[..., 1] = fine[..., 0] * 0.75 + 0.1 * np.cos(2.3 * a[..., 1])
        out.append(fine)
    return out


def store(ctx, spec, arrays, sizes=None, hdf=False):
    st = SampleStorageHDF(os.path.join(ctx.scratch(), "s.h5")) if hdf else Memory() if sizes is None else qm.Chunked(sizes)
    st.save_global_data(level_parameters=qm.params(len(arrays)), result_format=spec)
    qm.fill(st, arrays)
    return st


def formulas(per_level):
    """per_level: value arrays [m, n, p] of the quantity; returns dict of the estimates"""
    lm, lv, ns, nr = [], [], [], []
    for l, v in enumerate(per_level):
        bad = np.isnan(v).any(axis=(0, 2))
        v = v[:, ~bad]
        d = v[..., 0] if l == 0 else v[..., 0] - v[..., 1]
        ns.append(d.shape[1])
        nr.append(int(bad.sum()))
        with np.errstate(all="ignore"):
            lm.append(d.mean(axis=1))
            lv.append(d.var(axis=1, ddof=1) if d.shape[1] > 1 else np.full(d.shape[0], np.inf))
    lm, lv = np.array(lm), np.array(lv)
    return {"mean": lm.sum(axis=0), "var": (lv / np.array(ns)[:, None]).sum(axis=0), "l_means": lm, "l_vars": lv, "n": ns, "rm": nr}


def close(a, b, scale=1.0):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-8, atol=1e-9 * scale)


def compare(ctx, m, want, shape, what):
    L = len(want["n"])
    require([int(x) for x in m.n_samples] == want["n"], lambda: "%s: counts %s instead of %s" % (what, m.n_samples, want["n"]), "n_samples")
    require([int(x) for x in m.n_rm_samples] == want["rm"], lambda: "%s: removed %s instead of %s" % (what, m.n_rm_samples, want["rm"]), "n_rm_samples")
    for name, got in (("mean", m.mean), ("var", m.var), ("l_means", m.l_means), ("l_vars", m.l_vars)):
        w = want[name]
        w = w.reshape((L,) + shape) if name.startswith("l_") else w.reshape(shape)
        g = np.asarray(got, dtype=float)
        if g.shape != w.shape and shape in ((), (1,)):
            g = g.reshape(w.shape)      # scalars may be delivered with or without the unit dimension
        require(close(g, w, scale=10.0), lambda: "%s: %s %s instead of %s" % (what, name, g.tolist(), w.tolist()), name)
        ctx.step()


def run(ctx):
    cfg = ctx.config
    {"counts": counts, "nan": nans, "moments": moments, "index": index, "hdf": hdf, "many": many}[cfg["kind"]](ctx, cfg)


def counts(ctx, cfg):
    arrays = data(2, cfg["counts"], salt=ctx.choose(2, "values"))
    size = ctx.pick([None, (1,), (2,), (3,), (1, 2), (2, 1), (1, 3), (3, 1)], "chunks")
    st = store(ctx, PLAIN, arrays, size)
    r = make_root_quantity(st, PLAIN)
    want = formulas(arrays)
    compare(ctx, qe.estimate_mean(r), want, (2,), "root")
    compare(ctx, qe.estimate_mean(r["q"][1.0]["a"]), want, (2, 1), "array")
    compare(ctx, qe.estimate_mean(r["q"][1.0]["a"][1, 0]), formulas([a[1:] for a in arrays]), (), "component")
    ctx.state((cfg["counts"], size, arrays))
    # the estimates follow the unit of the quantity (powers of two scale exactly)
    m = qe.estimate_mean(r)
    for k in (2.0 ** -40, 2.0 ** 30):
        for what, e in (("quantity times", r * k), ("samples times", make_root_quantity(store(ctx, PLAIN, [a * k for a in arrays], size), PLAIN))):
            g = qe.estimate_mean(e)
            for name, f in (("mean", k), ("l_means", k), ("var", k * k), ("l_vars", k * k)):
                a, b = np.asarray(getattr(g, name)), np.asarray(getattr(m, name)) * f
                require(np.allclose(a, b, rtol=1e-9, atol=1e-10 * f), lambda: "%s of the %s %g is %s instead of %s" % (name, what, k, a.tolist(), b.tolist()),
                        "scale " + name)


def many(ctx, cfg):
    """Many samples and levels, NaN in some of them"""
    for step in (0, 2, 5, 11):
        arrays = data(2, cfg["counts"])
        for l, a in enumerate(arrays):
            if step and a.shape[1] > step:
                a[l % 2, 1::step, l % a.shape[2]] = np.nan
        st = store(ctx, PLAIN, arrays, cfg["chunk"] and (cfg["chunk"],))
        r = make_root_quantity(st, PLAIN)
        compare(ctx, qe.estimate_mean(r), formulas(arrays), (2,), "root, %d levels" % len(arrays))
        q = r["q"][1.0]["a"]
        compare(ctx, qe.estimate_mean(q[1, 0]), formulas([a[1:] for a in arrays]), (), "component, %d levels" % len(arrays))
        sel = [a[:, np.nan_to_num(a[0], nan=-9.0).min(axis=1) > 0.5] for a in arrays]
        if min(a.shape[1] for a in sel) > 0 and min(formulas([a[1:]])["n"][0] for a in sel) > 0:
            compare(ctx, qe.estimate_mean(q[1, 0].select(q[0, 0] > 0.5)), formulas([a[1:] for a in sel]), (), "selected, %d levels" % len(arrays))
        ctx.state(("many", cfg["counts"], cfg["chunk"], step))


def nans(ctx, cfg):
    arrays = data(2, cfg["counts"])
    cells = [(l, i, j, k) for l, a in enumerate(arrays) for i in range(2) for j in range(a.shape[1]) for k in range(a.shape[2])]
    put = []
    for _ in range(2):
        c = ctx.choose(len(cells) + 1, "nan")
        if c == 0:
            break
        if put and c - 1 <= put[-1]:
            return
        put.append(c - 1)
    for c in put:
        l, i, j, k = cells[c]
        arrays[l][i, j, k] = np.nan
    want = formulas(arrays)
    if min(want["n"]) == 0:
        return
    size = ctx.pick([None, (1,), (2,)], "chunks")
    st = store(ctx, PLAIN, arrays, size)
    r = make_root_quantity(st, PLAIN)
    m = qe.estimate_mean(r)
    compare(ctx, m, want, (2,), "root")
    # items of an estimate use the samples of the estimate
    for got, sl, shape, what in ((m["q"], slice(None), (2,), "['q']"), (m["q"][1.0]["a"], slice(None), (2, 1), "['q'][1.0]['a']"),
                                 (m["q"][1.0]["a"][0, 0], slice(0, 1), (), "['q'][1.0]['a'][0, 0]")):
        compare(ctx, got, {"n": want["n"], "rm": want["rm"], "mean": want["mean"][sl], "var": want["var"][sl], "l_means": want["l_means"][:, sl],
                           "l_vars": want["l_vars"][:, sl]}, shape, "estimate" + what)
    # a single component is affected by its own NaN only
    for comp in (0, 1):
        w = formulas([a[comp:comp + 1] for a in arrays])
        compare(ctx, qe.estimate_mean(r["q"][1.0]["a"][comp, 0]), w, (), "component %d" % comp)
    # arithmetic keeps the NaN pattern
    compare(ctx, qe.estimate_mean(r * 2 + 1), formulas([2 * a + 1 for a in arrays]), (2,), "2 r + 1")
    ctx.state((cfg["counts"], size, put))


def quantity_of(r, layout):
    e = r
    if layout == "root":
        return e
    if layout in ("arrays", "arrays 2x2", "dictionaries"):
        at = lambda q, t, x: qm.item(qm.item(qm.item(r, q), t), x)
        if layout == "arrays":
            return qm.qarray([at("len", 1.0, "a"), at("len", 2.0, "a"), at("len", 2.0, "b")], (3,), "QArray3")
        a, b = at("len", 1.0, "a"), at("len", 2.0, "b")
        if layout == "arrays 2x2":
            return qm.qarray([a, b, a, b], (2, 2), "QArray2x2")
        return qm.qdict([("x", qm.qarray([b, a], (2, 1), "QArray2x1")), ("y", at("wid", 1.0, "b")), ("z", a)], "QDict")
    e = qm.item(e, "len")
    if layout == "quantity":
        return e
    if layout == "series":
        return qm.interp(qm.item(r, "wid"), 1.25)
    e = qm.item(qm.item(e, 2.0), "b") if layout != "location" else qm.item(e, 1.0)
    if layout in ("array", "location"):
        return e
    return qm.item(e, (1, 0))


def shape_of(t):
    return t[1] if t[0] == "arr" and t[2] == qm.S else (qm.size(t),)


BASES = [("Legendre", lambda: mo.Legendre(4, (-6.0, 8.0))), ("Monomial", lambda: mo.Monomial(3, (-6.0, 8.0))),
         ("narrow Legendre", lambda: mo.Legendre(3, (-1.0, 4.2))), ("Fourier", lambda: mo.Fourier(5, (-6.0, 8.0))),
         ("unsafe Legendre", lambda: mo.Legendre(3, (0.0, 2.0), safe_eval=False))]


def basis_values(name, v):
    """Closed form values, shape v.shape + (R,)"""
    n = 4 if name == "Legendre" else 5 if name == "Fourier" else 3
    lo, hi = {"narrow Legendre": (-1.0, 4.2), "unsafe Legendre": (0.0, 2.0)}.get(name, (-6.0, 8.0))
    t = (v - lo) / (hi - lo)
    if name == "Monomial":
        return np.stack([t ** k for k in range(n)], axis=-1)
    if name == "Fourier":
        x = 2 * np.pi * t
        return np.stack([np.ones_like(x), np.cos(x), np.sin(x), np.cos(2 * x), np.sin(2 * x)], axis=-1)
    x = 2 * t - 1
    if name == "narrow Legendre":
        x = np.where((t < 0) | (t > 1), np.nan, x)
    leg = [np.ones_like(x), x, (3 * x ** 2 - 1) / 2, (5 * x ** 3 - 3 * x) / 2][:n]
    out = np.stack(leg, axis=-1)
    out[np.isnan(x), :] = np.nan
    return out


def moments(ctx, cfg):
    arrays = data(2 * 2 * 4 + 2 * 2 * 3, cfg["counts"])
    st = store(ctx, RICH, arrays, (cfg["chunk"],))
    r = qm.root(st, RICH)
    e = quantity_of(r, cfg["layout"])
    m = qm.size(e.t)
    vals = [e.f(a) for a in arrays]
    tail = shape_of(e.t) if e.t != qm.S else ()
    for name, mk in BASES:
        fn = mk()
        R = fn.size
        bv = [basis_values(name, v) for v in vals]                  # [m, n, p, R]
        if min((~np.isnan(b).any(axis=(0, 2, 3))).sum() for b in bv) == 0:
            continue
        bottom = [b.transpose((0, 3, 1, 2)).reshape((-1,) + b.shape[1:3]) for b in bv]
        top = [b.transpose((3, 0, 1, 2)).reshape((-1,) + b.shape[1:3]) for b in bv]
        flat = lambda x: np.asarray(x).reshape(-1)
        for at_bottom, ref in ((True, bottom), (False, top)):
            got = qe.estimate_mean(qe.moments(e.q, fn, mom_at_bottom=at_bottom))
            raw(ctx, got, formulas(ref), "moments of %s %s, bottom=%s" % (e.text, name, at_bottom))
        for i in range(R):
            got = qe.estimate_mean(qe.moment(e.q, fn, i))
            w = [b[..., i] for b in bv]
            if i == 0:
                w = [np.ones_like(b[..., 0]) if name == "Monomial" else b[..., 0] for b in bv]
            raw(ctx, got, formulas(w), "moment %d of %s %s" % (i, e.text, name))
        prod = [np.einsum("mnpi,mnpj->mnpij", b, b) for b in bv]
        cb = [x.transpose((0, 3, 4, 1, 2)).reshape((-1,) + x.shape[1:3]) for x in prod]
        ct = [x.transpose((3, 4, 0, 1, 2)).reshape((-1,) + x.shape[1:3]) for x in prod]
        for at_bottom, ref in ((True, cb), (False, ct)):
            got = qe.estimate_mean(qe.covariance(e.q, fn, cov_at_bottom=at_bottom))
            raw(ctx, got, formulas(ref), "covariance of %s %s, bottom=%s" % (e.text, name, at_bottom))
        if e.t == qm.S:
            est = Estimate(e.q, st, fn)
            w = formulas(bottom)
            mean, var = est.estimate_moments()
            require(close(flat(mean), w["mean"], 10) and close(flat(var), w["var"], 10), lambda: "Estimate.estimate_moments %s %s" % (mean, var), "estimate_moments")
            dv, n = est.estimate_diff_vars(fn)
            require(close(np.asarray(dv).reshape(w["l_vars"].shape), w["l_vars"], 10) and [int(x) for x in n] == w["n"],
                    "Estimate.estimate_diff_vars", "estimate_diff_vars")
            cov, cvar = est.estimate_covariance()
            w = formulas(cb)
            require(close(np.asarray(cov), w["mean"].reshape(R, R), 10) and close(np.asarray(cvar), w["var"].reshape(R, R), 10),
                    lambda: "Estimate.estimate_covariance %s" % cov, "estimate_covariance")
        ctx.state((cfg["counts"], cfg["chunk"], cfg["layout"], name))


def raw(ctx, got, want, what):
    """Compare regardless of the final reshaping of the estimate"""
    L = len(want["n"])
    require([int(x) for x in got.n_samples] == want["n"], lambda: "%s: counts %s instead of %s" % (what, got.n_samples, want["n"]), "moments n_samples")
    require([int(x) for x in got.n_rm_samples] == want["rm"], lambda: "%s: removed %s instead of %s" % (what, got.n_rm_samples, want["rm"]), "moments n_rm_samples")
    for name in ("mean", "var", "l_means", "l_vars"):
        g = np.asarray(getattr(got, name), dtype=float)
        w = want[name]
        require(close(g.reshape(w.shape) if g.size == w.size else g, w, 10.0), lambda: "%s: %s %s instead of %s" % (what, name, g.tolist(), w.tolist()),
                "moments " + name)
        ctx.step()


def index(ctx, cfg):
    arrays = data(2 * 2 * 4 + 2 * 2 * 3, cfg["counts"])
    st = store(ctx, RICH, arrays, (cfg["chunk"],))
    r = qm.root(st, RICH)
    e = quantity_of(r, cfg["layout"])
    m = qe.estimate_mean(e.q)
    walk(ctx, e, m, arrays, 0)
    # moments on the surface and underneath
    if e.t[0] == "arr" and e.t[2] == qm.S:
        fn = mo.Legendre(3, (-6.0, 8.0))
        vals = [basis_values("Legendre", e.f(a))[..., :3] for a in arrays]
        mb = qe.estimate_mean(qe.moments(e.q, fn))
        n = len(e.t[1])
        for pos in itertools.product(*[range(k) for k in e.t[1]]):
            i = int(np.ravel_multi_index(pos, e.t[1]))
            w = formulas([v[i].transpose((2, 0, 1)) for v in vals])
            raw(ctx, mb[pos] if n > 1 else mb[pos[0]], w, "moments of the component %s" % (pos,))
        mt = qe.estimate_mean(qe.moments(e.q, fn, mom_at_bottom=False))
        for k in range(3):
            w = formulas([v[..., k] for v in vals])
            raw(ctx, mt[k], w, "moment %d of all components" % k)


def walk(ctx, e, m, arrays, depth):
    from mc.checks.c11 import items
    want = formulas([e.f(a) for a in arrays])
    raw(ctx, m, want, "estimate of " + e.text)
    t = e.t
    if t[0] == "s" or depth > 3:
        return
    if t[0] == "arr":
        keys = [0, -1, slice(0, 1), slice(None)]
        if len(t[1]) == 2:
            keys += [(0, 0), (1, t[1][1] - 1), (0, -1), (slice(None), 0), (slice(0, 1), slice(None)), (1, slice(None)), (slice(None, None, -1), 0)]
    elif t[0] == "dict":
        keys = [k for k, _ in t[1]]
    else:
        keys = list(t[1])
    for k in keys:
        ctx.step()
        try:
            if t[0] == "arr":
                np.empty(t[1])[k]
        except IndexError:
            continue
        sub = qm.item(e, k)
        got = m[k]
        w = formulas([sub.f(a) for a in arrays])
        raw(ctx, got, w, "estimate(%s)[%r]" % (e.text, k))
        direct = qe.estimate_mean(sub.q)
        for name in ("mean", "var", "l_means", "l_vars"):
            a, b = np.asarray(getattr(got, name)), np.asarray(getattr(direct, name))
            require(a.shape == b.shape and np.allclose(a, b, rtol=1e-12), lambda: "%s of estimate(%s)[%r] is %s, of the item %s" % (
                name, e.text, k, a.tolist(), b.tolist()), "index " + name)
        ctx.state((ctx.config["counts"], sub.text))
        walk(ctx, sub, got, arrays, depth + 1)


def hdf(ctx, cfg):
    spec = [QuantitySpec("q", "m", (cfg["m"], 1), [1.0], ["a"])]
    arrays = data(cfg["m"], cfg["counts"])
    st = store(ctx, spec, arrays, hdf=True)
    r = make_root_quantity(st, spec)
    compare(ctx, qe.estimate_mean(r), formulas(arrays), (cfg["m"],), "root of the file storage")
    compare(ctx, qe.estimate_mean(np.sin(r)), formulas([np.sin(a) for a in arrays]), (cfg["m"],), "sin(root) of the file storage")
    arrays[0][0, 3, 0] = np.nan
    arrays[1][0, 2, 1] = np.nan
    st = store(ctx, spec, arrays, hdf=True)
    compare(ctx, qe.estimate_mean(make_root_quantity(st, spec)), formulas(arrays), (cfg["m"],), "root of the file storage with NaN")
    ctx.state((cfg["counts"], cfg["m"]))
