"""C13: selections by all conditions up to a depth over all small sample sets, against boolean indexing."""
import itertools
import operator
import os
import numpy as np
from mc import qmodel as qm
from mc.engine import require
from mlmc.quantity.quantity import make_root_quantity
from mlmc.quantity.quantity_estimate import estimate_mean
from mlmc.quantity.quantity_spec import QuantitySpec
from mlmc.sample_storage import Memory
from mlmc.sample_storage_hdf import SampleStorageHDF

PROPERTY = "C13"
BOUNDS = {
    "quick": "all assignments of {below, at, above the threshold} to fine and coarse values of 2 components (vector conditions) and all 9 "
             "sign patterns of two quantities; all 6 comparisons with constants and quantities, all logical combinations of two conditions, "
             "several conditions at once, nested selections, derived expressions, NaN values; one chunk, many chunks and file storage",
    "thorough": "conditions combined three times",
}
ASSUMPTIONS = []
SPEC = [QuantitySpec("p", "m", (2, 1), [1.0], ["a"]), QuantitySpec("r", "m", (2, 1), [1.0], ["a"])]
COMP = [operator.lt, operator.le, operator.gt, operator.ge, operator.eq, operator.ne]
NAMES = ["<", "<=", ">", ">=", "==", "!="]


def arrays():
    """Level 0: 3^4 samples with all patterns of 4 values around 1; level 1: 3^8 patterns thinned to those of two components of one
    quantity in fine and coarse (3^4) combined with shifted patterns of the other quantity."""
    vals = [0.5, 1.0, 2.0]
    l0 = np.array(list(itertools.product(vals, repeat=4))).T[:, :, None]
    pats = list(itertools.product(vals, repeat=4))      # fine p0, p1, coarse p0, p1
    cols = []
    for i, (a, b, c, d) in enumerate(pats):
        for sh in (0, 1, 40):
            e, f, g, h = pats[(i * 7 + sh) % len(pats)]
            cols.append([[a, c], [b, d], [e, g], [f, h]])
    l1 = np.array(cols).transpose((1, 0, 2))
    # a unique tag: tiny perturbation of the values that are not equal to 1 keeps the comparisons
    for x in (l0, l1):
        x += np.where(x == 1.0, 0.0, 1e-6 * np.arange(x.shape[1])[None, :, None])
    l1[0, 5, 1] = np.nan
    l1[3, 7, 0] = np.nan
    l0[1, 4, 0] = np.inf
    return [l0, l1]


def configs(tier):
    cs = []
    for kind in ("memory", "chunked", "hdf"):
        for cond in range(6):
            cs.append({"kind": kind, "cond": cond, "tier": tier})
        cs.append({"kind": kind, "cond": "refuse"})
        cs.append({"kind": kind, "cond": "estimate"})
    return cs


def make(ctx, kind):
    st = Memory() if kind == "memory" else qm.Chunked((1, 2, 30)) if kind == "chunked" else SampleStorageHDF(os.path.join(ctx.scratch(), "s.h5"))
    st.save_global_data(level_parameters=qm.params(2), result_format=SPEC)
    a = arrays()
    qm.fill(st, a)
    return st, a


def leaf(r, which):
    e = qm.item(qm.item(qm.item(r, "p"), 1.0), "a")
    f = qm.item(qm.item(qm.item(r, "r"), 1.0), "a")
    return e, f


def conditions(r, k):
    """Elementary conditions of one comparison"""
    e, f = leaf(r, 0)
    op, nm = COMP[k], NAMES[k]
    out = [qm.compare(op, e, 1.0, "p %s 1" % nm), qm.compare(op, f, 1, "r %s 1" % nm), qm.compare(op, e, f, "p %s r" % nm),
           qm.compare(op, qm.item(e, 0), 1.0, "p[0] %s 1" % nm), qm.compare(op, qm.item(f, (1, 0)), qm.item(e, (0, 0)), "r[1] %s p[0]" % nm),
           qm.compare(op, 1.0, e, "1 %s p" % nm), qm.compare(op, e, np.array([[1.0], [0.75]]), "p %s [1, .75]" % nm),
           qm.compare(op, qm.item(r, "p"), qm.item(r, "r"), "root.p %s root.r" % nm),
           qm.compare(op, r, 1.0, "root %s 1" % nm),
           qm.compare(op, qm.arith(operator.add, e, f, "p + r"), 2.0, "p + r %s 2" % nm),
           qm.compare(op, qm.ufunc(np.abs, [e], "abs(p)"), 1.0, "abs(p) %s 1" % nm)]
    return out


def verify(ctx, e, st, arr):
    with np.errstate(all="ignore"):
        for l in (0, 1):
            parts = []
            want = e.f(arr[l])
            for ch in st.chunks(level_id=l):
                got = np.asarray(e.q.samples(ch))
                w = e.f(arr[l][:, ch.chunk_slice])
                require(qm.same(got, w, 1e-11), lambda: "%s, level %d chunk %s: %d samples instead of %d: %s" % (
                    e.text, l, ch.chunk_slice, got.shape[1], w.shape[1], got.tolist()[:1]), "selection")
                parts.append(got)
                ctx.step()
            require(qm.same(np.concatenate(parts, axis=1), want, 1e-11), e.text, "selection of level")
    ctx.state((ctx.config["kind"], e.text))


def run(ctx):
    cfg = ctx.config
    st, arr = make(ctx, cfg["kind"])
    r = qm.root(st, SPEC)
    e, f = leaf(r, 0)
    if cfg["cond"] == "refuse":
        return refuse(ctx, st, arr, r, e, f)
    if cfg["cond"] == "estimate":
        return estimate(ctx, st, arr, r, e, f)
    mine = conditions(r, cfg["cond"])
    others = [c for k in range(6) for c in conditions(r, k)[:3]]
    for c in mine:
        for x in (e, f, r, qm.item(e, 0), qm.arith(operator.mul, f, 3.0, "r * 3")):
            verify(ctx, qm.select(x, [c], "%s.select(%s)" % (x.text, c.text)), st, arr)
        nc = qm.logical(np.logical_not, [c], "not " + c.text)
        verify(ctx, qm.select(e, [nc], "p.select(%s)" % nc.text), st, arr)
        for d in others:
            both = qm.select(e, [c, d], "p.select(%s, %s)" % (c.text, d.text))
            verify(ctx, both, st, arr)
            for s, fn in (("and", np.logical_and), ("or", np.logical_or), ("xor", np.logical_xor)):
                m = qm.logical(fn, [c, d], "%s(%s, %s)" % (s, c.text, d.text))
                verify(ctx, qm.select(e, [m], "p.select(%s)" % m.text), st, arr)
                for c3 in others if cfg["tier"] == "thorough" else others[:3]:
                    m3 = qm.logical(np.logical_and, [m, c3], "and(%s, %s)" % (m.text, c3.text))
                    verify(ctx, qm.select(f, [m3], "r.select(%s)" % m3.text), st, arr)
            three = qm.select(f, [c, d, nc], "r.select(%s, %s, %s)" % (c.text, d.text, nc.text))
            verify(ctx, three, st, arr)
        # nested selection: the second condition is stated on the selected quantity
        sel = qm.select(e, [c], "p.select(%s)" % c.text)
        for k2 in range(6):
            op = COMP[k2]
            inner = op(sel.q, 1.0)
            direct = qm.select(e, [c, qm.compare(op, e, 1.0, "p %s 1" % NAMES[k2])], "conjunction")
            nested = qm.E(sel.q.select(inner), sel.t, direct.f, "%s.select(%s 1)" % (sel.text, NAMES[k2]))
            verify(ctx, nested, st, arr)
            # expressions over the selected quantity
            y = qm.E(np.sin(nested.q), None, lambda x, g=direct.f: np.sin(g(x)), "sin(%s)" % nested.text)
            verify(ctx, y, st, arr)
            z = qm.E(nested.q[0], None, lambda x, g=direct.f: g(x)[:1], "%s[0]" % nested.text)
            verify(ctx, z, st, arr)
        # two selections of different quantities by one condition, used after each other
        verify(ctx, sel, st, arr)
        verify(ctx, e, st, arr)


def refused(fn):
    try:
        fn()
    except Exception:
        return True
    return False


def refuse(ctx, st, arr, r, e, f):
    c = qm.compare(operator.gt, e, 0.75, "p > .75")
    d = qm.compare(operator.gt, f, 0.75, "r > .75")
    other, _ = make(ctx, ctx.config["kind"])
    r2 = qm.root(other, SPEC)
    e2, f2 = leaf(r2, 0)
    c2 = qm.compare(operator.gt, e2, 0.75, "p > .75 of another storage")
    s1, s2 = e.q.select(c.q), e.q.select(d.q)
    cases = {
        "select by a scalar quantity": lambda: e.q.select(f.q),
        "select by an arithmetic expression": lambda: e.q.select(e.q + 1),
        "select by a numpy function": lambda: e.q.select(np.sin(e.q)),
        "second condition is not boolean": lambda: e.q.select(c.q, f.q),
        "first condition is not boolean": lambda: e.q.select(f.q, c.q),
        "condition of another storage": lambda: e.q.select(c2.q),
        "second condition of another storage": lambda: e.q.select(c.q, c2.q),
        "condition of a selected quantity": lambda: e.q.select(s1 > 1.0),
        "unselected condition on a selected quantity": lambda: s1.select(d.q),
        "condition of another selection": lambda: s1.select(s2 > 1.0),
        "sum of different selections": lambda: s1 + s2,
        "sum of selected and unselected": lambda: s1 + e.q,
        "comparison of different selections": lambda: s1 < s2,
        "sum of two storages": lambda: e.q + e2.q,
        "comparison of two storages": lambda: e.q < e2.q,
        "numpy function of two storages": lambda: np.add(e.q, e2.q),
    }
    for name, fn in cases.items():
        require(refused(fn), name + " accepted", "not refused: " + name)
        ctx.step()
        ctx.state((ctx.config["kind"], name))
    # and the legitimate ones are accepted
    verify(ctx, qm.select(e, [c], "p.select"), st, arr)
    s = (s1 + 1.0).select(s1 > 1.0)
    w = qm.select(e, [c, qm.compare(operator.gt, e, 1.0, "p > 1")], "")
    verify(ctx, qm.E(s, None, lambda x: w.f(x) + 1.0, "(s1 + 1).select(s1 > 1)"), st, arr)


def estimate(ctx, st, arr, r, e, f):
    """The estimate of a selected quantity uses exactly the selected samples"""
    for k in range(6):
        for c in conditions(r, k):
            s = qm.select(e, [c], c.text)
            per = [s.f(a) for a in arr]
            keep = [~np.isnan(v).any(axis=(0, 2)) for v in per]
            if min(int(x.sum()) for x in keep) < 1:
                continue
            with np.errstate(all="ignore"):
                m = estimate_mean(s.q)
                want = 0
                for l, (v, kp) in enumerate(zip(per, keep)):
                    v = v[:, kp]
                    want = want + (v[..., 0] - v[..., 1] if l else v[..., 0]).mean(axis=1)
            require([int(x) for x in m.n_samples] == [int(x.sum()) for x in keep], lambda: "%s: %s samples" % (c.text, m.n_samples), "estimate count")
            require([int(x) for x in m.n_rm_samples] == [int((~x).sum()) for x in keep], lambda: "%s: %s removed" % (c.text, m.n_rm_samples), "estimate removed")
            require(np.allclose(np.ravel(m.mean), want, rtol=1e-9, equal_nan=True), lambda: "%s: %s instead of %s" % (c.text, m.mean, want), "estimate mean")
            ctx.step()
            ctx.state((ctx.config["kind"], c.text, "estimate"))
