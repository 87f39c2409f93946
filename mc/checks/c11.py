"""C11: all quantity expressions up to a depth against numpy on the stored arrays."""
import operator
import os
import numpy as np
from mc import qmodel as qm
from mc.engine import require
from mlmc.quantity.quantity import Quantity
from mlmc.quantity.quantity_spec import QuantitySpec, ChunkSpec
from mlmc.sample_storage import Memory
from mlmc.sample_storage_hdf import SampleStorageHDF

PROPERTY = "C11"
BOUNDS = {
    "quick": "atoms: root, quantities, times, locations, array items; all unary expressions of depth 2 (arithmetic with constants on both "
             "sides, numpy functions, reductions, comparisons, array keys incl. slices, ellipsis, negative and list keys, interpolation), "
             "all binary operations on all pairs of expressions of equal layout of depth <=1, all assemblies into arrays, dictionaries, series and fields and "
             "items of them; 4 result formats; memory storage in one and in several chunks, file storage with several chunks",
    "thorough": "unary expressions of depth 3",
}
ASSUMPTIONS = ["operands of arithmetic operators have the same layout or are constants of that layout or scalars"]

SPECS = {
    "A": [("len", (2, 2), [1.0, 2.0, 4.0], ["a", "b"]), ("wid", (2, 2), [1.0, 2.0, 4.0], ["a", "b"])],
    "B": [("len", (3,), [0.5], ["x"])],
    "C": [("p", (1, 1), [2.0, 1.0], ["10"]), ("q", (2, 3), [2.0, 1.0], ["10"]), ("r", (1,), [2.0, 1.0], ["10"])],
    "D": [("big", (125, 2), [1.0, 3.0], ["a", "b"]), ("sml", (2, 2), [1.0, 3.0], ["a", "b"])],
}


def specs(name):
    return [QuantitySpec(n, "m", sh, list(t), list(loc)) for n, sh, t, loc in SPECS[name]]


def data(m, n, seed):
    """Deterministic values without zeros; distinct, both signs"""
    L = []
    for l, k in enumerate((n, n + 2)):
        p = 1 if l == 0 else 2
        a = np.arange(1, m * k * p + 1, dtype=float).reshape(m, k, p)
        L.append(np.where((a * 7 + seed) % 5 < 2, -1.0, 1.0) * (((a * 37 + 11 * seed) % 101) + 0.5) / 16.0)
    return L


ARITH = [("+", operator.add), ("-", operator.sub), ("*", operator.mul), ("/", operator.truediv), ("%", operator.mod)]
COMP = [("<", operator.lt), ("<=", operator.le), (">", operator.gt), (">=", operator.ge), ("==", operator.eq), ("!=", operator.ne)]
UFUNC = [("sin", np.sin), ("abs", np.abs), ("exp", np.exp), ("sqrt_abs", lambda x: np.sqrt(np.absolute(x))), ("negative", np.negative),
         ("square", np.square)]
UFUNC2 = [("power", np.power), ("maximum", np.maximum), ("arctan2", np.arctan2), ("add", np.add), ("subtract", np.subtract)]
REDUCE = [("max", np.max), ("sum", np.sum), ("min", np.min), ("prod", np.prod)]
BINU = [("add", np.add), ("divide", np.divide), ("minimum", np.minimum), ("hypot", np.hypot), ("subtract", np.subtract)]


def configs(tier):
    cs = []
    for s in SPECS:
        for storage in ("memory", "chunked", "hdf"):
            for what in ("unary", "binary", "assemble", "untouched"):
                if s == "D" and (what == "binary" or storage != "hdf"):
                    continue
                if s != "D" and storage == "hdf":
                    continue
                shards = {"unary": 8, "binary": 4, "assemble": 8, "untouched": 1}[what]
                for i in range(shards):
                    cs.append({"spec": s, "storage": storage, "what": what, "part": i, "of": shards,
                               "depth": 3 if tier == "thorough" and what == "unary" and s in "BC" else 2})
    return cs


def storage_of(ctx, name, kind):
    sp = specs(name)
    if kind == "memory":
        st = Memory()
    elif kind == "chunked":
        st = qm.Chunked((2, 1))
    else:
        st = SampleStorageHDF(os.path.join(ctx.scratch(), "s.h5"))
    st.save_global_data(level_parameters=qm.params(2), result_format=sp)
    arrays = data(qm.size(qm.spec_type(sp)), 5, len(name))
    qm.fill(st, arrays)
    return st, sp, arrays


def items(e):
    """All item accesses of an expression"""
    t = e.t
    out = []
    if t is None or t[0] == "s":
        return out
    if t[0] == "arr":
        sh = t[1]
        keys = [0, -1, slice(0, 1), slice(None, None, 2), Ellipsis, slice(None), (Ellipsis, 0), (Ellipsis, slice(None, None, -1))]
        if len(sh) == 2:
            keys += [(0, 0), (sh[0] - 1, sh[1] - 1), (slice(None), 0), (slice(0, 1), slice(None)), (0, slice(1, None)), (Ellipsis, -1), (-1, Ellipsis),
                     (slice(0, 1), -1)]
        else:
            keys += [slice(1, None), slice(None, None, -1), (0,)]
        keys += [[0, sh[0] - 1]]
        for k in keys:
            if np.empty(sh)[k].size == 0:
                continue
            out.append(lambda k=k: qm.item(e, k))
    elif t[0] == "dict":
        out += [lambda k=k: qm.item(e, k) for k, _ in t[1]]
    else:
        out += [lambda k=k: qm.item(e, k) for k in t[1]]
        if t[0] == "ts" and len(t[1]) > 1:
            lo, hi = min(t[1]), max(t[1])
            ts = sorted(t[1])
            for tau in (lo, hi, lo + 0.25 * (ts[1] - lo), (ts[-2] + hi) / 2):
                out.append(lambda tau=tau: qm.interp(e, tau))
    return out


def unary(e, full=True):
    """All unary expressions over e as thunks"""
    out = list(items(e))
    if e.t is None:
        return out
    consts = [2, -0.75]
    n = qm.size(e.t)
    arr = np.arange(1, n + 1) / 2.0
    if e.t[0] == "arr" and e.t[2] == qm.S:
        consts.append(arr.reshape(e.t[1]))
        consts.append(arr.reshape(e.t[1]).tolist())
    elif full:
        consts.append(arr)
    for s, op in ARITH:
        for c in consts:
            out.append(lambda op=op, c=c, s=s: qm.arith(op, e, c, "(%s %s %s)" % (e.text, s, c)))
            if not isinstance(c, list):
                out.append(lambda op=op, c=c, s=s: qm.arith(op, c, e, "(%s %s %s)" % (c, s, e.text)) if not isinstance(c, np.ndarray)
                           else qm.ufunc(op, [c, e], "(%s %s %s)" % (c, s, e.text)))
    for s, op in COMP:
        for c in consts[:1] + ([0.5, consts[-1]] if full else []):
            out.append(lambda op=op, c=c, s=s: qm.compare(op, e, c, "(%s %s %s)" % (e.text, s, c)))
        out.append(lambda op=op, s=s: qm.compare(op, 0, e, "(0 %s %s)" % (s, e.text)))
    for s, fn in UFUNC:
        out.append(lambda fn=fn, s=s: qm.ufunc(fn, [e], "%s(%s)" % (s, e.text)))
    for s, fn in UFUNC2:
        out.append(lambda fn=fn, s=s: qm.ufunc(fn, [e, 2], "%s(%s, 2)" % (s, e.text)))
        if full:
            out.append(lambda fn=fn, s=s: qm.ufunc(fn, [1.5, e], "%s(1.5, %s)" % (s, e.text)))
    for s, fn in REDUCE:
        out.append(lambda fn=fn, s=s: qm.reduction(fn, e, "%s(%s)" % (s, e.text)))
    return out


def atoms(r):
    out = [r]
    k = 0
    while k < len(out) and len(out) < 14:
        e = out[k]
        k += 1
        if e.t[0] in ("dict", "ts", "fld"):
            keys = [x for x, _ in e.t[1]] if e.t[0] == "dict" else list(e.t[1])
            if e.t[0] != "dict":
                keys = keys[:1] + keys[-1:] if len(keys) > 1 else keys
            out += [qm.item(e, x) for x in keys]
    # one complete path down to array items
    e = r
    while e.t[0] != "arr":
        e = qm.item(e, e.t[1][-1][0] if e.t[0] == "dict" else e.t[1][-1])
    out.append(e)
    if len(e.t[1]) == 2:
        out += [qm.item(e, (0, 0)), qm.item(e, 0), qm.item(e, (slice(None), -1))]
    else:
        out += [qm.item(e, 0), qm.item(e, slice(1, None)) if e.t[1][0] > 1 else e]
    return out


def verify(ctx, e, st, arrays, tol=None):
    with np.errstate(all="ignore"):
        return _verify(ctx, e, st, arrays, tol)


def _verify(ctx, e, st, arrays, tol):
    # numpy's vectorised functions may differ in the last bit for differently aligned arrays
    tol = 1e-11 if tol is None else tol
    for l in range(len(arrays)):
        want = e.f(arrays[l])
        for ch in st.chunks(level_id=l):
            got = np.asarray(e.q.samples(ch))
            w = want[ch.chunk_slice] if want.ndim == 1 else want[:, ch.chunk_slice]
            require(qm.same(got, w, tol), lambda: "%s on level %d, chunk %s: %s instead of %s" % (e.text, l, ch.chunk_slice, got.tolist(), w.tolist()),
                    "value")
            ctx.step()
    if e.t is not None:
        require(int(e.q.size()) == qm.size(e.t), lambda: "%s has size %s instead of %d" % (e.text, e.q.size(), qm.size(e.t)), "size")
    ctx.state((ctx.config["spec"], ctx.config["storage"], e.text))


def raw(st, L):
    return [np.concatenate([np.array(st.sample_pairs_level(c)) for c in st.chunks(level_id=l)], axis=1) for l in range(L)]


def build(thunk, what):
    with np.errstate(all="ignore"):
        return thunk()


def run(ctx):
    cfg = ctx.config
    st, sp, arrays = storage_of(ctx, cfg["spec"], cfg["storage"])
    r = qm.root(st, sp)
    {"unary": do_unary, "binary": do_binary, "assemble": do_assemble, "untouched": do_untouched}[cfg["what"]](ctx, st, sp, arrays, r)
    for got, want in zip(raw(st, 2), arrays):
        require(qm.same(got, want), "stored data changed by evaluation", "stored data")


def do_unary(ctx, st, sp, arrays, r):
    cfg = ctx.config
    at = atoms(r)
    light = cfg["spec"] == "D"
    mine = []
    for e in at:
        mine.append((e, None))
        for th in unary(e):
            mine.append((e, th))
    for i, (e, th) in enumerate(mine):
        if i % cfg["of"] != cfg["part"]:
            continue
        x = e if th is None else build(th, e.text)
        verify(ctx, x, st, arrays)
        if th is None or x.t is None or light:
            continue
        for th2 in unary(x, full=False):
            y = build(th2, x.text)
            verify(ctx, y, st, arrays)
            if cfg["depth"] > 2 and y.t is not None and i % 3 == 0:
                for th3 in unary(y, full=False):
                    verify(ctx, build(th3, y.text), st, arrays)
        verify(ctx, x, st, arrays)      # still the same after expressions were built from it


def pool(r):
    """Expressions of depth <= 1 usable in binary operations"""
    out = list(atoms(r))
    for e in list(out):
        out.append(qm.arith(operator.mul, e, 2, "(%s * 2)" % e.text))
        out.append(qm.ufunc(np.sin, [e], "sin(%s)" % e.text))
    return out


def do_binary(ctx, st, sp, arrays, r):
    cfg = ctx.config
    es = pool(r)
    i = 0
    for a in es:
        for b in es:
            i += 1
            if i % cfg["of"] != cfg["part"] or qm.size(a.t) != qm.size(b.t):
                continue
            made = []
            if a.t == b.t:
                for s, op in ARITH:
                    made.append(lambda op=op, s=s: qm.arith(op, a, b, "(%s %s %s)" % (a.text, s, b.text)))
            for s, fn in BINU:
                made.append(lambda fn=fn, s=s: qm.ufunc(fn, [a, b], "%s(%s, %s)" % (s, a.text, b.text)))
            comps = [lambda op=op, s=s: qm.compare(op, a, b, "(%s %s %s)" % (a.text, s, b.text)) for s, op in COMP]
            for th in made + comps:
                verify(ctx, build(th, a.text), st, arrays)
            c1 = qm.compare(operator.lt, a, 1.0, "(%s < 1)" % a.text)
            c2 = qm.compare(operator.ge, b, -1.0, "(%s >= -1)" % b.text)
            for s, fn, args in (("and", np.logical_and, [c1, c2]), ("or", np.logical_or, [c1, c2]), ("xor", np.logical_xor, [c1, c2]),
                                ("not", np.logical_not, [c1])):
                verify(ctx, qm.logical(fn, args, "%s(%s)" % (s, ", ".join(x.text for x in args))), st, arrays)
            verify(ctx, a, st, arrays)
            verify(ctx, b, st, arrays)


def do_assemble(ctx, st, sp, arrays, r):
    at = atoms(r)
    light = ctx.config["spec"] == "D"
    if light:
        at = at[1:3] + at[7:]
    at += [qm.arith(operator.add, e, 1, "(%s + 1)" % e.text) for e in at]
    for i, a in enumerate(at):
        if i % ctx.config["of"] != ctx.config["part"]:
            continue
        same = [e for e in at if e.t == a.t][:1 if light else 4]
        made = []
        for b in same:
            txt = (a.text, b.text)
            if a.q.qtype is not b.q.qtype:
                try:
                    Quantity.QField([("l1", a.q), ("l2", b.q)])
                except ValueError:
                    continue        # quantities with separately declared types are refused
            made += [qm.qarray([a, b], (2,), "QArray[%s, %s]" % txt), qm.qarray([a, b], (2, 1), "QArray[[%s], [%s]]" % txt),
                     qm.qarray([a, b], (1, 2), "QArray[[%s, %s]]" % txt), qm.qarray([a, b, a, b], (2, 2), "QArray2x2[%s, %s]" % txt),
                     qm.qseries([(0.0, a), (2.0, b)], "QTimeSeries(%s, %s)" % txt),
                     qm.qseries([(3, a), (1, b), (2, a)], "QTimeSeries3(%s, %s)" % txt),
                     qm.qfield([("l1", a), ("l2", b)], "QField(%s, %s)" % txt)]
        for b in at[:1 if light else 6]:
            made.append(qm.qdict([("k1", a), ("k2", b), ("k3", a)], "QDict(%s, %s)" % (a.text, b.text)))
        for x in made:
            verify(ctx, x, st, arrays)
            for th in items(x)[:4 if light else None]:
                y = build(th, x.text)
                verify(ctx, y, st, arrays)
                if light or y.t[0] == "s" or len(y.text) > 160:
                    continue
                for th2 in items(y)[:9]:
                    verify(ctx, build(th2, y.text), st, arrays)
            verify(ctx, qm.ufunc(np.sin, [x], "sin(%s)" % x.text), st, arrays)
            verify(ctx, qm.arith(operator.sub, x, 1, "(%s - 1)" % x.text), st, arrays)
    # constants combine before they meet a quantity
    for i, a in enumerate(at):
        if i % ctx.config["of"] != ctx.config["part"]:
            continue
        n = qm.size(a.t)
        c = Quantity.wrap(list(np.arange(1.0, n + 1)))
        for s, op in ARITH:
            k = op(c, 2)
            e = qm.E(op(a.q, k), a.t, lambda x, op=op: op(a.f(x), op(qm.const(np.arange(1.0, n + 1)), 2)), "(%s %s (const %s 2))" % (a.text, s, s))
            verify(ctx, e, st, arrays)
            k = op(2, c)
            e = qm.E(op(a.q, k), a.t, lambda x, op=op: op(a.f(x), op(2, qm.const(np.arange(1.0, n + 1)))), "(%s %s (2 %s const))" % (a.text, s, s))
            verify(ctx, e, st, arrays)


def do_untouched(ctx, st, sp, arrays, r):
    """Samples and the expressions built earlier stay unchanged whatever is built and evaluated later; nothing aliases the storage."""
    at = atoms(r)
    made = list(at)
    for e in at:
        for th in unary(e):
            made.append(build(th, e.text))
    for x in made:
        verify(ctx, x, st, arrays)
    for x in reversed(made):
        verify(ctx, x, st, arrays)
    types = [qm.size(x.t) if x.t is not None else None for x in made]
    for x, n in zip(made, types):
        if n is not None:
            require(int(x.q.size()) == n, "size of %s changed" % x.text, "size changed")
