"""Reference semantics of quantities: a plain structural type plus a numpy function on the stored [M, N, 1 or 2] arrays."""
import numpy as np
from mc.sims import sid
from mlmc.quantity.quantity_spec import QuantitySpec
from mlmc.quantity.quantity import make_root_quantity, Quantity
from mlmc.sample_storage import Memory

S = ("s",)


def size(t):
    if t[0] == "s":
        return 1
    if t[0] == "dict":
        return sum(size(x) for _, x in t[1])
    if t[0] == "arr":
        return int(np.prod(t[1])) * size(t[2])
    return len(t[1]) * size(t[2])


class E:
    """Expression: real quantity, structural type and reference function of the stored level array."""
    def __init__(self, q, t, f, text, mask=False):
        self.q, self.t, self.f, self.text, self.mask = q, t, f, text, mask


def spec_type(specs):
    return ("dict", [(s.name, ("ts", list(s.times), ("fld", list(s.locations), ("arr", tuple(s.shape), S)))) for s in specs])


def root(storage, specs, text="root"):
    return E(make_root_quantity(storage, specs), spec_type(specs), lambda x: x, text)


def item(e, key):
    """e[key] in the reference semantics and on the real quantity"""
    t = e.t
    if t[0] == "arr":
        shape, inner = t[1], t[2]
        new = np.empty(shape)[key].shape
        if new in ((), (1,)):
            nt = inner
        else:
            nt = ("arr", new, inner)
        w = size(inner)

        def f(x):
            v = e.f(x)
            idx = np.arange(int(np.prod(shape))).reshape(shape)[key].ravel()
            return np.concatenate([v[i * w:(i + 1) * w] for i in idx], axis=0)
    else:
        if t[0] == "dict":
            start = 0
            for k, x in t[1]:
                if k == key:
                    nt = x
                    break
                start += size(x)
        else:
            nt = t[2]
            start = list(t[1]).index(key) * size(nt)
        end = start + size(nt)

        def f(x):
            return e.f(x)[start:end]
    return E(e.q[key], nt, f, "%s[%r]" % (e.text, key))


def interp(e, tau):
    times, inner = e.t[1], e.t[2]
    w = size(inner)

    def f(x):
        v = e.f(x)
        order = np.argsort(times)
        ts = np.array(times)[order]
        parts = [v[i * w:(i + 1) * w] for i in order]
        k = int(np.clip(np.searchsorted(ts, tau) - 1, 0, len(ts) - 2))
        a = (tau - ts[k]) / (ts[k + 1] - ts[k])
        return parts[k] + a * (parts[k + 1] - parts[k])
    return E(e.q.time_interpolation(tau), inner, f, "%s.time_interpolation(%r)" % (e.text, tau))


def ufunc(fn, args, text):
    """numpy function of expressions (at least one) and constants; the layout is flattened"""
    q = fn(*[a.q if isinstance(a, E) else a for a in args])

    def f(x):
        return fn(*[a.f(x) if isinstance(a, E) else const(a) for a in args])
    mask = any(isinstance(a, E) and a.mask for a in args)
    n = max([size(a.t) for a in args if isinstance(a, E)] + [int(np.prod(np.shape(a))) for a in args if not isinstance(a, E)])
    return E(q, ("arr", (n,), S), f, text, mask)


def reduction(fn, e, text):
    q = fn(e.q, axis=0, keepdims=True)
    return E(q, ("arr", (1,), S), lambda x: fn(e.f(x), axis=0, keepdims=True), text)


def const(a):
    if np.ndim(a) == 0:
        return a
    return np.asarray(a).reshape(-1)[:, None, None]


def arith(fn, a, b, text):
    """Python operator; keeps the type of the quantity operand"""
    q = fn(a.q if isinstance(a, E) else a, b.q if isinstance(b, E) else b)
    t = (a if isinstance(a, E) else b).t

    def f(x):
        return fn(a.f(x) if isinstance(a, E) else const(a), b.f(x) if isinstance(b, E) else const(b))
    return E(q, t, f, text)


def compare(fn, a, b, text):
    q = fn(a.q if isinstance(a, E) else a, b.q if isinstance(b, E) else b)

    def f(x):
        m = fn(a.f(x) if isinstance(a, E) else const(a), b.f(x) if isinstance(b, E) else const(b))
        return m.all(axis=(0, 2))
    return E(q, None, f, text, mask=True)


def logical(fn, args, text):
    q = fn(*[a.q if isinstance(a, E) else a for a in args])
    return E(q, None, lambda x: fn(*[a.f(x) if isinstance(a, E) else a for a in args]), text, mask=True)


def select(e, conds, text):
    q = e.q.select(*[c.q for c in conds])

    def f(x):
        m = np.ones(x.shape[1], dtype=bool)
        for c in conds:
            m = m & c.f(x)
        return e.f(x)[:, m, :]
    return E(q, e.t, f, text)


def qarray(es, shape, text):
    arr = np.empty(len(es), dtype=object)
    arr[:] = [e.q for e in es]
    q = Quantity.QArray(arr.reshape(shape).tolist())
    return E(q, ("arr", tuple(shape), es[0].t), lambda x: np.concatenate([e.f(x) for e in es], axis=0), text)


def qdict(items, text):
    q = Quantity.QDict([(k, e.q) for k, e in items])
    return E(q, ("dict", [(k, e.t) for k, e in items]), lambda x: np.concatenate([e.f(x) for _, e in items], axis=0), text)


def qseries(items, text):
    q = Quantity.QTimeSeries([(k, e.q) for k, e in items])
    return E(q, ("ts", [k for k, _ in items], items[0][1].t), lambda x: np.concatenate([e.f(x) for _, e in items], axis=0), text)


def qfield(items, text):
    q = Quantity.QField([(k, e.q) for k, e in items])
    return E(q, ("fld", [k for k, _ in items], items[0][1].t), lambda x: np.concatenate([e.f(x) for _, e in items], axis=0), text)


def fill(storage, arrays, start=None, batches=None):
    """Store arrays[l] of shape [M, N, 1 or 2]"""
    for l, a in enumerate(arrays):
        n0 = start[l] if start else 0
        items = []
        for i in range(a.shape[1]):
            fine = a[:, i, 0].copy()
            coarse = a[:, i, 1].copy() if a.shape[2] > 1 else np.zeros_like(fine)
            items.append((sid(l, n0 + i), (fine, coarse)))
        for part in (batches or [slice(None)]):
            if items[part]:
                storage.save_samples({l: items[part]}, {})


class Chunked(Memory):
    """Memory storage delivering its samples in chunks of the given sizes (the last size repeats)."""
    def __init__(self, sizes=(2,)):
        super().__init__()
        self.sizes = list(sizes)

    def chunks(self, level_id=None, n_samples=None):
        from mlmc.quantity.quantity_spec import ChunkSpec
        for l in ([level_id] if level_id is not None else sorted(self.get_level_ids())):
            n = int(self.get_n_collected()[l])
            if n_samples is not None:
                n = min(n, n_samples)
            pos, i = 0, 0
            while pos < n:
                w = min(self.sizes[min(i, len(self.sizes) - 1)], n - pos)
                yield ChunkSpec(chunk_id=i, chunk_slice=slice(pos, pos + w, 1), level_id=l)
                pos += w
                i += 1


def params(L):
    return [[1.0 / 2 ** l] for l in range(L)]


def same(a, b, tol=0.0):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if tol == 0.0:
        return bool(np.array_equal(a, b) or np.array_equal(a, b, equal_nan=a.dtype.kind == "f"))
    return bool(np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True))


__all__ = [n for n in dir() if not n.startswith("_")]
