"""C12: all histories of creating, evaluating, discarding and re-creating quantities and appending samples."""
import operator
import os
import numpy as np
from mc import qmodel as qm
from mc.engine import require
from mlmc.quantity.quantity_spec import QuantitySpec
from mlmc.quantity.quantity_estimate import estimate_mean
from mlmc.sample_storage import Memory
from mlmc.sample_storage_hdf import SampleStorageHDF

PROPERTY = "C12"
BOUNDS = {
    "quick": "all histories of 6 operations (chunked 5, file storage 4) from {create one of 5 expressions over storage A or B in one of two "
             "slots, discard it, evaluate all chunks, evaluate the first 3 samples, estimate the mean, derive the second slot from the first, "
             "append samples to A or B} that end with an evaluation; memory storage in one chunk and in chunks, file storage",
    "thorough": "one operation more",
}
ASSUMPTIONS = ["stored samples are only appended, never overwritten"]
SPEC = [QuantitySpec("q", "m", (2, 1), [1.0], ["a"]), QuantitySpec("w", "m", (2, 1), [1.0], ["a"])]
EXPR = ["item", "scaled", "sin", "selected", "assembled"]
N0 = 2


def configs(tier):
    d = 1 if tier == "thorough" else 0
    cs = []
    for kind, depth in (("memory", 6 + d), ("chunked", 5 + d), ("hdf", 4 + d)):
        for first in EXPR:
            for k in range(10):
                cs.append({"kind": kind, "first": first, "depth": depth, "shard": [k, 10]})
    return cs


def make(ctx, kind, tag):
    if kind == "memory":
        st = Memory()
    elif kind == "chunked":
        st = qm.Chunked((2,))
    else:
        st = SampleStorageHDF(os.path.join(ctx.scratch(), tag + ".h5"))
    st.save_global_data(level_parameters=qm.params(2), result_format=SPEC)
    return st


class Src:
    def __init__(self, ctx, kind, tag):
        self.st = make(ctx, kind, tag)
        self.tag = tag
        self.n = [0, 0]
        self.append(N0)

    def append(self, k):
        new = []
        for l in (0, 1):
            p = 1 if l == 0 else 2
            idx = np.arange(self.n[l], self.n[l] + k)
            a = (idx[None, :, None] * 10.0 + np.arange(4)[:, None, None] + 0.25 * np.arange(p)[None, None, :] + 1000.0 * l
                 + (50000.0 if self.tag == "B" else 0.0))
            new.append(a)
        qm.fill(self.st, new, start=self.n)
        self.n = [x + k for x in self.n]
        self.arrays = new if not hasattr(self, "arrays") else [np.concatenate([o, n], axis=1) for o, n in zip(self.arrays, new)]


def create(src, kind, serial):
    r = qm.root(src.st, SPEC)
    e = qm.item(r, "q")
    if kind == "item":
        return e
    if kind == "scaled":
        return qm.arith(operator.mul, e, 1.0 + serial, "q * %d" % (1 + serial))
    if kind == "sin":
        return qm.ufunc(np.sin, [qm.item(r, "w")], "sin(w)")
    if kind == "selected":
        c = qm.compare(operator.gt, e, 50010.0 if src.tag == "B" else 5.0, "cond")
        return qm.select(e, [c], "q.select")
    w = qm.item(r, "w")
    return qm.qarray([qm.item(e, 1.0)] * 2, (2,), "QArray") if serial % 2 else qm.item(qm.item(w, 1.0), "a")


def evaluate(ctx, e, src, first=None):
    for l in (0, 1):
        full = src.arrays[l]
        chunks = list(src.st.chunks(level_id=l, n_samples=first)) if first else list(src.st.chunks(level_id=l))
        for ch in chunks:
            want = e.f(full[:, ch.chunk_slice])
            got = np.asarray(e.q.samples(ch))
            require(qm.same(got, want, 1e-11), lambda: "%s of storage %s: level %d chunk %s gives %s instead of %s" % (
                e.text, src.tag, l, ch, got.tolist(), want.tolist()), "samples")
            ctx.step()


def mean(ctx, e, src):
    m = estimate_mean(e.q)
    total = 0
    for l in (0, 1):
        v = e.f(src.arrays[l])
        d = v[..., 0] - v[..., 1] if l else v[..., 0]
        require(int(m.n_samples[l]) == d.shape[1], lambda: "%d samples of %d" % (m.n_samples[l], d.shape[1]), "mean count")
        total = total + d.mean(axis=1)
    require(np.allclose(np.ravel(m.mean), total, rtol=1e-9, equal_nan=True), lambda: "%s: mean %s instead of %s" % (e.text, m.mean, total), "mean")
    ctx.step()


def run(ctx):
    cfg = ctx.config
    srcs = {"A": Src(ctx, cfg["kind"], "A"), "B": Src(ctx, cfg["kind"], "B")}
    slots = [None, None]
    serial = 0
    slots[0] = (create(srcs["A"], cfg["first"], serial), "A")
    hist = ["new0A" + cfg["first"]]
    evals = 0
    for i in range(1, cfg["depth"]):
        ops = []
        last = i == cfg["depth"] - 1
        for s in (0, 1):
            if slots[s] is not None:
                ops += [("eval", s), ("mean", s)]
                if s == 0:
                    ops.append(("first", s))
        if not last:
            for s in (0, 1):
                if slots[s] is not None:
                    ops.append(("drop", s))
                elif s == 1 or hist[-1].startswith("drop") or slots[1] is not None:
                    ops += [("new", s, x, k) for x in "AB" for k in (EXPR if i < 4 else EXPR[:3])]
            if slots[0] is not None and slots[1] is None:
                ops.append(("derive", 1))
            ops += [("append", "A")] + ([("append", "B")] if any(s and s[1] == "B" for s in slots) else [])
            # do not repeat what cannot matter
            ops = [o for o in ops if not (hist[-1] == str(o) and o[0] in ("append", "mean"))]
            if i == 1:
                ops = [o for o in ops if o[0] != "drop"]
        if not ops:
            return
        if i == 2:
            ops = ops[cfg["shard"][0]::cfg["shard"][1]]
            if not ops:
                return
        o = ctx.pick(ops, "op")
        hist.append(o[0] if o[0] in ("drop",) else str(o))
        if o[0] == "new":
            serial += 1
            slots[o[1]] = (create(srcs[o[2]], o[3], serial), o[2])
        elif o[0] == "derive":
            serial += 1
            e, tag = slots[0]
            slots[1] = (qm.arith(operator.add, e, 3.0 * serial, "%s + %d" % (e.text, 3 * serial)), tag)
        elif o[0] == "drop":
            slots[o[1]] = None
            e = None
        elif o[0] == "append":
            srcs[o[1]].append(1 if len(hist) % 2 else 2)
        else:
            e, tag = slots[o[1]]
            if o[0] == "eval":
                evaluate(ctx, e, srcs[tag])
            elif o[0] == "first":
                evaluate(ctx, e, srcs[tag], first=3)
            else:
                mean(ctx, e, srcs[tag])
            evals += 1
            del e
        ctx.state((cfg["kind"], hist, [srcs[x].n for x in "AB"]))
