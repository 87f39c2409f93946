"""C10: chunks of both storages for all numbers of samples around the chunk boundaries and all splits into appended batches."""
import os
import numpy as np
from mc.engine import require
from mc.sims import sid
from mlmc.quantity.quantity_spec import QuantitySpec
from mlmc.quantity.quantity import make_root_quantity
from mlmc.sample_storage import Memory
from mlmc.sample_storage_hdf import SampleStorageHDF

PROPERTY = "C10"
# result length -> number of samples in one HDF5 chunk (only used to choose where the boundaries are)
CHUNK = {1: 512, 12: 64, 48: 16, 256: 8, 512: 4, 1000: 2, 3000: 1}
BOUNDS = {
    "quick": "result lengths 1..3000 (file chunks of 512..1 samples); all numbers of samples 1..2c+2 for chunks c<=8 and all boundary "
             "cases c-1..c+1, 2c-1..2c+1 otherwise (one batch: also 3 to 101 chunks), appended in one batch or split in 2 (small chunks: also 3) batches at every "
             "position (small chunks) or at the boundaries, with and without reopening in between, 1-3 levels; first n samples for "
             "n in 0, 1, c-1, c, c+1, N-1, N, N+1, 2N",
    "thorough": "all splits in 3 batches up to 3c+2 samples for chunks <=8",
}
ASSUMPTIONS = ["every level asked for has at least one collected sample"]


def configs(tier):
    cs = []
    for m, c in CHUNK.items():
        if c <= 8:
            top = 3 * c + 2 if tier == "thorough" else 2 * c + 2
            ns = list(range(1, top + 1))
        else:
            ns = [1, 2, c - 1, c, c + 1, 2 * c - 1, 2 * c, 2 * c + 1]
        for n in ns:
            cs.append({"m": m, "n": n, "parts": 1, "levels": 3})
            if n <= 3 and c <= 8:
                cs.append({"m": m, "n": n, "parts": 1, "levels": 12})
            cs.append({"m": m, "n": n, "parts": 2, "levels": 1})
            if n > 2 and (c <= 4 or (tier == "thorough" and c <= 8)):
                cs.append({"m": m, "n": n, "parts": 3, "levels": 2})
        # many chunks
        for n in (3 * c - 1, 3 * c, 3 * c + 1, 5 * c + 1) + ((11 * c + 1, 101 * c + 1) if c <= 8 else ()):
            if n not in ns:
                cs.append({"m": m, "n": n, "parts": 1, "levels": 1 if n > 100 else 2})
    return cs


def val(level, k, m, part):
    if part == 1 and level == 0:
        return np.zeros(m)
    return (np.arange(m) + 1.0) / 3.0 + 1e4 * k + 1e9 * level + 0.25 * part


def run(ctx):
    cfg = ctx.config
    m, n, L = cfg["m"], cfg["n"], cfg["levels"]
    c = CHUNK[m]
    # positions of the splits
    cuts = []
    if cfg["parts"] > 1:
        opts = list(range(1, n)) if c <= 8 else sorted({x for x in (1, 2, c - 1, c, c + 1, n - 1) if 0 < x < n})
        last = 0
        for _ in range(cfg["parts"] - 1):
            o = [x for x in opts if x > last]
            if not o:
                break
            last = ctx.pick(o, "cut")
            cuts.append(last)
    reopen = bool(ctx.choose(2, "reopen")) if cuts else False
    path = os.path.join(ctx.scratch(), "s.h5")
    spec = [QuantitySpec("q", "m", (m, 1), [1.0], ["a1"])]
    storages = [Memory(), SampleStorageHDF(path)]
    for st in storages:
        st.save_global_data(level_parameters=[[1.0 / 2 ** l] for l in range(L)], result_format=spec)
    roots = [make_root_quantity(st, spec) for st in storages]
    quants = [root["q"][1.0]["a1"] for root in roots]
    backwards = bool(ctx.choose(2, "level order")) if L > 1 else False
    pos = 0
    want = {l: [] for l in range(L)}
    for end in cuts + [n]:
        batch = {}
        for l in range(L):
            # the other levels get their samples at once or shifted by one
            ks = range(pos, end) if l == 0 else (range(pos, end + l) if pos == 0 else range(pos + l, end + l))
            batch[l] = [(sid(l, k), (val(l, k, m, 0), val(l, k, m, 1))) for k in ks]
            want[l] += [np.stack([val(l, k, m, p) for p in ((0,) if l == 0 else (0, 1))], axis=1) for k in ks]
        if reopen and pos:
            storages[1] = SampleStorageHDF(path)
            roots[1] = make_root_quantity(storages[1], spec)
            quants[1] = roots[1]["q"][1.0]["a1"]
        for st in storages:
            st.save_samples({l: list(batch[l]) for l in sorted(batch, reverse=backwards)}, {})
        pos = end
        ctx.step()
        for st, root, q in zip(storages, roots, quants):
            check(ctx, st, root, q, want, L, c)


def same(a, b):
    return a.shape == b.shape and np.ascontiguousarray(a).tobytes() == np.ascontiguousarray(b).tobytes()


def check(ctx, st, root, q, want, L, c):
    name = type(st).__name__
    full = {l: np.stack(want[l], axis=1) for l in want}
    require([int(x) for x in st.get_n_collected()] == [len(want[l]) for l in range(L)], "collected %s" % st.get_n_collected(),
            name + " collected")
    total = []
    for l in range(L):
        n = len(want[l])
        chunks = list(st.chunks(level_id=l))
        total += chunks
        last = 0
        for ch in chunks:
            require(int(ch.level_id) == l, lambda: "chunk %s of level %d" % (ch, l), name + " level of chunk")
            s = ch.chunk_slice
            require(s.start == last and s.step in (1, None) and s.stop > s.start,
                    lambda: "%s: chunks %s of %d samples" % (name, chunks, n), name + " contiguous")
            last = s.stop
        require(last == n, lambda: "%s: chunks %s of %d samples" % (name, chunks, n), name + " cover")
        require(len({ch.chunk_id for ch in chunks}) == len(chunks), "equal ids of chunks %s" % chunks, name + " chunk ids")
        ctx.state((name, n, [(ch.chunk_slice.start, ch.chunk_slice.stop) for ch in chunks]))
        for what, read in (("storage", st.sample_pairs_level), ("root", root.samples), ("quantity", q.samples)):
            parts = [np.asarray(read(ch)) for ch in chunks]
            for ch, p in zip(chunks, parts):
                require(same(p, full[l][:, ch.chunk_slice]), lambda: "%s: %s returns other samples of level %d for %s" % (name, what, l, ch),
                        name + " chunk values " + what)
            require(same(np.concatenate(parts, axis=1), full[l]), lambda: "%s: %s level %d" % (name, what, l), name + " values " + what)
        for k in sorted({0, 1, c - 1, c, c + 1, n - 1, n, n + 1, 2 * n}):
            first = list(st.chunks(level_id=l, n_samples=k))
            parts = [np.asarray(st.sample_pairs_level(ch)) for ch in first]
            got = np.concatenate(parts, axis=1) if parts else full[l][:, :0]
            require(same(got, full[l][:, :k]), lambda: "%s: first %d of %d samples of level %d are %s" % (name, k, n, l, got.shape),
                    name + " first samples")
            for ch, p in zip(first, parts):
                require(same(np.asarray(q.samples(ch)), p), lambda: "%s: quantity on the first %d" % (name, k), name + " first samples quantity")
    allc = list(st.chunks())
    require([(int(a.level_id), a.chunk_id, a.chunk_slice) for a in allc] == [(int(a.level_id), a.chunk_id, a.chunk_slice) for a in total],
            lambda: "%s: all levels %s" % (name, allc), name + " all levels")
    qst = q.get_quantity_storage()
    for l in [None] + list(range(L)):
        a, b = list(st.chunks(level_id=l)), list(qst.chunks(level_id=l))
        require([(int(x.level_id), x.chunk_id, x.chunk_slice) for x in a] == [(int(x.level_id), x.chunk_id, x.chunk_slice) for x in b],
                lambda: "%s: chunks %s of level %s, of the quantity %s" % (name, a, l, b), name + " chunks of the quantity")
    for k in (1, c):
        firsts = list(st.chunks(n_samples=k))
        require([int(a.level_id) for a in firsts] == sorted(int(a.level_id) for a in firsts), "level order", name + " level order")
        for l in range(L):
            got = np.concatenate([np.asarray(st.sample_pairs_level(ch)) for ch in firsts if int(ch.level_id) == l], axis=1)
            require(same(got, full[l][:, :k]), "first %d samples of every level" % k, name + " first of all")
    whole = st.sample_pairs()
    for l in range(L):
        require(same(np.asarray(whole[l]), full[l]), "level %d at once" % l, name + " at once")
