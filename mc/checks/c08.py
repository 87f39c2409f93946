"""C08: Memory and HDF storage against a reference ledger over all short histories of storage operations."""
import itertools
import os
import numpy as np
from mc.engine import require
from mc.sims import sid
from mlmc.quantity.quantity_spec import QuantitySpec
from mlmc.sample_storage import Memory
from mlmc.sample_storage_hdf import SampleStorageHDF

PROPERTY = "C08"
OPS = ["s0", "s1", "a", "b", "m", "f", "e", "n", "z"]
BOUNDS = {
    "quick": "all histories of <=4 operations from {schedule on level 0/1, save 1 success, save 2 successes on the last level, mixed "
             "successes and failures on all levels, failures only, empty batches, cost records, clear failed}, 1-3 levels (<=2 operations also 12 levels), results of "
             "1, 3 and 12 numbers incl. nan, inf, -0.0 and denormals; larger batches up to 300 samples",
    "thorough": "histories of <=5 operations",
}
ASSUMPTIONS = ["results are float64 vectors of the length given by the result format"]
SPECIAL = [np.nan, np.inf, -np.inf, -0.0, 5e-324, 1.7976931348623157e308, 0.1, 1 / 3, -1e-300, 2.0 ** 53 + 1]


def configs(tier):
    n = 5 if tier == "thorough" else 4
    cs = []
    for k in range(1, n + 1):
        for h in itertools.product(OPS, repeat=k):
            if any(a == b for a, b in zip(h, h[1:]) if a in "enz"):
                continue
            if k == 4 and n == 4 and not ({"a", "b", "m", "f"} & set(h)):
                continue
            cs.append({"h": list(h), "levels": 2, "len": 3 if k > 2 else 1})
            if k <= 2:
                for levels, ln in ((1, 1), (1, 12), (2, 12), (3, 3), (3, 1), (12, 1)):
                    cs.append({"h": list(h), "levels": levels, "len": ln})
    for big in (50, 64, 65, 300):
        for h in (["B", "a", "B"], ["s0", "B", "m", "f", "B", "n"]):
            for ln in (1, 12):
                cs.append({"h": h, "levels": 2, "len": ln, "big": big})
    return cs


class Ref:
    def __init__(self, levels):
        self.sched = [[] for _ in range(levels)]
        self.ok = [[] for _ in range(levels)]
        self.bad = [[] for _ in range(levels)]
        self.ops = [[0.0, 0.0] for _ in range(levels)]


def value(level, k, ln, part):
    v = np.array([(1000.0 * level + k + 0.5 * part) * (j + 1) / 7.0 for j in range(ln)])
    v[k % ln] = SPECIAL[(k + 3 * part) % len(SPECIAL)]
    if part == 1 and level == 0:
        v = np.zeros(ln)
    return v


def apply(op, ref, storages, cfg, counter):
    L, ln = cfg["levels"], cfg["len"]
    ok, bad, ops = {}, {}, None

    def new(l):
        counter[l] += 1
        return sid(l, counter[l] - 1), counter[l] - 1

    def good(l, m):
        for _ in range(m):
            s, k = new(l)
            ok.setdefault(l, []).append((s, (value(l, k, ln, 0), value(l, k, ln, 1))))

    def fail(l, m):
        for _ in range(m):
            s, k = new(l)
            bad.setdefault(l, []).append((s, "failure of %s" % s))
    if op in ("s0", "s1"):
        l = min(int(op[1]), L - 1)
        start = len(ref.sched[l])
        ids = [sid(l, start + i) for i in range(2 - int(op[1]))]
        ref.sched[l] += ids
        for st in storages:
            st.save_scheduled_samples(l, list(ids))
        return
    if op == "a":
        good(0, 1)
    elif op == "b":
        good(L - 1, 2)
    elif op == "m":
        for l in reversed(range(L)):
            good(l, 1 + l)
            fail(l, 1)
    elif op == "f":
        fail(0, 1)
        fail(L - 1, 1)
    elif op == "B":
        for l in range(L):
            good(l, cfg["big"] + l)
    elif op == "e":
        ok, bad = {L - 1: []}, {0: []}
        if counter[0] % 2:
            ok = {}
    elif op == "n":
        c = counter[0] + counter[L - 1] + 1
        ops = [(0, [c / 7.0, c])] + ([(L - 1, [0.5, 1])] if L > 1 else [])
        if L > 2:
            ops.append((1, [0.0, 0]))
    elif op == "z":
        for st in storages:
            if hasattr(st, "clear_failed"):
                st.clear_failed()
        ref.cleared = True
        ref.hdf_failed = [[] for _ in range(L)]
        return
    if ops is not None:
        for l, (t, m) in ops:
            ref.ops[l][0] += t
            ref.ops[l][1] += m
        for st in storages:
            st.save_n_ops([(l, list(x)) for l, x in ops])
        return
    for l, items in ok.items():
        ref.ok[l] += [(s, f.copy(), c.copy()) for s, (f, c) in items]
    for l, items in bad.items():
        ref.bad[l] += [s for s, _ in items]
        ref.hdf_failed[l] += [s for s, _ in items]
    for st in storages:
        o = {l: [(s, (f.copy(), c.copy())) for s, (f, c) in items] for l, items in ok.items()}
        b = {l: list(items) for l, items in bad.items()}
        if isinstance(st, Memory) and any(not v for v in o.values()):
            o = {l: v for l, v in o.items() if v}       # pools never report empty batches
        st.save_samples(o, b)
        for items in o.values():            # the caller may reuse its arrays
            for _, (f, c) in items:
                f[:] = 777.0
                c[:] = 778.0


def check(st, ref, cfg, params):
    L, ln = cfg["levels"], cfg["len"]
    name = type(st).__name__
    hdf = isinstance(st, SampleStorageHDF)
    require(st.get_n_levels() == L, "%s: %s levels" % (name, st.get_n_levels()), name + " levels")
    sched = st.load_scheduled_samples()
    for l in range(L):
        require(list(sched.get(l, [])) == ref.sched[l], lambda: "%s: scheduled %s instead of %s" % (name, sched, ref.sched), name + " scheduled")
    require(set(int(l) for l in sched) <= set(range(L)), "foreign level", name + " scheduled")
    fin = st.n_finished()
    col = st.get_n_collected()
    require(len(fin) == L and len(col) == L, "%s: counts %s %s for %d levels" % (name, fin, col, L), name + " counts")
    pairs = st.sample_pairs()
    require(len(pairs) == L, "pairs of %d levels" % len(pairs), name + " pairs")
    for l in range(L):
        nf = len(ref.hdf_failed[l]) if hdf else len(ref.bad[l])
        require(int(fin[l]) == len(ref.ok[l]) + nf, lambda: "%s: level %d finished %s, saved %d + %d" % (
            name, l, fin[l], len(ref.ok[l]), nf), name + " n_finished")
        require(int(col[l]) == len(ref.ok[l]), lambda: "%s: level %d collected %s of %d" % (name, l, col[l], len(ref.ok[l])), name + " n_collected")
        if not ref.ok[l]:
            require(len(pairs[l]) == 0, lambda: "%s: results of an empty level %s" % (name, pairs[l]), name + " empty")
            continue
        want = np.array([[f] if l == 0 else [f, c] for _, f, c in ref.ok[l]]).transpose((2, 0, 1))
        got = np.asarray(pairs[l])
        require(got.shape == want.shape and got.dtype == np.float64, lambda: "%s: level %d shape %s instead of %s" % (
            name, l, got.shape, want.shape), name + " shape")
        require(np.ascontiguousarray(got).tobytes() == np.ascontiguousarray(want).tobytes(),
                lambda: "%s: level %d values\n%s\ninstead of\n%s" % (name, l, got, want), name + " values")
        # reading by chunks gives the same
        parts = [st.sample_pairs_level(c) for c in st.chunks(level_id=l)]
        require(np.ascontiguousarray(np.concatenate(parts, axis=1)).tobytes() == np.ascontiguousarray(want).tobytes(),
                "%s: chunks of level %d differ" % (name, l), name + " chunks")
    n_ops = st.get_n_ops()
    for l in range(L):
        t, m = ref.ops[l]
        require(abs(float(n_ops[l]) - (t / m if m else 0.0)) <= 1e-12 * max(1, t), lambda: "%s: costs %s instead of %s" % (
            name, n_ops, ref.ops), name + " n_ops")
    require([list(np.atleast_1d(x)) for x in st.get_level_parameters()] == params, "level parameters", name + " parameters")
    if hdf:
        failed = st.failed_samples()
        for l in range(L):
            require(list(failed[str(l)]) == ref.hdf_failed[l], lambda: "failed %s instead of %s" % (failed, ref.hdf_failed), name + " failed")
        done = {s for l in range(L) for s in [x[0] for x in ref.ok[l]] + ref.hdf_failed[l]}
        unf = sorted(s for l in range(L) for s in ref.sched[l] if s not in done)
        require(sorted(st.unfinished_ids()) == unf, lambda: "unfinished %s instead of %s" % (sorted(st.unfinished_ids()), unf), name + " unfinished")
        require(sorted(st.get_level_ids()) == list(range(L)), "level ids", name + " level ids")


def params_of(L):
    return [[1.0 / 2 ** l] for l in range(L)]


def run(ctx):
    cfg = ctx.config
    L = cfg["levels"]
    params = params_of(L)
    spec = [QuantitySpec("q", "m", (cfg["len"], 1), [1.0], ["a1"])]
    storages = [Memory(), SampleStorageHDF(os.path.join(ctx.scratch(), "s.h5"))]
    for st in storages:
        st.save_global_data(level_parameters=params, result_format=spec)
    ref = Ref(L)
    ref.hdf_failed = [[] for _ in range(L)]
    counter = [0] * L
    for op in cfg["h"]:
        apply(op, ref, storages, cfg, counter)
        ctx.step()
    for st in storages:
        check(st, ref, cfg, params)
        check(st, ref, cfg, params)     # queries do not change anything
    ctx.state((L, cfg["len"], ref.sched, [[x[0] for x in o] for o in ref.ok], ref.bad, ref.hdf_failed, ref.ops))
