"""C07: HDF storage histories split by reopenings, and result formats written, reopened and confronted with other formats."""
import itertools
import os
import numpy as np
from mc.engine import require, file_digest
from mc.checks import c08
from mlmc.quantity.quantity_spec import QuantitySpec
from mlmc.sample_storage_hdf import SampleStorageHDF

PROPERTY = "C07"
OPS = ["s0", "s1", "a", "m", "f", "n", "z"]
BOUNDS = {
    "quick": "all histories of <=3 operations (schedule, save successes/failures, costs, clear failed) x all placements of reopenings "
             "(file reopened, reopened and initialised again with the same format; from 3 operations alternating) between them, 1-3 levels (<=2 operations also 12); all result formats "
             "from a grammar (1-2 quantities, shapes, 1-3 times, 1-3 named or coordinate locations) and all ordered pairs of different "
             "formats",
    "thorough": "histories of <=4 operations",
}
ASSUMPTIONS = ["names, units and locations are ASCII of at most 50 characters; the number of levels stays the same"]


def spec_pool():
    """Result formats as plain data."""
    out = []
    named = [["a1"], ["abc"], ["b2"], ["10", "20"], ["20", "10"], ["10", "20", "30"], ["abc", "def", "ghi"],
             ["a long location name with spaces", "x"]]
    coords = [[(0.0, 0.0, 0.0)], [(1.0, 2.5, -3.25)], [(0.1, 0.2, 0.3), (1e-300, -0.0, 1e300)],
              [(1e-300, -0.0, 1e300), (0.1, 0.2, 0.3)], [(1.0, 2.0, 3.0), (4.0, 5.0, 6.0), (7.0, 8.0, 9.0)],
              [(1.0, 2.0, 3.0), (4.0, 5.0, 6.0), (7.0, 8.0, 9.5)]]
    base = dict(name="length", unit="m", shape=(2, 1), times=[1.0, 2.0], locations=["10", "20"])
    for loc in named + coords:
        out.append([dict(base, locations=loc)])
    for t in ([0.0], [1.0], [2.0, 1.0], [0.1, 1 / 3.0, 1e9], [1.0, 2.0, 3.0]):
        out.append([dict(base, times=t)])
        out.append([dict(base, times=t, locations=[(1.0, 2.5, -3.25)])])
    for sh in ((1, 1), (1, 2), (2, 3), (3, 3)):
        out.append([dict(base, shape=sh)])
    for nm in ("width", "Length", "l" * 50, "l" * 49 + "x"):
        out.append([dict(base, name=nm)])
    for u in ("mm", "", "m.s-1"):
        out.append([dict(base, unit=u)])
    two = dict(base, name="width", unit="mm", shape=(1, 1))
    out += [[base, two], [two, base], [base, dict(two, locations=["20", "10"])], [base, dict(two, times=[1.0, 3.0])],
            [base, dict(two, shape=(1, 2))], [base, two, dict(base, name="third")],
            [dict(base, locations=coords[2]), dict(two, locations=coords[3])],
            [dict(base, locations=coords[2]), dict(two, locations=coords[2])]]
    # long lists and names
    out += [[dict(base, locations=["p" * 49 + x for x in "abc"])], [dict(base, unit="u" * 50)], [dict(base, times=[0.1 * k for k in range(40)])],
            [dict(base, locations=["loc%d" % k for k in range(40)], shape=(1, 1))], [dict(base, locations=[(k / 7.0, -k, 0.0) for k in range(30)], shape=(1, 1))],
            [dict(two, name="q%d" % k, unit="u%d" % (k % 3), shape=(1 + k % 3, 1 + k % 2)) for k in range(12)],
            [dict(base, shape=(10, 12), times=[1.0, 2.0, 3.0, 4.0, 5.0])]]
    # quantities with different numbers of times or locations, or different kinds of locations
    out += [[base, dict(two, times=[1.0])], [dict(base, times=[1.0]), two], [base, dict(two, locations=["x"])],
            [dict(base, locations=["x"]), two], [base, dict(two, locations=coords[2])], [dict(base, locations=coords[2]), two],
            [dict(base, locations=["abc", "def", "ghi"]), dict(two, locations=[(1.0, 2.0, 3.0)])]]
    return out


def make(fmt):
    return [QuantitySpec(q["name"], q["unit"], tuple(q["shape"]), list(q["times"]),
                         [x if isinstance(x, str) else tuple(x) for x in q["locations"]]) for q in fmt]


def plain(specs):
    out = []
    for q in specs:
        out.append((q.name, q.unit, tuple(int(x) for x in q.shape), tuple(repr(float(t)) for t in q.times),
                    tuple(x if isinstance(x, str) else tuple(repr(float(c)) for c in x) for x in q.locations)))
    return out


def heterogeneous(fmt):
    return len({(len(q["times"]), len(q["locations"]), isinstance(q["locations"][0], str)) for q in fmt}) > 1


def configs(tier):
    n = 4 if tier == "thorough" else 3
    cs = []
    for k in range(0, n + 1):
        for h in itertools.product(OPS, repeat=k):
            if any(a == b for a, b in zip(h, h[1:]) if a in "nz"):
                continue
            cs.append({"kind": "history", "h": list(h), "levels": 2, "len": 3})
            if k <= 2:
                for levels, ln in ((1, 1), (1, 12), (3, 1), (12, 1)):
                    cs.append({"kind": "history", "h": list(h), "levels": levels, "len": ln})
    cs += [{"kind": "history", "h": h, "levels": 2, "len": 1, "big": 100} for h in (["B", "m", "B"], ["s0", "B", "z", "B"])]
    cs += [{"kind": "format", "i": i} for i in range(len(spec_pool()))]
    return cs


def run(ctx):
    (history if ctx.config["kind"] == "history" else formats)(ctx)


def reopen(ctx, st, path, params, spec, label):
    """0: go on with the open storage, 1: reopen the file, 2: reopen it and initialise it again as a restarted sampler does"""
    if len(ctx.config["h"]) <= 2:
        how = ctx.choose(3, label)
    else:
        how = ctx.choose(2, label) * (2 - (len(ctx.trail) % 2))
    if how:
        st = SampleStorageHDF(path)
    if how == 2:
        st.save_global_data(level_parameters=params, result_format=make(spec))
    return st


def history(ctx):
    cfg = ctx.config
    L = cfg["levels"]
    params = c08.params_of(L)
    fmt = [dict(name="q", unit="m", shape=(cfg["len"], 1), times=[1.0], locations=["a1"])]
    path = os.path.join(ctx.scratch(), "s.h5")
    st = SampleStorageHDF(path)
    st.save_global_data(level_parameters=params, result_format=make(fmt))
    ref = c08.Ref(L)
    ref.hdf_failed = [[] for _ in range(L)]
    counter = [0] * L
    for op in cfg["h"]:
        st = reopen(ctx, st, path, params, fmt, "before " + op)
        c08.apply(op, ref, [st], cfg, counter)
        ctx.step()
    for what in ("as it is", "reopened", "initialised again"):
        if what == "reopened" and len(cfg["h"]) > 2:
            continue
        if what != "as it is":
            st = SampleStorageHDF(path)
        if what == "initialised again":
            st.save_global_data(level_parameters=params, result_format=make(fmt))
        c08.check(st, ref, cfg, params)
        require(plain(st.load_result_format()) == plain(make(fmt)), "result format %s" % st.load_result_format(), "format after history")
    ctx.state((L, cfg["len"], ref.sched, [[x[0] for x in o] for o in ref.ok], ref.bad, ref.hdf_failed, ref.ops))


def formats(ctx):
    pool = spec_pool()
    fmt = pool[ctx.config["i"]]
    path = os.path.join(ctx.scratch(), "s.h5")
    cfg = {"levels": 2, "len": 2}
    params = c08.params_of(2)
    st = SampleStorageHDF(path)
    try:
        st.save_global_data(level_parameters=params, result_format=make(fmt))
    except ValueError:
        require(heterogeneous(fmt), "uniform format %s refused" % fmt, "format refused")
        return
    ctx.state(plain(make(fmt)))
    ref = c08.Ref(2)
    ref.hdf_failed = [[], []]
    counter = [0, 0]
    c08.apply("m", ref, [st], cfg, counter)
    c08.apply("s0", ref, [st], cfg, counter)
    for what in ("as it is", "reopened", "initialised again"):
        if what != "as it is":
            st = SampleStorageHDF(path)
        if what == "initialised again":
            st.save_global_data(level_parameters=params, result_format=make(fmt))
        got = plain(st.load_result_format())
        require(got == plain(make(fmt)), lambda: "%s: saved format %s loaded as %s" % (what, plain(make(fmt)), got), "format round trip")
        ctx.step()
    for k in range(len(pool)):
        other = pool[k]
        if other == fmt:
            continue
        for fresh in (True, False):
            if fresh:
                st = SampleStorageHDF(path)
            refused = False
            try:
                st.save_global_data(level_parameters=params, result_format=make(other))
            except ValueError:
                refused = True
            require(refused, lambda: "format %s accepted by a storage of %s" % (other, fmt), "different format accepted")
            ctx.step()
        got = plain(SampleStorageHDF(path).load_result_format())
        require(got == plain(make(fmt)), lambda: "refused format %s changed the stored one to %s" % (other, got), "refused format stored")
    c08.check(SampleStorageHDF(path), ref, cfg, params)
