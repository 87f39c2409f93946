"""C24: meshes and element fields written by the package are read back unchanged."""
import contextlib
import io
import itertools
import os
import numpy as np
from mc.engine import require
from mlmc.tool.gmsh_io import GmshIO

PROPERTY = "C24"
NODES = {1: 2, 2: 3, 3: 4, 4: 4, 5: 8, 6: 6, 15: 1}          # element type -> number of nodes
COORDS = [0.0, -1.5, 1e-17, 1 / 3.0, 123456789.125, 5e300]
VALUES = [0.0, -0.0, 1.0, -2.5, 1 / 3.0, 1e-300, 5e-324, 1.7976931348623157e308, float("inf"), float("-inf"), float("nan"), 12345.678901234567]
NAMES = ["a", "conductivity", "bulk rock", ".bc_outflow", "1", "two  spaces", "-", "x y z u v w q", "trailing ", " leading"]
BOUNDS = {
    "quick": "all meshes of up to 3 elements over 7 element types x 0-4 tags x id patterns, 8 physical names in all sets of up to 2, special "
             "coordinates; all element data of 1-9 components over 12 special values, 1-3 fields, id patterns; meshes written, read, written "
             "again; single meshes of 120 and 1500 elements",
    "thorough": "as quick with 4 elements and sets of up to 3 names",
}
ASSUMPTIONS = ["only the ASCII format; the binary writer of the package does not work at all (it raises)",
               "physical names contain no quotes or line breaks; field values are arrays with one row per element"]


def configs(tier):
    th = tier == "thorough"
    cs = [{"mode": "elements", "n": n, "first": t} for n in range(1, (4 if th else 3) + 1) for t in NODES]
    cs += [{"mode": "names", "k": k} for k in range(0, (3 if th else 2) + 1)]
    cs += [{"mode": "nodes"}]
    cs += [{"mode": "data", "comp": c} for c in range(1, 10)]
    cs += [{"mode": "fields", "k": k} for k in (1, 2, 3)]
    cs += [{"mode": "large", "n": n} for n in (120, 1500)]
    return cs


REUSED = None


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def round_trip(ctx, d, nodes, elements, physical, i):
    path = os.path.join(d, "m%d.msh" % (i % 4))
    m = GmshIO()
    m.filename = path
    m.nodes, m.elements, m.physical = dict(nodes), dict(elements), dict(physical)
    with quiet():
        if i % 2:
            with open(path, "w") as f:
                m.write_ascii(f)
        else:
            m.write_ascii()
        r = GmshIO(path)
    what = lambda: "mesh %s %s %s" % (nodes, elements, physical)
    require({k: [float(x) for x in v] for k, v in r.nodes.items()} == {k: [float(x) for x in v] for k, v in nodes.items()},
            lambda: "nodes read as %s; %s" % (r.nodes, what()), "nodes")
    require({k: (t, list(g), list(n)) for k, (t, g, n) in r.elements.items()} == {k: (t, list(g), list(n)) for k, (t, g, n) in elements.items()},
            lambda: "elements read as %s; %s" % (r.elements, what()), "elements")
    require({k: tuple(v) for k, v in r.physical.items()} == physical, lambda: "physical names read as %s; %s" % (r.physical, what()), "names")
    require((m.nodes, m.elements, m.physical) == (nodes, elements, physical), "the written mesh changed", "mesh changed")
    require(not r.element_data, "element data in a mesh without data", "data")
    # the object that read another mesh is used again
    if REUSED is not None and i % 5 == 0:
        with quiet():
            REUSED.reset()
            REUSED.read(open(path))
        require((REUSED.nodes, REUSED.elements, REUSED.physical) == (r.nodes, r.elements, r.physical) and not REUSED.element_data,
                lambda: "read after another mesh: %s %s %s; %s" % (REUSED.nodes, REUSED.elements, REUSED.physical, what()), "reset")
    # a changed mesh is written over the old file and read by the same object
    if i % 3 == 0:
        moved = {k: [c + 0.5 for c in v] for k, v in nodes.items()}
        m.nodes = moved
        with quiet():
            m.filename = path
            with open(path, "w") as f:
                m.write_ascii(f)
            r2 = GmshIO(path)
            m.nodes, m.elements, m.physical = dict(nodes), dict(elements), dict(physical)
            m.reset()
            m.read()
        require((m.nodes, m.elements, m.physical) == (r2.nodes, r2.elements, r2.physical), lambda: "rewritten file read differently: %s" % what(), "reread")
        require({k: [float(x) for x in v] for k, v in r2.nodes.items()} == {k: [float(x) for x in v] for k, v in moved.items()},
                lambda: "rewritten nodes read as %s; %s" % (r2.nodes, what()), "reread nodes")
    # the mesh that was read is written again
    path2 = os.path.join(d, "again.msh")
    with quiet():
        with open(path2, "w") as f:
            r.write_ascii(f)
        again = GmshIO(path2)
    require((again.nodes, again.elements, again.physical) == (r.nodes, r.elements, r.physical), lambda: "second round: %s" % what(), "second round")
    ctx.step()


def run(ctx):
    cfg = ctx.config
    d = ctx.scratch()
    global REUSED
    path = os.path.join(d, "first.msh")
    with open(path, "w") as f, quiet():
        w = GmshIO()
        w.nodes, w.elements, w.physical = {1: [0.0, 0.0, 0.0], 99: [1.0, 1.0, 1.0]}, {1: (15, [1, 1], [1]), 77: (15, [1, 1], [99])}, {"first": (1, 0)}
        w.write_ascii(f)
        w.write_element_data(f, [1, 77], "first field", np.array([[1.0], [2.0]]))
    with quiet():
        REUSED = GmshIO(path)
    require(set(REUSED.element_data) == {"first field"} and len(REUSED.elements) == 2, "mesh with data", "mesh with data")
    globals()["mode_" + cfg["mode"]](ctx, cfg, d)


def mode_elements(ctx, cfg, d):
    n = cfg["n"]
    nodes = {i: [0.5 * i, -1.0 * i, 0.25] for i in (1, 2, 3, 5, 8, 9, 100, 7)}
    order = list(nodes)
    i = 0
    for types in itertools.product(NODES, repeat=n - 1):
        types = (cfg["first"],) + types
        if list(types[1:]) != sorted(types[1:]):
            continue
        for tags in itertools.product(range(5), repeat=n) if n < 3 else itertools.product((0, 2, 3), repeat=n):
            for ids in ((lambda k: k + 1), (lambda k: 10 * (n - k)), (lambda k: 100000 + 7 * k)):
                i += 1
                if n > 2 and i % 3:
                    continue
                elements = {}
                for k in range(n):
                    elements[ids(k)] = (types[k], [(3 * k + j) % 5 for j in range(tags[k])], (order[k:] + order[:k])[:NODES[types[k]]])
                round_trip(ctx, d, nodes, elements, {"bulk": (1, 2), ".bc": (2, 1)}, i)
                ctx.state(("elements", types, tags, i % 3))


def mode_names(ctx, cfg, d):
    i = 0
    for names in itertools.permutations(NAMES, cfg["k"]):
        for dims in itertools.product((0, 1, 2, 3), repeat=cfg["k"]):
            i += 1
            round_trip(ctx, d, {1: [0.0, 1.0, 2.0]}, {}, {nm: (10 - k, dm) for k, (nm, dm) in enumerate(zip(names, dims))}, i)
            # ids are unique in one dimension only, more names may share an entity
            round_trip(ctx, d, {1: [0.0, 1.0, 2.0]}, {}, {nm: (7, dm) for nm, dm in zip(names, dims)}, i)
            ctx.state(("names", names, dims))


def mode_nodes(ctx, cfg, d):
    i = 0
    for xyz in itertools.product(COORDS, repeat=3):
        for ids in ((1, 2), (7, 3), (1000000, 1), (16777217, 16777219)):
            i += 1
            c = [np.float64(x) for x in xyz] if i % 2 else list(xyz)
            round_trip(ctx, d, {ids[0]: c, ids[1]: [x + 1 for x in c]}, {5: (1, [1, 2], list(ids))}, {"b": (1, 1)}, i)
            ctx.state(("nodes", xyz, ids))
    round_trip(ctx, d, {}, {}, {}, 0)


def same(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and a.tobytes() == b.tobytes() or (np.array_equal(a, b, equal_nan=True) and not np.any(np.signbit(a[a == 0]) != np.signbit(b[b == 0])))


def data_trip(ctx, d, ele_ids, fields, i):
    path = os.path.join(d, "f%d.msh" % (i % 4))
    keep = {k: v.copy() for k, v in fields.items()}
    with quiet():
        w = GmshIO()
        if i % 3 == 1:
            w.filename = path
            w.write_fields(None, ele_ids, fields)
        else:
            w.write_fields(path, ele_ids, fields)
        r = GmshIO(path)
    what = lambda: "fields %s on elements %s" % ({k: v.tolist() for k, v in fields.items()}, list(ele_ids))
    require(set(r.element_data) == set(fields), lambda: "fields %s read; %s" % (sorted(r.element_data), what()), "field names")
    require(not r.elements and not r.nodes, lambda: "elements %s read from data; %s" % (r.elements, what()), "phantom elements")
    for name, values in fields.items():
        times = r.element_data[name]
        require(list(times) == [0], lambda: "times %s; %s" % (list(times), what()), "times")
        t, data = times[0]
        require(t == 0.0, "time %s" % t, "times")
        require(list(data) == [int(e) for e in ele_ids], lambda: "field %s has elements %s; %s" % (name, list(data), what()), "data elements")
        for e, row in zip(ele_ids, values):
            require(same(data[int(e)], row), lambda: "field %s, element %s: %s instead of %s" % (name, e, data[int(e)], row.tolist()), "data values")
        require(keep[name].tobytes() == values.tobytes(), "the written values changed", "values changed")
    ctx.step()


def mode_data(ctx, cfg, d):
    c = cfg["comp"]
    i = 0
    for n in (1, 2, 3):
        for ids in (list(range(1, n + 1)), [50 - 7 * k for k in range(n)], np.array([100000 + k for k in range(n)])):
            for shift in range(len(VALUES)):
                for dtype in (float, int):
                    i += 1
                    v = np.array([VALUES[(shift + k) % len(VALUES)] for k in range(n * c)]).reshape(n, c)
                    if dtype is int:
                        v = (np.arange(n * c).reshape(n, c) + shift)
                    data_trip(ctx, d, ids, {"conductivity": v}, i)
                    ctx.state(("data", c, n, shift, dtype.__name__, tuple(map(int, ids))))


def mode_large(ctx, cfg, d):
    """Many nodes, elements, names and rows of data in one file"""
    n = cfg["n"]
    for first, stride in ((1, 1), (995, 3), (10 ** 6, -7)):
        nodes = {first + abs(stride) * k: [k / 7.0, -k * 1e-9, 1e9 / (k + 1)] for k in range(n)}
        ids = list(nodes)
        types = list(NODES)
        elements = {first * 2 + stride * k: (types[k % 7], [k % 13 + 1, k % 5, 7][:k % 4], [ids[(k * 5 + j) % n] for j in range(NODES[types[k % 7]])]) for k in range(n)}
        names = {"region %d" % k: (k + 1, k % 4) for k in range(30)}
        round_trip(ctx, d, nodes, elements, names, 1)
        round_trip(ctx, d, nodes, elements, names, 0)
        data_trip(ctx, d, list(elements), {"f%d" % k: np.sin(np.arange(n * c, dtype=float)).reshape(n, c) * 10.0 ** (3 * k) for k, c in enumerate((1, 3, 9, 1, 1, 1))}, 0)
        ctx.state(("large", n, first, stride))


def mode_fields(ctx, cfg, d):
    i = 0
    for names in itertools.permutations(["a", "cross section", "conductivity", "X_1", ".b"], cfg["k"]):
        for comps in itertools.product((1, 3, 6, 9), repeat=cfg["k"]):
            i += 1
            fields = {nm: np.array([[VALUES[(j + 3 * k + i + r) % len(VALUES)] for j in range(cp)] for r in range(2)]) for k, (nm, cp) in
                      enumerate(zip(names, comps))}
            data_trip(ctx, d, [4, 2], fields, i)
            ctx.state(("fields", names, comps))
