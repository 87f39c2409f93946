"""C22: fields are sampled on the right elements for every definition, region layout and history."""
import itertools
import numpy as np
from mc.engine import require
from mlmc.random import correlated_field as cf

PROPERTY = "C22"
BOUNDS = {
    "quick": "meshes of 1-4 elements with every assignment of elements to 3 regions; 11 kinds of field sets (constant, random, shared random, "
             "dependent, chained, mixed with constants) x region lists of length 0-2 in every order; histories of set_points/sample over two "
             "meshes, two field sets built from the same fields and used in turns, every choice of outer fields; meshes of 50-300 elements",
    "thorough": "meshes up to 5 elements",
}
ASSUMPTIONS = ["a dependent field lives on the same regions as its parameters, listed in any order",
               "random fields are represented by a probe derived from the package's base class whose values encode point and draw; the sampling of "
               "the bundled correlated fields themselves is C23"]
REGS = {"r0": 10, "r1": 0, "r2": 12}
LISTS = [[], ["r0"], ["r1"], ["r0", "r1"], ["r1", "r0"], ["r2", "r0"]]
FUN = {"plus": lambda *a: sum(a) + 0.5, "square": lambda a, *b: a * a - sum(b), "ratio": lambda a, b: a / (b + 2.0),
       "least": lambda *a: np.min(np.stack(a), axis=0)}


class Probe(cf.RandomFieldBase):
    """Sample = 1024 * number of the draw + code of the point"""
    draws = 0

    def _initialize(self, **kwargs):
        pass

    def _sample(self):
        Probe.draws += 1
        return 1024.0 * Probe.draws + self.points[:, 0]


def definitions():
    """name -> list of (field name, kind, parameters, which region list)"""
    return {
        "random": [("a", "new", [], 0)],
        "const": [("a", 2.5, [], 0), ("b", 3, [], 1)],
        "two random": [("a", "new", [], 0), ("b", "new", [], 1)],
        "shared random": [("a", "shared", [], 0), ("b", "shared", [], 1)],
        "shared thrice": [("a", "shared", [], 0), ("b", "shared", [], 1), ("c", "shared", [], 0)],
        "dependent": [("a", "new", [], 0), ("b", "square", ["a"], "0r")],
        "dependent with constants": [("a", "new", [], 0), ("b", "plus", ["a", 2, 0.25], "0r"), ("c", 7.0, [], 1)],
        "chain": [("a", "new", [], 0), ("b", "square", ["a", 3.0], "0r"), ("c", "ratio", ["b", "a"], 0)],
        "shortening chain": [("a", "new", [], 0), ("b", "least", ["a", 1500.0, 2.0e4], "0r"), ("c", "square", ["b"], 0), ("d", 1, [], 0)],
        "two chains": [("a", "shared", [], 0), ("b", "shared", [], 1), ("c", "plus", ["a", 3.0], 0), ("d", "plus", ["b", 3.0], "1r")],
        "constant parameter": [("a", 4.0, [], 0), ("b", "new", [], 0), ("c", "ratio", ["b", "a"], "0r"), ("d", "new", [], 1)],
    }


def configs(tier):
    n = 5 if tier == "thorough" else 4
    return [{"def": d, "l0": i, "l1": j, "n": n} for d in definitions() for i in range(len(LISTS)) for j in range(len(LISTS))
            if any(r in (1, "1r") for _, _, _, r in definitions()[d]) or j == 0] + [{"laws": True}] + [
                {"large": True, "def": d, "l0": i, "l1": j} for d in definitions() for i, j in ((0, 3), (4, 1), (5, 5), (3, 2))]


def pick_regions(which, l0, l1):
    r = LISTS[l0] if str(which)[0] == "0" else LISTS[l1]
    return list(reversed(r)) if str(which).endswith("r") else list(r)


def make(defn, l0, l1):
    shared = Probe(dim=1)
    out = []
    for name, kind, params, which in defn:
        regs = pick_regions(which, l0, l1)
        regs = regs[0] if len(regs) == 1 else regs
        f = shared if kind == "shared" else Probe(dim=1) if kind == "new" else FUN[kind] if kind in FUN else kind
        out.append(cf.Field(name, f, list(params), regions=regs))
    return out


def predict_check(ctx, fields, defn, l0, l1, layout, codes, seen, what):
    """One sample of the set; seen: draws used so far"""
    got = fields.sample()
    n = len(layout)
    value = {}
    own = []
    for name, kind, params, which in defn:
        require(name in got, lambda: "%s: field %s is missing in %s" % (what, name, sorted(got)), "missing")
        v = np.asarray(got[name])
        require(v.shape == (n,), lambda: "%s: field %s has shape %s for %d elements" % (what, name, v.shape, n), "shape")
        regs = pick_regions(which, l0, l1)
        inside = [not regs or layout[i] in [REGS[r] for r in regs] for i in range(n)]
        for i in range(n):
            if not inside[i]:
                require(v[i] == 0.0, lambda: "%s: field %s is %s in element %d outside of its regions" % (what, name, v[i], i), "outside")
        if kind in ("new", "shared"):
            draws = {(v[i] - codes[i]) / 1024.0 for i in range(n) if inside[i]}
            require(len(draws) <= 1, lambda: "%s: values %s of field %s do not belong to points %s" % (what, v.tolist(), name, codes), "points")
            for d in draws:
                require(d == int(d) and 0 < d and d not in seen, lambda: "%s: values %s of field %s in points %s are not a new draw" % (
                    what, v.tolist(), name, codes), "draw")
                require(d not in own, lambda: "%s: fields share a draw" % what, "shared draw")
                own.append(d)
        else:
            for i in range(n):
                if inside[i]:
                    if kind in FUN:
                        w = FUN[kind](*[value[p][i] if isinstance(p, str) else p for p in params])
                    else:
                        w = kind
                    require(v[i] == w, lambda: "%s: field %s is %s instead of %s in element %d (parameters %s)" % (
                        what, name, v[i], w, i, [value[p].tolist() if isinstance(p, str) else p for p in params]), "value")
        value[name] = v
    seen.update(own)
    ctx.step()
    return got


def run(ctx):
    cfg = ctx.config
    if "laws" in cfg:
        return laws(ctx)
    l0, l1 = cfg["l0"], cfg["l1"]
    defn = definitions()[cfg["def"]]
    if "large" in cfg:
        for n, mul in ((50, 7), (300, 1), (257, 5)):
            Probe.draws = 0
            one, seen = cf.Fields(make(defn, l0, l1)), set()
            for k in range(2):
                layout = [list(REGS.values())[(i * mul // (1 + k)) % 3] for i in range(n + k)]
                codes = [float((i * 11 + k) % 1021) for i in range(n + k)]
                one.set_points(np.array(codes)[:, None], layout, dict(REGS))
                predict_check(ctx, one, defn, l0, l1, layout, codes, seen, "%d elements" % n)
                predict_check(ctx, one, defn, l0, l1, layout, codes, seen, "%d elements, next sample" % n)
            ctx.state(("large", cfg["def"], l0, l1, n))
        return
    for n in range(1, cfg["n"] + 1):
        for layout in itertools.product(list(REGS.values()), repeat=n):
            Probe.draws = 0
            seen = set()
            fields = make(defn, l0, l1)
            one, two = cf.Fields(fields), cf.Fields(fields)
            other = tuple(reversed(layout))[:-1] + (REGS["r0"], REGS["r1"])
            c1 = [float(3 * i + 1) for i in range(n)]
            c2 = [float(7 * i + 2) for i in range(len(other))]
            p1, p2 = np.array(c1)[:, None], np.array(c2)[:, None]
            one.set_points(p1, list(layout), dict(REGS))
            predict_check(ctx, one, defn, l0, l1, layout, c1, seen, "first sample")
            predict_check(ctx, one, defn, l0, l1, layout, c1, seen, "second sample")
            two.set_points(p2, list(other), dict(REGS))
            predict_check(ctx, two, defn, l0, l1, other, c2, seen, "second set of the same fields")
            predict_check(ctx, one, defn, l0, l1, layout, c1, seen, "first set after using the second one")
            one.set_points(p2, list(other), dict(REGS))
            predict_check(ctx, one, defn, l0, l1, other, c2, seen, "first set in other points")
            require(np.array_equal(p1[:, 0], c1) and np.array_equal(p2[:, 0], c2), "points changed", "points changed")
            if not LISTS[l0] and not LISTS[l1]:
                two.set_points(p1)
                predict_check(ctx, two, defn, l0, l1, layout, c1, seen, "points without regions")
            if n <= 2:
                names = [d[0] for d in defn]
                for k in range(len(names) + 1):
                    for outer in itertools.combinations(names, k):
                        one.set_outer_fields(list(outer))
                        require(set(one.sample()) == set(outer), lambda: "sample gives other than outer fields %s" % (outer,), "outer")
                one.set_outer_fields(names)
                predict_check(ctx, one, defn, l0, l1, other, c2, {i for i in range(Probe.draws + 1)}, "all fields are outer again")
            ctx.state((cfg["def"], l0, l1, layout))


def laws(ctx):
    """Bundled dependency laws, value by value"""
    por = [0.0, 1e-12, 1e-3, 0.02, 0.1, 0.5, 0.999, 1.0, 1.5]
    for m in (1, 1.46, 3.48):
        for factor in (1e-12, 1e-8, 1.0):
            for visc in (8.9e-4, 1.0):
                got = cf.kozeny_carman(np.array(por), m, factor, np.array(visc))
                for p, g in zip(por, got):
                    q = min(max(p, 1e-10), 1 - 1e-10)
                    w = max(factor * q ** (2 + m) / (1 - q) ** 2 / visc, 1e-15)
                    require(abs(g - w) <= 1e-9 * w, lambda: "kozeny_carman(%s, %s, %s, %s) = %s instead of %s" % (p, m, factor, visc, g, w), "law")
                    ctx.step()
                ctx.state(("kozeny", m, factor, visc))
    for a, b in ((0.02, 0.1), (0.01, 0.05), (0.0, 1.0), (0.3, 0.4)):
        x = np.array([0.0, 1e-6, 0.1, 1.0, 10.0, 1e9])
        y = cf.positive_to_range(x, a, b)
        require(abs(y[0] - a) < 1e-12 and np.all(np.diff(y) > 0) and np.all(y < b) and np.all(y >= a - 1e-12) and abs(y[-1] - b) < 1e-6 * b,
                lambda: "positive_to_range(%s, %s, %s) = %s" % (x.tolist(), a, b, y.tolist()), "range law")
        ctx.state(("range", a, b))
        ctx.step()
