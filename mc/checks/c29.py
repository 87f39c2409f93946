"""C29: plots show exactly the data they are given, for every small data set and history of additions."""
import itertools
import os
import sys
import types
from unittest import mock
import numpy as np
import matplotlib
matplotlib.use("agg")
import matplotlib.pyplot as plt
from matplotlib.container import BarContainer
from matplotlib.collections import PathCollection
from mc.engine import require
from mlmc.plot import plots
from mlmc.moments import Legendre, Monomial, Fourier
from mlmc.estimator import Estimate
from mlmc.sample_storage import Memory
from mlmc.quantity.quantity import make_root_quantity
from mlmc.quantity.quantity_spec import QuantitySpec

PROPERTY = "C29"
BOUNDS = {
    "quick": "moment subsets: 2-40 moments x every size up to 45; eigenvalues: every vector of 1-3 values of {3,1,1e-8,0,-0.5} in either order x errors "
             "(none, list, array) x threshold x scale, and pairs of data sets; distributions: every history of up to 2 additions of 2 sample sets and 2 "
             "densities x exact x error plot x scales; variance breakdowns: 1-3 levels x 2-4 moments x reference x every subset size, one or two "
             "instances; level variances: every table of 5 levels over two values; moment functions of 3 families up to 6; violin plot data of 2-3 levels",
    "thorough": "eigenvalues of up to 4 values, histories of up to 3 additions",
}
ASSUMPTIONS = ["what is shown is read from the artists of the figure; showing and saving is recorded, not drawn",
               "seaborn and pandas are replaced by stand-ins which record the data of the violin plot",
               "BSplots, Aux and the plot_* functions of the former test fixture are not covered (they need removed matplotlib interfaces)"]
EIG = [3.0, 1.0, 1e-8, 0.0, -0.5]


def configs(tier):
    th = tier == "thorough"
    cs = [{"mode": "subset"}]
    for log, err, thr in itertools.product((True, False), ("none", "list", "array"), (None, 0.0, 0.3)):
        cs.append({"mode": "eig", "log": log, "err": err, "thr": thr, "n": 4 if th else 3})
    for exact, err, logx, logd, cdf in itertools.product((True, False), (None, "diff", "l2", "kl"), (False, True), (False, True), (True, False)):
        for n in range(1, (3 if th else 2) + 1):
            cs.append({"mode": "dist", "exact": exact, "err": err, "logx": logx, "logd": logd, "cdf": cdf, "n": n})
    for L, R, ref, inst in itertools.product((1, 2, 3), (2, 3, 4), (False, True), (1, 2)):
        for sub in [None] + list(range(1, R + 2)):
            cs.append({"mode": "break", "L": L, "R": R, "ref": ref, "inst": inst, "sub": sub})
    for R, sub, inst in itertools.product((2, 3), (None, 1, 2, 5), (1, 2)):
        cs.append({"mode": "vars", "R": R, "sub": sub, "inst": inst})
    for fam in ("Legendre", "Monomial", "Fourier"):
        for dom in ((0.0, 1.0), (-2.0, 5.0)):
            cs.append({"mode": "moments", "fam": fam, "dom": dom})
    for L in (2, 3):
        cs.append({"mode": "violin", "L": L})
        cs.append({"mode": "estimate", "L": L})
    return cs


class Record:
    """Collects the names under which figures are saved or shown"""
    def __enter__(self):
        self.files = []
        self.patches = [mock.patch("matplotlib.figure.Figure.savefig", lambda fig, name, *a, **k: self.files.append(name)),
                        mock.patch("matplotlib.figure.Figure.show", lambda fig, *a, **k: self.files.append(None))]
        for p in self.patches:
            p.start()
        return self

    def __exit__(self, *exc):
        for p in self.patches:
            p.stop()
        plt.close("all")


def run(ctx):
    import warnings
    warnings.simplefilter("ignore")
    with Record() as rec:
        globals()["mode_" + ctx.config["mode"]](ctx, ctx.config, rec)


def close(a, b, rtol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=1e-12, equal_nan=True))


def names(ctx, obj, rec, title):
    """The figure is saved under the given name, with the extension pdf, under its title or only shown"""
    for name, want in (("", title + ".pdf"), ("f", "f.pdf"), ("g.pdf", "g.pdf"), (None, None)):
        del rec.files[:]
        obj.show(name)
        require(rec.files == [want], lambda: "show(%r) saved %s" % (name, rec.files), "name of the file")


def mode_subset(ctx, cfg, rec):
    for n in range(2, 41):
        full = np.asarray(plots.moments_subset(n))
        require(full.tolist() == list(range(1, n)), lambda: "all of %d moments: %s" % (n, full), "subset")
        for m in range(1, 46):
            s = np.asarray(plots.moments_subset(n, m)).tolist()
            require(all(1 <= i < n for i in s) and all(a < b for a, b in zip(s, s[1:])) and len(s) == min(m, n - 1) and s[0] == 1
                    and (m == 1 or s[-1] == n - 1), lambda: "subset of %d of %d moments: %s" % (m, n, s), "subset")
            ctx.state(("subset", n, m))
    ctx.step()


def eig_expected(vals, errs, log):
    pairs = list(zip(vals, errs))[::-1 if vals[0] < vals[-1] else 1]
    return [p for p in pairs if p[0] > 0] if log else pairs


def mode_eig(ctx, cfg, rec):
    for n in range(1, cfg["n"] + 1):
        for vals in itertools.combinations_with_replacement(EIG, n):          # non-increasing
            if not any(v > 0 for v in vals) and cfg["log"]:
                continue
            for order in (1, -1):
                for pair in ((False,) if n > 2 or cfg["err"] == "list" else (False, True)):
                    v = np.array(vals[::order])
                    errs = [0.125 * (i + 1) for i in range(n)][::order]
                    e = plots.Eigenvalues(log_y=cfg["log"], title="T")
                    sets = [(v, errs)] + ([(np.array([2.0, 0.5]), [0.25, 0.75])] if pair else [])
                    for k, (a, b) in enumerate(sets):
                        arg = None if cfg["err"] == "none" else list(b) if cfg["err"] == "list" else np.array(b)
                        nl, nc = len(e.ax.lines), len(e.ax.collections)
                        keep = a.copy()
                        try:
                            e.add_values(a, errors=arg, threshold=cfg["thr"], label="set %d" % k)
                        except Exception as ex:
                            require(False, "add_values(%s, errors=%s, threshold=%s) raised %r" % (a, arg, cfg["thr"], ex), "eigenvalues refused")
                        require(np.array_equal(a, keep), "the values were changed", "eigenvalues changed")
                        want = eig_expected(list(a), list(b), cfg["log"])
                        lines, cols = e.ax.lines[nl:], e.ax.collections[nc:]
                        hor = [l for l in lines if len(l.get_xdata()) == 2 and l.get_transform() == e.ax.get_yaxis_transform(which="grid")]
                        require([float(np.unique(l.get_ydata())[0]) for l in hor] == ([] if cfg["thr"] is None else [cfg["thr"]]),
                                lambda: "threshold %s drawn at %s" % (cfg["thr"], [l.get_ydata() for l in hor]), "threshold")
                        if arg is None:
                            pts = [np.asarray(c.get_offsets()) for c in cols]
                            got = pts[0] if len(pts) == 1 else np.zeros((0, 2))
                        else:
                            mark = [l for l in lines if l not in hor and str(l.get_linestyle()) == "None" and l.get_marker() == "o"]
                            got = np.stack([mark[0].get_xdata(), mark[0].get_ydata()], axis=1)
                            segs = [np.asarray(s) for c in cols for s in c.get_segments()]
                            require(close([[s[0][1], s[-1][1]] for s in segs], [[y - w, y + w] for y, w in want]),
                                    lambda: "error bars %s of %s" % (segs, want), "error bars")
                        require(close(got[:, 1], [p[0] for p in want]) and close(got[:, 0] - got[0, 0], np.arange(len(want))),
                                lambda: "eigenvalues %s drawn as %s" % (a, got), "eigenvalues")
                        ctx.state(("eig", tuple(a), k))
                    if not pair and n == 1 and vals[0] == 3.0:
                        names(ctx, e, rec, "T")
                    plt.close("all")
                    ctx.step()


class Dens:
    """Two simple densities with the interface of an approximated distribution"""
    def __init__(self, lo, hi, power):
        self.domain, self.power = (lo, hi), power
        self.moments_fn = types.SimpleNamespace(size=power + 3)

    def unit(self, x):
        return (np.asarray(x) - self.domain[0]) / (self.domain[1] - self.domain[0])

    def density(self, x):
        return (self.power + 1) * self.unit(x) ** self.power / (self.domain[1] - self.domain[0]) + 0.01

    pdf = density

    def cdf(self, x):
        return self.unit(x) ** (self.power + 1) + 0.01 * self.unit(x)


def curves(ax):
    return [(np.asarray(l.get_xdata(), dtype=float), np.asarray(l.get_ydata(), dtype=float)) for l in ax.lines if len(l.get_xdata()) > 2]


def mode_dist(ctx, cfg, rec):
    exact = Dens(1.0, 6.0, 1) if cfg["exact"] else None
    sampsets = [np.array([2.0 + 0.25 * (i % 7) + 0.01 * i for i in range(20)]), np.array([1.5 + 3.0 * i * i / 1600.0 for i in range(40)])]
    dens = [Dens(2.0, 5.0, 1), Dens(1.25, 4.0, 2)]
    for hist in itertools.product(range(4), repeat=cfg["n"]):
        d = plots.Distribution(exact_distr=exact, title="D", log_density=cfg["logd"], cdf_plot=cfg["cdf"], log_x=cfg["logx"], error_plot=cfg["err"])
        pdfs, cdfs, dom, bars = [], [], None, 0
        for op in hist:
            if op < 2:
                s = sampsets[op]
                d.add_raw_samples(s)
                new = (s.min(), s.max())
            else:
                d.add_distribution(dens[op - 2], label=None if op == 2 else "second")
                new = dens[op - 2].domain
                pdfs.append(dens[op - 2])
            dom = new if dom is None else (min(dom[0], new[0]), max(dom[1], new[1]))
            if op < 2:
                n_bars = len(d.ax_pdf.patches)
                hb = d.ax_pdf.patches[bars:]
                bars = n_bars
                w = [(b.get_x(), b.get_width(), b.get_height()) for b in hb]
                require(len(w) > 0 and abs(sum(b[1] * b[2] for b in w) - 1.0) < 1e-9, lambda: "area of the histogram %s" % w, "histogram area")
                for j, (x, dx, h) in enumerate(w):
                    k = int(np.sum((s >= x - 1e-12) & ((s < x + dx - 1e-12) | (j == len(w) - 1) & (s <= x + dx + 1e-12))))
                    require(abs(h * dx * len(s) - k) <= 1e-6 + np.sum(np.abs(s - x) < 1e-9) + np.sum(np.abs(s - x - dx) < 1e-9),
                            lambda: "histogram bar %s over %d samples" % ((x, dx, h), k), "histogram")
        d.show("")
        require(rec.files[-1] == "D.pdf", lambda: "saved as %s" % rec.files, "name of the file")
        for ax, what in ((d.ax_pdf, "density"), (d.ax_cdf, "cdf")):
            cs = curves(ax)
            want = [(o, o.domain) for o in pdfs] + ([(exact, dom)] if exact else [])
            require(len(cs) == len(want), lambda: "%d curves of %d distributions" % (len(cs), len(want)), "number of curves")
            for (x, y), (o, (lo, hi)) in zip(cs, want):
                require(abs(x[0] - lo) < 1e-9 and abs(x[-1] - hi) < 1e-9 and np.all(np.diff(x) > 0) and len(x) >= 100,
                        lambda: "curve of %s over %s instead of %s" % (what, (x[0], x[-1]), (lo, hi)), "range of the curve")
                require(close(y, getattr(o, what)(x)), lambda: "curve of the %s" % what, "curve")
            require(ax.get_xscale() == ("log" if cfg["logx"] else "linear"), "scale of x", "scale")
            ends = sorted(float(l.get_xdata()[0]) for l in ax.lines if len(l.get_xdata()) == 2)
            require(close(ends, sorted(x for o in pdfs for x in o.domain)), lambda: "borders %s" % ends, "borders")
        require(d.ax_pdf.get_yscale() == ("log" if cfg["logd"] else "linear"), "scale of the density", "scale")
        if cfg["err"] and exact:
            for ax, what in ((d.ax_pdf_err, "density"), (d.ax_cdf_err, "cdf")):
                cs = curves(ax)
                require(len(cs) == len(pdfs), "number of error curves", "error curves")
                for (x, y), o in zip(cs, pdfs):
                    a, b = getattr(o, what)(x), getattr(exact, what)(x)
                    w = b * np.log(b / a) - b + a if cfg["err"] == "kl" and what == "density" else a - b
                    require(close(y, w), lambda: "error of the %s" % what, "error curves")
        labels = [t.get_text() for t in d.ax_pdf.get_legend().get_texts()]
        for op in hist:
            lab = {0: "samples", 1: "samples", 2: "size 4", 3: "second"}[op]
            require(lab in labels, lambda: "legend %s lacks %s" % (labels, lab), "legend")
        plt.close("all")
        ctx.step()
        ctx.state(("dist", hist))


def stacks(ax, containers):
    """x -> list of (bottom, top) of the bars there, from the lowest"""
    out = {}
    for c in containers:
        for b in c.patches:
            out.setdefault(round(b.get_x() + b.get_width() / 2, 9), []).append((b.get_y(), b.get_y() + b.get_height()))
    return {x: sorted(v) for x, v in out.items()}


def mode_break(ctx, cfg, rec):
    L, R = cfg["L"], cfg["R"]
    tables = [np.array([[(1.0 + m) * 2.0 ** -l * (1 + (a >> l & 1)) for m in range(R)] for l in range(L)]) for a in range(2 ** L)]
    counts = np.array([40, 10, 5][:L])
    for a, b in itertools.product(range(len(tables)), repeat=2):
        if cfg["inst"] == 1 and a != b and not cfg["ref"]:
            continue
        p = plots.VarianceBreakdown(cfg["sub"])
        sub = list(range(1, R)) if cfg["sub"] is None else [int(i) for i in plots.moments_subset(R, cfg["sub"])]
        labels = []
        instances = [(tables[a], counts, tables[b] if cfg["ref"] else None)] + ([(tables[b], counts + 2, None)] if cfg["inst"] == 2 else [])
        xs_before = set()
        for V, N, ref in instances:
            nc = len(p.ax.containers)
            keep = V.copy()
            p.add_variances(V, N, ref_level_vars=ref)
            require(np.array_equal(V, keep), "the variances were changed", "variances changed")
            bars = [c for c in p.ax.containers[nc:] if isinstance(c, BarContainer)]
            st = stacks(p.ax, bars)
            xs = sorted(st)
            require(len(xs) == len(sub) + 1 and not (set(xs) & xs_before) and (not xs_before or xs[0] > max(xs_before)),
                    lambda: "positions %s after %s" % (xs, xs_before), "positions")
            xs_before |= set(xs)
            sel = V[:, sub] / N[:, None]
            cols = np.concatenate((sel.mean(axis=1)[:, None], sel), axis=1)
            for j, x in enumerate(xs):
                s = st[x]
                require(abs(s[0][0]) < 1e-12 and all(abs(s[i][1] - s[i + 1][0]) < 1e-9 for i in range(len(s) - 1)),
                        lambda: "the parts do not follow each other: %s" % s, "stack")
                require(close(sorted(t - q for q, t in s), sorted(cols[:, j])), lambda: "contributions %s instead of %s" % (s, cols[:, j]), "contributions")
            # the same level has one colour everywhere, and its error bars lead to the reference
            for c in bars:
                require(len({b_.get_facecolor() for b_ in c.patches}) == 1, "colours of a level", "colours")
            if ref is not None:
                refc = ref[:, sub] / N[:, None]
                refc = np.concatenate((refc.mean(axis=1)[:, None], refc), axis=1)
                got, want = [], []
                for c in bars:
                    for seg in [np.asarray(s_) for lc in c.errorbar.lines[2] for s_ in lc.get_segments()]:
                        got.append((round(float(seg[0][0]), 6), round(float(seg[:, 1].min()), 9), round(float(seg[:, 1].max()), 9)))
                for c in bars:
                    hs = [b_.get_height() for b_ in sorted(c.patches, key=lambda q: q.get_x())]
                    il = [i for i in range(L) if close(hs, cols[i])]
                    tops = [b_.get_y() + b_.get_height() for b_ in sorted(c.patches, key=lambda q: q.get_x())]
                    require(il, lambda: "bars of no level: %s" % hs, "contributions")
                    want.append([[(round(x, 6), round(min(t, t + r_ - h), 9), round(max(t, t + r_ - h), 9)) for x, t, h, r_ in zip(xs, tops, hs, refc[i])] for i in il])
                flat = [w for w in itertools.product(*want)]
                require(any(sorted(sum(w, [])) == sorted(got) or close(np.array(sorted(sum(w, []))), np.array(sorted(got)), 1e-6) for w in flat),
                        lambda: "error bars %s" % got, "error bars")
            labels += ["avg"] + [str(m) for m in sub]
        notes = [t.get_text().split() for t in p.ax.texts]
        for V, N, ref in instances:
            for l in range(L):
                require(["L%d" % l, str(N[l])] in notes, lambda: "level labels %s" % notes, "level labels")
        p.show("v")
        require([t.get_text() for t in p.ax.get_xticklabels()] == labels, lambda: "labels %s" % [t.get_text() for t in p.ax.get_xticklabels()], "labels")
        require(close(p.ax.get_xticks(), sorted(xs_before)), "ticks", "ticks")
        plt.close("all")
        ctx.step()
        ctx.state(("break", a, b))


def mode_vars(ctx, cfg, rec):
    steps = np.array([1.0, 0.5, 0.2, 0.1, 0.04])
    R = cfg["R"]
    for code in itertools.product((0, 1), repeat=5):
        p = plots.Variance(cfg["sub"])
        sub = list(range(1, R)) if cfg["sub"] is None else [int(i) for i in plots.moments_subset(R, cfg["sub"])]
        want = {m: [] for m in sub}
        for k in range(cfg["inst"]):
            st = steps * (1.0 + 0.5 * k)
            V = np.array([[(m + 1.0) * s * (1.0 + 0.25 * c) for m in range(R)] for s, c in zip(st, code)])
            p.add_level_variances(st, V)
            for m in sub:
                want[m] += list(zip(st, V[:, m]))
        p.show("w")
        require(rec.files[-1] == "w.pdf", "name of the file", "name of the file")
        sc = [c for c in p.ax.collections if isinstance(c, PathCollection)]
        require([c.get_label() for c in sc] == ["M%d" % m for m in sub], lambda: "labels %s" % [c.get_label() for c in sc], "variance labels")
        for c, m in zip(sc, sub):
            pts = np.asarray(c.get_offsets())
            require(close(pts[:, 1], [y for _, y in want[m]]) and close(pts[:, 0], [x for x, _ in want[m]], 0.1),
                    lambda: "variances of moment %d drawn at %s instead of %s" % (m, pts.tolist(), want[m]), "variances")
        for l in p.ax.lines:
            x = np.asarray(l.get_xdata(), dtype=float)
            lo, hi = min(x_ for m in sub for x_, _ in want[m]), max(x_ for m in sub for x_, _ in want[m])
            require(abs(x.min() - lo) < 1e-9 and abs(x.max() - hi) < 1e-9, lambda: "curve over %s" % ((x.min(), x.max()),), "curve")
        plt.close("all")
        ctx.step()
        ctx.state(("vars", code))


def mode_moments(ctx, cfg, rec):
    cls = {"Legendre": Legendre, "Monomial": Monomial, "Fourier": Fourier}[cfg["fam"]]
    for size in range(2, 7):
        fn = cls(size, cfg["dom"])
        for k in range(2, size + 1):
            plots.moments(fn, size=k, title="M", file="m")
            require(rec.files[-1] == "m.pdf", "name of the file", "name of the file")
            ax = plt.gcf().axes[0]
            cs = curves(ax)
            require(len(cs) == k, lambda: "%d curves of %d functions" % (len(cs), k), "number of curves")
            for i, (x, y) in enumerate(cs):
                require(abs(x[0] - cfg["dom"][0]) < 1e-9 and abs(x[-1] - cfg["dom"][1]) < 1e-9, "range of the curve", "range of the curve")
                require(close(y, np.asarray(fn.eval_all(x, k))[:, i], 1e-7), lambda: "curve of function %d of %d" % (i, k), "curve")
            plt.close("all")
            ctx.step()
            ctx.state(("moments", size, k))


def storage(L, ns):
    fmt = [QuantitySpec("q", "m", (1, 1), [0.0], ["a"])]
    st = Memory()
    st.save_global_data([[2.0 ** -l] for l in range(L)], fmt)
    vals = {}
    for l in range(L):
        vals[l] = [(np.array([100.0 * l + i + 0.25]), np.array([100.0 * l + i + 0.5 if l else 0.0])) for i in range(ns[l])]
        st.save_samples({l: [("L%02d_S%07d" % (l, i), v) for i, v in enumerate(vals[l])]}, {})
        st.save_n_ops([(l, (1.0 * ns[l], ns[l]))])
    return st, make_root_quantity(st, fmt)["q"][0.0]["a"][0], vals


class Frame(list):
    """Stand-in of pandas.DataFrame: rows (sample, type, level)"""
    def __init__(self, data=()):
        if isinstance(data, dict):
            n = max(len(v) for v in data.values() if not isinstance(v, str))
            cols = {k: [v] * n if isinstance(v, str) else list(v) for k, v in data.items()}
            data = [{k: cols[k][i] for k in cols} for i in range(n)]
        list.__init__(self, data)


def mode_violin(ctx, cfg, rec):
    L = cfg["L"]
    for ns in itertools.product((1, 2, 3, 5), repeat=L):
        st, q, vals = storage(L, ns)
        shown = []
        pd = types.ModuleType("pandas")
        pd.DataFrame = Frame
        pd.concat = lambda parts, axis=0, **kw: Frame([r for p in parts for r in p])
        vp = types.ModuleType("mlmc.plot.violinplot")
        vp.fine_coarse_violinplot = lambda frame: shown.append(list(frame))
        import mlmc.plot
        with mock.patch.dict(sys.modules, {"pandas": pd, "mlmc.plot.violinplot": vp}), mock.patch.object(mlmc.plot, "violinplot", vp, create=True):
            try:
                Estimate(q, st, Legendre(3, (0.0, 300.0))).fine_coarse_violinplot()
            except Exception as ex:
                require(False, "violin plot of levels with %s samples raised %r" % (ns, ex), "violin refused")
        require(len(shown) == 1, lambda: "shown %d times" % len(shown), "violin")
        groups = {}
        for r in shown[0]:
            groups.setdefault((r["level"], r["type"]), []).append(float(r["samples"]))
        seen = sorted((t, tuple(sorted(v))) for (lab, t), v in groups.items())
        want = sorted([("fine", tuple(float(v[0][0]) for v in vals[l])) for l in range(L - 1)]
                      + [("coarse", tuple(float(v[1][0]) for v in vals[l + 1])) for l in range(L - 1)])
        require(seen == want, lambda: "violins %s instead of %s" % (seen, want), "violin data")
        for l in range(L - 1):
            labs = [lab for (lab, t), v in groups.items() if sorted(v) in (sorted(float(x[0][0]) for x in vals[l]),
                                                                          sorted(float(x[1][0]) for x in vals[l + 1]))]
            require(len(set(labs)) == 1 and len(labs) == 2, lambda: "fine of %d and coarse of %d under labels %s" % (l, l + 1, labs), "violin labels")
        ctx.step()
        ctx.state(("violin", ns))


def mode_estimate(ctx, cfg, rec):
    """The breakdown drawn by the estimator: its bootstrap level variances over the sample vector"""
    L = cfg["L"]
    for R in (2, 3, 5, 12):
        for ns in itertools.product((6, 9), repeat=L):
            st, q, vals = storage(L, ns)
            made = []
            orig = plots.VarianceBreakdown.add_variances

            def spy(self, level_vars, n_samples, ref_level_vars=None):
                made.append((self, np.array(level_vars), np.array(n_samples)))
                return orig(self, level_vars, n_samples, ref_level_vars=ref_level_vars)
            with mock.patch.object(plots.VarianceBreakdown, "add_variances", spy):
                np.random.seed(3)
                vec = np.array([4] * L)
                e = Estimate(q, st, Legendre(R, (0.0, 300.0)))
                try:
                    e.plot_variances(vec)
                except Exception as ex:
                    require(False, "plot_variances with %d moments raised %r" % (R, ex), "plot_variances refused")
            require(len(made) == 1, "one breakdown", "plot_variances")
            p, V, N = made[0]
            require(np.array_equal(N, vec) and close(V, e.mean_bs_l_vars), "breakdown of other variances", "plot_variances")
            labels = [t.get_text() for t in p.ax.get_xticklabels()]
            k = min(10, R - 1)
            require(labels[0] == "avg" and len(labels) == k + 1 and [int(x) for x in labels[1:]] == sorted({int(x) for x in labels[1:]}),
                    lambda: "labels %s" % labels, "plot_variances")
            require(rec.files[-1:] == [None], "not shown", "plot_variances")
            plt.close("all")
            ctx.step()
            ctx.state(("estimate", R, ns))
