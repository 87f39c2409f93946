"""C16: sample allocation over all small grids of variances, costs and targets against the Lagrange optimum."""
import itertools
import numpy as np
from mc.engine import require
from mlmc import estimator as es

PROPERTY = "C16"
BOUNDS = {
    "quick": "1-3 levels, 1-3 moments (the first one constant), all variances from {0, 1e-6, 0.02, 1, 50}, all costs from {0.01, 1, 300}, targets "
             "{1e-5, 1e-3, 0.1, 10}; 4 and 6 levels on geometric sequences; step ranges {(1, 0.01), (0.1, 0.001), (100, 2), (1, 0.9)} with 1-8 levels",
    "thorough": "4 levels, 8 targets",
}
ASSUMPTIONS = ["costs are positive"]
V = [0.0, 1e-6, 0.02, 1.0, 50.0]
C = [0.01, 1.0, 300.0]
T = [1e-5, 1e-3, 0.1, 10.0]


def configs(tier):
    cs = [{"kind": "params"}, {"kind": "long"}]
    Ls = (1, 2, 3)
    for L in Ls:
        for cost in itertools.product(C, repeat=L):
            cs.append({"kind": "grid", "costs": list(cost), "targets": T if tier == "quick" else T + [1e-7, 1e-4, 1e-2, 1.0], "wide": tier == "thorough"})
    if tier == "thorough":
        for cost in itertools.product(C, repeat=4):
            cs.append({"kind": "grid", "costs": list(cost), "targets": T, "wide": False})
    return cs


def verify(ctx, target, v, cost):
    v, cost = np.asarray(v, dtype=float), np.asarray(cost, dtype=float)
    L = len(cost)
    v0, c0 = v.copy(), list(cost)
    n = es.estimate_n_samples_for_target_variance(target, v, c0, n_levels=L)
    what = lambda: "target %s, variances %s, costs %s: %s" % (target, v0.tolist(), c0, np.asarray(n).tolist())
    require(np.array_equal(v, v0) and c0 == list(cost), lambda: what() + " inputs changed", "inputs changed")
    n = np.asarray(n)
    require(n.shape == (L,) and np.issubdtype(n.dtype, np.integer), what, "shape")
    require((n >= 2).all(), what, "minimum")
    opt = np.sqrt(v / cost[:, None]) * np.sum(np.sqrt(v * cost[:, None]), axis=0)[None, :] / target      # L x R
    best = opt.max(axis=1)
    for r in range(v.shape[1]):
        tot = float(np.sum(v[:, r] / n))
        require(tot <= target * (1 + 1e-9), lambda: what() + " gives variance %s of moment %d" % (tot, r), "target variance")
    require((n <= np.maximum(2, best * (1 + 1e-9) + 1)).all(), lambda: what() + " instead of %s" % best, "more than the optimum")
    require((n >= best * (1 - 1e-9) - 1).all(), lambda: what() + " instead of %s" % best, "less than the optimum")
    ctx.step()
    return n


def run(ctx):
    cfg = ctx.config
    if cfg["kind"] == "params":
        return params(ctx)
    if cfg["kind"] == "long":
        return long(ctx)
    cost = cfg["costs"]
    L = len(cost)
    for mom in itertools.product(V, repeat=L):
        for second in ([None, mom[::-1]] + [tuple(x * k for x in mom) for k in (0.01, 7.0)] + [tuple(mom[(i + 1) % L] * 3 for i in range(L))]):
            cols = [np.zeros(L), np.array(mom)] + ([np.array(second)] if second is not None else [])
            if L == 1 and second is None:
                verify(ctx, 0.1, np.array(mom)[:, None], cost)
            last = None
            for t in sorted(cfg["targets"], reverse=True):
                n = verify(ctx, t, np.stack(cols, axis=1), cost)
                require(np.array_equal(n, verify(ctx, t, np.stack(cols[::-1], axis=1), cost)), lambda: "order of moments changes the numbers of samples for "
                        "%s, %s, target %s" % (cols, cost, t), "order of moments")
                if last is not None:
                    require((n >= last).all(), lambda: "fewer samples for a smaller target %s: %s after %s, variances %s, costs %s" % (
                        t, n, last, cols, cost), "monotone")
                last = n
        ctx.state((cost, mom))


def long(ctx):
    for L in (4, 6):
        for dv, dc in itertools.product((0.1, 0.5, 0.9, 1.0, 2.0), (0.5, 1.0, 2.0, 10.0)):
            v1 = np.array([dv ** l for l in range(L)])
            v = np.stack([np.zeros(L), v1, v1 * 4, v1[::-1]], axis=1)
            c = [dc ** l for l in range(L)]
            for t in (1e-6, 1e-3, 0.5):
                verify(ctx, t, v, c)
            ctx.state((L, dv, dc))


def params(ctx):
    # initial numbers of samples: one or two values stand for a geometric sequence, a full vector for itself
    for L in range(1, 9):
        for arg in [None] + [k(x) for x in (1, 5, 100, 2000) for k in (int, float, lambda x: [x])] + \
                [list(x) for x in itertools.product((1, 3, 8, 50, 1000), repeat=2)] + [np.array([40, 5])]:
            n = np.asarray(es.determine_n_samples(L) if arg is None else es.determine_n_samples(L, arg))
            a = [100, 3] if arg is None else [float(x) for x in np.atleast_1d(arg)]
            a = a if len(a) == 2 else [a[0], 3]
            want = [a[0] * (a[1] / a[0]) ** (l / (L - 1) if L > 1 else 0.0) for l in range(L)]
            require(n.shape == (L,) and np.all(np.abs(n - want) <= 0.5 + 1e-9), lambda: "%s on %d levels gives %s instead of %s" % (arg, L, n, want),
                    "initial samples")
            ctx.step()
        if L > 2:
            v = [3 * L - l * l for l in range(L)]
            require([int(x) for x in es.determine_n_samples(L, list(v))] == v, lambda: "%s on %d levels" % (v, L), "initial vector")
    for rng in ((1.0, 0.01), (0.1, 0.001), (100.0, 2.0), (1.0, 0.9), (1, 0.5)):
        for L in range(1, 9):
            for fn in (lambda: es.determine_level_parameters(L, list(rng)), lambda: es.calc_level_params(list(rng), L)):
                p = [float(np.squeeze(x)) for x in fn()]
                require(len(p) == L, "%s levels: %s" % (L, p), "params count")
                if L == 1:
                    require(abs(p[0] - rng[1]) < 1e-12, "single level %s" % p, "params single")
                    continue
                require(abs(p[0] - rng[0]) < 1e-12 * rng[0] and abs(p[-1] - rng[1]) < 1e-12 * rng[0], "%s: %s" % (rng, p), "params ends")
                q = [b / a for a, b in zip(p, p[1:])]
                require(max(q) - min(q) < 1e-9 and max(q) < 1, "%s: ratios %s" % (rng, q), "params geometric")
                ctx.step()
                ctx.state((rng, L))
