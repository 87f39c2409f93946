"""C30: the statistical helpers decide by the significance level, for every small sample set."""
import itertools
from fractions import Fraction
from unittest import mock
import numpy as np
from scipy import special
from mc.engine import require
from mlmc.tool import stats_tests as stt

PROPERTY = "C30"
BOUNDS = {
    "quick": "t and chi-square test: every multiset of 2-5 values of {0, 0.5, 1, 2, 7} in two orders and as list or array x 5 reference values x 4 levels; "
             "analysis of variance: every 2 or 3 groups of 2-3 values; sets of 50 and 400 values",
    "thorough": "multisets of up to 7 values, groups of up to 4 values",
}
ASSUMPTIONS = ["decisions closer than 1e-9 to the significance level are not compared", "sample sets without any variance are left out"]
VALS = [0.0, 0.5, 1.0, 2.0, 7.0]
LEVELS = [None, 0.001, 0.2, 0.6]


def configs(tier):
    th = tier == "thorough"
    return ([{"mode": m, "n": n} for m in ("t", "chi2") for n in range(2, (7 if th else 5) + 1)] + [{"mode": m, "n": n} for m in ("t", "chi2") for n in (50, 400)]
            + [{"mode": "anova", "groups": g, "n": n} for g in (2, 3) for n in ((2, 3, 4) if th else (2, 3))])


def sets(n):
    if n <= 7:
        return [list(c) for c in itertools.combinations_with_replacement(VALS, n) if len(set(c)) > 1]
    return [[(i * k % 17) / 4.0 + s for i in range(n)] for k in (1, 3, 5) for s in (0.0, 0.4)]


def passes(fn, *args, **kw):
    try:
        with mock.patch("builtins.print"):
            fn(*args, **kw)
        return True
    except AssertionError:
        return False


def t_pval(mu, s):
    f = [Fraction(x) for x in s]
    n = len(f)
    m = sum(f) / n
    v = sum((x - m) ** 2 for x in f) / (n - 1)
    t2 = float((m - Fraction(mu)) ** 2 * n / v)
    return float(special.betainc((n - 1) / 2.0, 0.5, (n - 1) / (n - 1 + t2)))


def chi2_pval(var, s):
    f = [Fraction(x) for x in s]
    n = len(f)
    m = sum(f) / n
    c = special.gammainc((n - 1) / 2.0, float(sum((x - m) ** 2 for x in f) / Fraction(var)) / 2.0)
    return 2 * min(c, 1 - c)


def anova_pval(groups):
    g = [[Fraction(x) for x in s] for s in groups]
    n, k = sum(map(len, g)), len(g)
    m = sum(map(sum, g)) / n
    ms = [sum(s) / len(s) for s in g]
    between = sum(len(s) * (a - m) ** 2 for s, a in zip(g, ms)) / (k - 1)
    within = sum((x - a) ** 2 for s, a in zip(g, ms) for x in s) / (n - k)
    if within == 0:
        return None
    F = float(between / within)
    return float(special.betainc((n - k) / 2.0, (k - 1) / 2.0, (n - k) / (n - k + (k - 1) * F)))


def run(ctx):
    import warnings
    warnings.simplefilter("ignore")
    cfg = ctx.config
    if cfg["mode"] == "anova":
        sub = [list(c) for c in itertools.combinations_with_replacement(VALS[:4] if cfg["groups"] == 3 else VALS, cfg["n"])]
        for g in itertools.product(sub, repeat=cfg["groups"]):
            g = list(g)
            if cfg["groups"] == 2:
                g[1] = g[1] + [3.0]                      # groups of different sizes
            p = anova_pval(g)
            if p is None or abs(p - 0.05) < 1e-9:
                continue
            with mock.patch("builtins.print"):
                got = stt.anova([np.array(x) for x in g])
            require(got is (p > 0.05) or got == (p > 0.05), lambda: "anova of %s is %s with p-value %s" % (g, got, p), "anova")
            ctx.step()
            ctx.state(("anova", got))
        return
    fn, oracle = (stt.t_test, t_pval) if cfg["mode"] == "t" else (stt.chi2_test, chi2_pval)
    for s in sets(cfg["n"]):
        for ref in ((0.0, 0.75, 1.0, 3.0, -2.0) if cfg["mode"] == "t" else (0.01, 0.5, 1.0, 4.0, 20.0)):
            p = oracle(ref, s)
            for a in LEVELS:
                if abs(p - (0.01 if a is None else a)) < 1e-9:
                    continue
                for data in (list(s), np.array(s[::-1])):
                    got = passes(fn, ref, data, **({} if a is None else {"max_p_val": a}))
                    require(got == (p > (0.01 if a is None else a)), lambda: "%s test of %s against %s with level %s %s, p-value %s" % (
                        cfg["mode"], s, ref, a, "passed" if got else "failed", p), cfg["mode"])
                    ctx.step()
                    ctx.state((cfg["mode"], ref, a, got))
