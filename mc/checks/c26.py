"""C26: the bundled flow simulation couples fine and coarse runs on one realisation determined by the seed, for every mesh pair and fault."""
import contextlib
import io
import itertools
import os
import re
import numpy as np
from mc.engine import require
import mlmc.tool.flow_mc as fm
from mlmc.random import correlated_field as cf
from mlmc.sampler import Sampler
from mlmc.sample_storage import Memory
from mlmc.sampling_pool import OneProcessPool

PROPERTY = "C26"
BOUNDS = {
    "quick": "1-3 levels over every assignment of 5 small meshes (unordered ids, boundary elements in between, centres aligned in one axis, two "
             "bulk regions), 5 field models, a probe field and fields restricted to regions; up to 3 samples per level in every order; every outcome (ok, no output, inflow, no "
             "outflow region, output cut short) of every solver call of up to 2 samples; restart over kept files at every position",
    "thorough": "every outcome of every solver call of up to 3 samples, up to 4 samples per level",
}
ASSUMPTIONS = ["gmsh and Flow123d are replaced by in-process stand-ins of subprocess.call that read and write the same files; the stand-in of the "
               "solver computes a fixed linear functional of the field it was given",
               "all meshes of one simulation have the same physical regions"]
OUTCOMES = ("ok", "no output", "inflow", "no outflow", "cut short")
TEMPLATE = "mesh: <mesh_file>\nfield: <conductivity>\nh1: <timestep_h1>\nh2: <timestep_h2>\nunused: $x\n"
ZONES = "frac: <frac>\nmat: <mat>\n"
REGIONS = [(1, 3, ".bc_outflow"), (1, 4, ".side"), (2, 1, "plane"), (2, 2, "fracture")]      # dimension, id, name


def grid(nx, ny, lx, ly, ids, bulk2=(), flip=False):
    """Mesh of quads cut to triangles; ids gives element ids in file order, boundary line in the middle"""
    nodes = {}
    for j in range(ny + 1):
        for i in range(nx + 1):
            nodes[10 * (j * (nx + 1) + i) + 1] = (lx * i / nx, ly * j / ny, 0.0)
    at = lambda i, j: 10 * (j * (nx + 1) + i) + 1
    tris = []
    for j in range(ny):
        for i in range(nx):
            tris.append((at(i, j), at(i + 1, j), at(i + 1, j + 1)))
            tris.append((at(i, j), at(i + 1, j + 1), at(i, j + 1)))
    if flip:
        tris = tris[::-1]
    elements = []
    for k, t in enumerate(tris):
        if k == len(tris) // 2:
            elements.append((9001, 1, 3, (at(0, 0), at(nx, 0))))
            elements.append((9000, 1, 4, (at(0, 0), at(0, ny))))
        elements.append((ids[k], 2, 2 if k in bulk2 else 1, t))
    return nodes, elements


def column():
    """Triangles with centres on one vertical line"""
    nodes = {1: (0.0, 0.0, 0.0), 2: (2.0, 0.0, 0.0), 3: (1.0, 1.0, 0.0), 4: (0.0, 2.0, 0.0), 5: (2.0, 2.0, 0.0)}
    return nodes, [(7, 1, 3, (1, 2)), (4, 2, 1, (1, 2, 3)), (2, 2, 1, (4, 5, 3))]


MESHES = {
    "two": grid(1, 1, 2.0, 2.0, [1, 2]),
    "mixed": grid(2, 1, 2.0, 2.0, [12, 3, 44, 5]),
    "regions": grid(2, 1, 2.0, 2.0, [4, 3, 2, 1], bulk2=(1, 3)),
    "column": column(),
    "same points": grid(2, 1, 2.0, 2.0, [101, 107, 103, 100], flip=True),
}


def centers(mesh):
    nodes, elements = mesh
    return {e: tuple(np.mean([nodes[n] for n in nn], axis=0)) for e, _, reg, nn in elements if reg not in (3, 4)}


def weight(p):
    return 1.0 + 0.25 * p[0] + 0.0625 * p[1]


def write_mesh(path, mesh):
    nodes, elements = mesh
    with open(path, "w") as f:
        f.write("$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$PhysicalNames\n%d\n" % len(REGIONS))
        f.writelines('%d %d "%s"\n' % r for r in REGIONS)
        f.write("$EndPhysicalNames\n$Nodes\n%d\n" % len(nodes))
        f.writelines("%d %r %r %r\n" % ((k,) + v) for k, v in nodes.items())
        f.write("$EndNodes\n$Elements\n%d\n" % len(elements))
        f.writelines("%d %d 2 %d %d %s\n" % (e, t, r, r + 20, " ".join(map(str, nn))) for e, t, r, nn in elements)
        f.write("$EndElements\n")


def read_field(path, name):
    """Own reader of element data: id -> value"""
    lines = open(path).read().split("\n")
    out = {}
    i = 0
    while i < len(lines):
        if lines[i].strip() == "$ElementData":
            i += 1
            block = []
            while lines[i].strip() != "$EndElementData":
                block.append(lines[i])
                i += 1
            k = int(block[0])
            names = [b.strip().strip('"') for b in block[1:1 + k]]
            block = block[1 + k:]
            k = int(block[0])
            block = block[1 + k:]
            k = int(block[0])
            n = int(block[k].split()[0])
            rows = [b.split() for b in block[1 + k:] if b.strip()]
            if names[0] == name:
                assert len(rows) == n, (len(rows), n)
                for r in rows:
                    assert len(r) == 2 and int(r[0]) not in out, r
                    out[int(r[0])] = float(r[1])
        i += 1
    return out


class World:
    """Stand-in of subprocess: gmsh and flow123d in process"""
    def __init__(self, ctx, steps, geo):
        self.ctx, self.steps, self.geo = ctx, steps, geo
        self.plan = None            # outcomes of the solver calls of the current sample or None = ok
        self.runs = []              # (mesh name, values, input dir, outcome)
        self.meshed = []
        self.u2 = {}

    def call(self, args, *a, **kw):
        args = [str(x) for x in args]
        if args[0] == "GMSH":
            out = args[args.index("-o") + 1]
            step = float(args[args.index("-clscale") + 1])
            geo = [x for x in args if x.endswith(".geo")]
            require(len(geo) == 1 and open(geo[0]).read() == self.geo, "gmsh called with the geometry %s" % geo, "geometry")
            require(step in self.steps, lambda: "gmsh called with step %s instead of %s" % (step, list(self.steps)), "gmsh step")
            self.meshed.append(step)
            write_mesh(out, MESHES[self.steps[step]])
            return 0
        require(args[0] == "FLOW", lambda: "unknown command %s" % args, "command")
        inp, sol, out = (args[args.index(o) + 1] for o in ("-i", "-s", "-o"))
        text = open(sol).read()
        require("<" not in text, lambda: "placeholders left in %s" % text, "placeholders")
        val = dict(l.split(": ", 1) for l in text.strip().split("\n"))
        require(val["unused"] == "$x", "unrelated text changed", "placeholders")
        mesh = open(val["mesh"]).read()
        step = [s for s in self.steps if "l_step_%s_common" % s in val["mesh"]]
        require(len(step) == 1, lambda: "mesh file %s" % val["mesh"], "mesh file")
        step = step[0]
        require(os.path.dirname(sol) == os.path.dirname(val["mesh"]), lambda: "input %s uses the mesh %s" % (sol, val["mesh"]), "mesh of another level")
        require(abs(float(val["h1"]) - 3.0 * step) < 1e-12 and abs(float(val["h2"]) - 3.0 * step ** 2) < 1e-12,
                lambda: "time steps %s, %s for the step %s" % (val["h1"], val["h2"], step), "time step")
        m = re.match(r"!FieldElementwise \{mesh_data_file: \$INPUT_DIR\$/(.*), field_name: (.*)\}$", val["field"])
        require(m is not None, lambda: "field input %s" % val["field"], "field input")
        values = read_field(os.path.join(inp, m.group(1)), m.group(2))
        name = self.steps[step]
        cen = centers(MESHES[name])
        require(set(values) == set(cen), lambda: "the solver on mesh '%s' got values of elements %s instead of %s" % (
            name, sorted(values), sorted(cen)), "elements")
        if "frac" in val:
            self.zones(inp, val, name, cen)
        outcome = "ok"
        if self.plan is not None:
            outcome = self.plan.pop(0) if self.plan else "ok"
        flux = -sum(weight(cen[e]) * v for e, v in values.items())
        self.runs.append((name, values, inp, outcome, -flux))
        if outcome == "no output":
            return 1
        items = [("plane", 0.0, 55.0, 44.0), (".bc_outflow", 0.0, flux, 1.0 if outcome == "inflow" else 0.0), ("fracture", 0.0, 7.0, 7.0),
                 (".bc_outflow", 1.0, 1e6, 0.0)]
        if outcome == "no outflow":
            items = [it for it in items if it[0] != ".bc_outflow"]
        body = "data:\n" + "".join("- {time: %r, region: %s, data: [%r, %r, 0.0]}\n" % (t, r, x, y) for r, t, x, y in items)
        if outcome == "cut short":
            body = body[:body.index(".bc_outflow")]
        with open(os.path.join(out, "water_balance.yaml"), "w") as f:
            f.write(body)
        return 0

    def zones(self, inp, val, name, cen):
        """Fields restricted to a region have values of the elements of the region and zeros elsewhere"""
        got = {}
        for key in ("frac", "mat"):
            m = re.match(r"!FieldElementwise \{mesh_data_file: \$INPUT_DIR\$/(.*), field_name: %s\}$" % key, val[key])
            require(m is not None, lambda: "field input %s" % val[key], "field input")
            got[key] = read_field(os.path.join(inp, m.group(1)), key)
            require(set(got[key]) == set(cen), lambda: "values of '%s' for elements %s" % (key, sorted(got[key])), "elements")
        region = {e: r for e, _, r, _ in MESHES[name][1]}
        for e in cen:
            require(got["frac"][e] == (5.0 if region[e] == 2 else 0.0), lambda: "mesh '%s': field of the region 'fracture' is %s, regions %s" % (
                name, got["frac"], region), "regions")
            if region[e] != 1:
                require(got["mat"][e] == 0.0, lambda: "mesh '%s': field of the region 'plane' is %s, regions %s" % (name, got["mat"], region), "regions")
                continue
            u = got["mat"][e] - float(code(np.array([cen[e]]))[0])
            v = self.u2.setdefault(inp, u)
            require(abs(u - v) < 1e-9 and -1e-9 <= u < 1 + 1e-9, lambda: "mesh '%s': field of the region 'plane' is %s" % (name, got["mat"]), "region values")

    def __getattr__(self, name):
        import subprocess
        return getattr(subprocess, name)


class Probe(cf.RandomFieldBase):
    """value = one draw of the numpy generator + code of the point"""
    def _initialize(self, **kwargs):
        pass

    def _sample(self):
        return np.random.uniform() + code(self.points)


def code(points):
    p = np.asarray(points)
    return 2.0 + 16.0 * p[:, 0] + 256.0 * p[:, 1]


def probe_fields(**kw):
    return cf.Fields([cf.Field("conductivity", Probe("gauss", dim=2, corr_length=1.0))])


def zone_fields(**kw):
    probe = Probe("gauss", dim=2, corr_length=1.0)
    return cf.Fields([cf.Field("conductivity", probe), cf.Field("unused", probe, regions="plane"), cf.Field("frac", 5.0, regions="fracture"),
                      cf.Field("mat", probe, regions=["plane"])])


MODELS = {"gauss": dict(model="gauss", corr_length=0.7, mode_no=20), "exp": dict(model="exp", corr_length=0.7, mode_no=20, log=False),
          "TPLexp": dict(model="TPLexp", corr_length=0.7, mode_no=20, sigma=2), "svd": dict(model="svd", corr_length=0.7),
          "fourier": dict(model="fourier", corr_length=0.7)}


def configs(tier):
    th = tier == "thorough"
    names = list(MESHES)
    cs = []
    for L in (1, 2, 3):
        for ms in itertools.product(names, repeat=L):
            if L == 3 and not th and len(set(ms)) < 3:
                continue
            cs.append({"mode": "levels", "meshes": list(ms), "model": "probe", "n": (3 if L < 3 else 2) + th})
    for ms in itertools.product(names, repeat=2):
        cs.append({"mode": "levels", "meshes": list(ms), "model": "zones", "n": 2 + th})
    for model in MODELS:
        for ms in itertools.product(["mixed", "same points", "column"], repeat=2):
            cs.append({"mode": "levels", "meshes": list(ms), "model": model, "n": 2 + th})
    for ms in (["two"], ["two", "mixed"], ["column", "mixed"]):
        cs.append({"mode": "faults", "meshes": ms, "model": "probe", "n": 3 if th else 2})
    for model in ("probe", "gauss", "svd"):
        for ms in (["two"], ["two", "mixed"], ["column", "mixed", "same points"]):
            for cut in range(0, 4):
                cs.append({"mode": "restart", "meshes": ms, "model": model, "cut": cut})
    return cs


STEPS = [1.0, 0.5, 0.25]


class Case:
    def __init__(self, ctx, cfg):
        self.cfg, self.dir = cfg, ctx.scratch()
        self.steps = dict(zip(STEPS, cfg["meshes"]))
        geo, tmpl = os.path.join(self.dir, "base.geo"), os.path.join(self.dir, "flow.tmpl")
        open(geo, "w").write("geometry %s" % cfg["meshes"])
        open(tmpl, "w").write(TEMPLATE + (ZONES if cfg["model"] == "zones" else ""))
        self.world = World(ctx, self.steps, "geometry %s" % cfg["meshes"])
        self.config = dict(env=dict(gmsh="GMSH", flow123d="FLOW", gmsh_version=len(cfg["meshes"])), fields_params=MODELS.get(cfg["model"], {}),
                           yaml_file=tmpl, geo_file=geo, work_dir=os.path.join(self.dir, "work"), time_factor=3.0)
        os.makedirs(self.config["work_dir"], exist_ok=True)

    def sampler(self, clean, storage=None):
        sim = fm.FlowSim(config=self.config, clean=clean)
        pool = OneProcessPool(work_dir=os.path.join(self.dir, "pool"), debug=False)
        return Sampler(sample_storage=storage or Memory(), sampling_pool=pool, sim_factory=sim,
                       level_parameters=[[s] for s in STEPS[:len(self.cfg["meshes"])]])


@contextlib.contextmanager
def world(case):
    sub, make, cwd = fm.subprocess, fm.create_corr_field, os.getcwd()
    fm.subprocess = case.world
    case.world.u2.clear()
    if case.cfg["model"] in ("probe", "zones"):
        fm.create_corr_field = probe_fields if case.cfg["model"] == "probe" else zone_fields
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            yield
    finally:
        fm.subprocess, fm.create_corr_field = sub, make
        os.chdir(cwd)


def run_level(case, s, counts):
    """Schedules the counts and returns per level list of (fine, coarse) in the order of ids, and number of failed"""
    s.set_level_target_n_samples(counts)
    s.schedule_samples(timeout=0)
    n = -1
    for _ in range(1000):
        n = s.ask_sampling_pool_for_samples(timeout=1e-15)
        if n == 0:
            break
    return [np.asarray(p) for p in s.sample_storage.sample_pairs()]


def check_runs(ctx, case, runs, pairs, level, what):
    """runs: solver calls of the level in order; pairs: stored results (components, samples, fine/coarse)"""
    two = level > 0
    per = 2 if two else 1
    require(len(runs) == per * pairs.shape[1], lambda: "%d solver runs for %d samples on level %d; %s" % (len(runs), pairs.shape[1], level, what), "runs")
    seen = []
    for i in range(pairs.shape[1]):
        mine = runs[per * i: per * (i + 1)]
        kinds = [r[0] for r in mine]
        want = [case.cfg["meshes"][level]] + ([case.cfg["meshes"][level - 1]] if two else [])
        require(kinds == want, lambda: "sample %d on level %d was solved on meshes %s instead of %s; %s" % (i, level, kinds, want, what), "meshes")
        require(len({r[2] for r in mine}) == 1, lambda: "runs of one sample in %s" % [r[2] for r in mine], "directory")
        require(pairs[0, i, 0] == mine[0][4], lambda: "fine result %r instead of %r; %s" % (pairs[0, i, 0], mine[0][4], what), "fine result")
        if two:
            require(pairs[0, i, 1] == mine[1][4], lambda: "coarse result %r instead of %r (fine %r); %s" % (
                pairs[0, i, 1], mine[1][4], mine[0][4], what), "coarse result")
        seen.append(realisation(case, mine, what))
        ctx.step()
    keys = [tuple(sorted(np.round(list(s.values()), 12))) for s in seen]
    require(len(set(keys)) == len(keys), lambda: "two samples of level %d have the same realisation; %s" % (level, what), "same realisation")
    return seen


def realisation(case, runs, what):
    """Both runs see the same realisation: point -> value"""
    real = {}
    for name, values, *_ in runs:
        cen = centers(MESHES[name])
        if case.cfg["model"] in ("probe", "zones"):
            u = {e: values[e] - float(code(np.array([cen[e]]))[0]) for e in values}
            us = list(u.values())
            require(max(us) - min(us) < 1e-9 and 0 <= us[0] < 1 + 1e-9, lambda: "values %s of mesh '%s' do not belong to its elements; %s" % (values, name, what), "element values")
            real.setdefault("u", us[0])
            require(abs(real["u"] - us[0]) < 1e-9, lambda: "fine and coarse runs have different realisations; %s" % what, "coupling")
        else:
            for e, v in values.items():
                p = tuple(np.round(cen[e], 9))
                w = real.setdefault(p, v)
                require(abs(w - v) <= 1e-3 * max(1.0, abs(w)), lambda: "value %r of the field at %s in one run and %r in the other; %s" % (w, p, v, what), "coupling")
    return real


def tree(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            out[os.path.relpath(p, d)] = open(p, "rb").read()
    return out


def run(ctx):
    cfg = ctx.config
    case = Case(ctx, cfg)
    with world(case):
        globals()["mode_" + cfg["mode"]](ctx, cfg, case)


def play(ctx, cfg, case, s, counts, before=None):
    L = len(counts)
    what = "meshes %s, %s field" % (cfg["meshes"], cfg["model"])
    start = [0] * L if before is None else before
    case.world.runs.clear()
    pairs = run_level(case, s, counts)
    real = []
    runs = list(case.world.runs)
    for l in range(L):
        require(pairs[l].ndim == 3 and pairs[l].shape[1] == counts[l], lambda: "level %d has samples %s instead of %d; %s" % (
            l, pairs[l].shape, counts[l], what), "number of results")
        n = counts[l] - start[l]
        per = 1 if l == 0 else 2
        mine, runs = runs[:per * n], runs[per * n:]
        real.append(check_runs(ctx, case, mine, pairs[l][:, start[l]:], l, what))
    require(not runs, lambda: "%d solver runs too many; %s" % (len(runs), what), "runs")
    return pairs, real


def close(a, b):
    return set(a) == set(b) and all(abs(a[k] - b[k]) <= 1e-9 * max(1.0, abs(a[k])) for k in a)


def mode_levels(ctx, cfg, case):
    L, n = len(cfg["meshes"]), cfg["n"]
    what = "meshes %s, %s field" % (cfg["meshes"], cfg["model"])
    np.random.seed(1)
    s = case.sampler(True)
    require(case.world.meshed == STEPS[:L], lambda: "meshes made for steps %s; %s" % (case.world.meshed, what), "meshes made")
    pairs, real = play(ctx, cfg, case, s, [n] * L)
    # the same samples scheduled one by one with a different state of the generator
    np.random.seed(12345)
    case.world.meshed.clear()
    s2 = case.sampler(True)
    got = [[] for _ in range(L)]
    for k in range(1, n + 1):
        np.random.uniform(size=k)
        p2, r2 = play(ctx, cfg, case, s2, [k] * L, [k - 1] * L)
        for l in range(L):
            got[l] += r2[l]
    for l in range(L):
        for i in range(n):
            require(close(real[l][i], got[l][i]), lambda: "sample %d of level %d is not determined by its id; %s" % (i, l, what), "reproducible")
        require(np.allclose(p2[l], pairs[l], rtol=1e-9), lambda: "results of level %d are not determined by ids; %s" % (l, what), "reproducible")
    ctx.state((tuple(cfg["meshes"]), cfg["model"]))


def mode_restart(ctx, cfg, case):
    L, cut = len(cfg["meshes"]), cfg["cut"]
    what = "meshes %s, %s field, restart after %d samples" % (cfg["meshes"], cfg["model"], cut)
    s = case.sampler(True)
    pairs, real = play(ctx, cfg, case, s, [3] * L)
    work = case.config["work_dir"]
    st = Memory()
    s1 = case.sampler(True, st)
    a = play(ctx, cfg, case, s1, [cut] * L)[1] if cut else [[] for _ in range(L)]
    before = tree(work)
    case.world.meshed.clear()
    s2 = case.sampler(False, st)
    require(not case.world.meshed, lambda: "meshes made again; %s" % what, "kept meshes")
    require(tree(work) == before, lambda: "common files changed; %s" % what, "kept files")
    b = play(ctx, cfg, case, s2, [3] * L, [cut] * L)
    for l in range(L):
        r = a[l] + b[1][l]
        for i in range(3):
            require(close(real[l][i], r[i]), lambda: "sample %d of level %d differs after the restart; %s" % (i, l, what), "restart")
    ctx.state((tuple(cfg["meshes"]), cfg["model"], cut))


def mode_faults(ctx, cfg, case):
    """Every outcome of every solver call of the last level"""
    L, n = len(cfg["meshes"]), cfg["n"]
    l = L - 1
    s = case.sampler(True)
    ref = play(ctx, cfg, case, s, [n] * L)[0][l]
    s = case.sampler(True)
    if l:
        run_level(case, s, [n] * l + [0])
    plan, outcome = [], []
    for i in range(n):
        fine = ctx.pick(OUTCOMES, "fine outcome")
        plan.append(fine)
        if l and fine == "ok":
            coarse = ctx.pick(OUTCOMES, "coarse outcome")
            plan.append(coarse)
            fine = coarse
        outcome.append(fine)
    case.world.plan = list(plan)
    pairs = run_level(case, s, [n] * L)[l]
    case.world.plan = None
    good = [i for i in range(n) if outcome[i] == "ok"]
    st = s.sample_storage
    what = "outcomes %s on meshes %s" % (plan, cfg["meshes"])
    require(st.n_finished()[l] == n, lambda: "%s finished samples instead of %d; %s" % (st.n_finished(), n, what), "finished")
    cols = pairs.shape[1] if pairs.ndim == 3 else 0
    require(cols == len(good), lambda: "%d successful samples instead of %d; %s" % (cols, len(good), what), "failed sample")
    for j, i in enumerate(good):
        require(np.allclose(pairs[:, j], ref[:, i], rtol=1e-9), lambda: "sample %d gives %s instead of %s; %s" % (i, pairs[:, j], ref[:, i], what), "result next to a failure")
    ctx.step()
    ctx.state((tuple(cfg["meshes"]), tuple(outcome)))
