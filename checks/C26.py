"""make_quick_mosaic: three components on one grid, every cell split into its land and its sea."""
import copy
import os
import numpy as np
from hypothesis import strategies as st
from vlib.engine import Violation
from vlib import grid, cs, freg, ncio, sph
from vlib.ncio import DS
from checks.C21 import draw_axis

ID = "C26"
QUICK, THOROUGH = 700, 30000
RULE = ("Generated solo mosaics (one to four longitude-latitude tiles, or a cubed sphere) with topography, ocean fractions or land fractions, and coupler mosaics with exchange grids; "
        "masks, exchange grids, copies and the coupler mosaic are compared with a model; non-trivial = land, sea and (where the input has fractions) partial cells occur.")
ASSUMPTIONS = ["grid cells are lon-lat polygons (no great_circle_algorithm, which the tool does not know)", "no depth equals the sea level", "ocean fractions in a topography file are 0 or 1"]
R = 6371.0e3


def strategy(tier):
    @st.composite
    def s(draw):
        c = dict(seed=draw(st.integers(0, 2 ** 20)), mode=draw(st.sampled_from(["depth", "area_frac", "lfrac", "lfrac", "couple", "couple"])))
        if draw(st.integers(0, 3)):
            c["kind"] = "ll"
            nt = draw(st.sampled_from([1, 1, 2, 3, 4]))
            c["tiles"] = [[draw_axis(draw, draw(st.integers(1, 7)), -180, 360, 5, 60), draw_axis(draw, draw(st.integers(1, 7)), -90, 90, 5, 40)] for _ in range(nt)]
        else:
            c["kind"] = "cube"
            c["n"] = draw(st.sampled_from([2, 4, 6]))
        c["names"] = draw(st.sampled_from(["tile", "tile", "face"]))
        c["sea"] = draw(st.sampled_from([None, None, 0.0, 10.5, -3.0]))
        c["fr"] = draw(st.sampled_from([[0.4, 0.4, 0.2], [0.1, 0.8, 0.1], [0.8, 0.1, 0.1], [0.2, 0.2, 0.6], [0, 1, 0], [1, 0, 0]]))
        c["name"] = draw(st.sampled_from([None, "quick", "my_mosaic"]))
        c["ext"] = draw(st.booleans())
        c["dtype"] = draw(st.sampled_from(["double", "float"]))
        c["long"] = draw(st.integers(0, 5)) == 0
        c["order"] = draw(st.booleans())
        return c
    return s()


def run(c, ctx):
    c = copy.deepcopy(c)
    rng = np.random.default_rng(c["seed"])
    d = ctx.path("src" + ("_" + "x" * 180 if c["long"] else ""))
    wd = ctx.path("work")
    os.makedirs(d); os.makedirs(wd)
    solo = "land_mosaic" if c["mode"] == "couple" else "atmos_mosaic"
    if c["kind"] == "cube":
        tiles, con = cs.cube(c["n"])
        cs.write(d, solo, tiles, con)
        tn = ["tile%d" % (t + 1) for t in range(6)]
        gf = ["%s_grid.%s.nc" % (solo, t) for t in tn]
    else:
        tiles = [np.meshgrid(freg.mid(a), freg.mid(b)) for a, b in c["tiles"]]
        tn = ["%s%d" % (c["names"], t + 1) for t in range(len(tiles))]
        gf = ["%s_grid.%s.nc" % (solo, t) for t in tn]
        for f, t, (x, y) in zip(gf, tn, tiles):
            grid.hgrid(os.path.join(d, f), x, y, t)
        grid.mosaic(os.path.join(d, solo + ".nc"), solo, gf, tn)
    nt = len(tiles)
    area = []
    for x, y in tiles:
        if c["kind"] == "ll":
            area.append(sph.box(x[:1, :-2:2], y[:-2:2, :1], x[:1, 2::2], y[2::2, :1]))
        else:
            lo, la = cs.cells(x[::2, ::2], y[::2, ::2])
            area.append(np.array([cs.moments(cs.llpoly(lo[k], la[k]), 0)[0] * R * R for k in np.ndindex(lo.shape[:2])]).reshape(lo.shape[:2]))
    part = c["mode"] in ("lfrac", "couple")
    land, raw = [], []
    sea = c["sea"] or 0.0
    for a in area:
        k = rng.choice(3, a.shape, p=c["fr"])
        f = np.where(k == 0, 0.0, np.where(k == 1, 1.0, rng.choice([0.01, 0.25, 0.5, 0.75, 0.99], a.shape) if part else rng.integers(0, 2, a.shape)))
        if c["dtype"] == "float":
            f = f.astype("f4").astype("f8")
        land.append(f)
        raw.append(f)
    args = []
    if c["mode"] in ("depth", "area_frac"):
        ds = DS()
        ds.add_dim("ntiles", nt)
        for t, f in enumerate(land):
            suf = "" if nt == 1 else "_tile%d" % (t + 1)
            ds.add_dim("nx" + suf, f.shape[1]); ds.add_dim("ny" + suf, f.shape[0])
            dep = np.where(f == 1, sea - rng.choice([0.5, 10, 300], f.shape), sea + rng.choice([0.5, 10, 4000], f.shape))
            dims = ("ny" + suf, "nx" + suf)
            if c["mode"] == "depth" or rng.random() < 0.5:
                ds.add("depth" + suf, c["dtype"], dims, dep if c["mode"] == "depth" else rng.permutation(dep.ravel()).reshape(dep.shape), units="meters")
            if c["mode"] == "area_frac":
                ds.add("area_frac" + suf, c["dtype"], dims, 1 - f)
        ds.write(os.path.join(wd, "topog.nc"))
        args = ["--ocean_topog", "topog.nc"]
        if c["sea"] is not None:
            args += ["--sea_level", repr(c["sea"])]
    elif c["mode"] == "lfrac":
        for t, f in enumerate(land):
            ds = DS()
            ds.add_dim("lat", f.shape[0]); ds.add_dim("lon", f.shape[1])
            ds.add("lf", c["dtype"], ("lat", "lon"), f)
            ds.write(os.path.join(d, "frac.nc" if nt == 1 else "frac.tile%d.nc" % (t + 1)))
        args = ["--land_frac_file", os.path.join(d, "frac" + (".nc" if nt == 1 or c["ext"] else "")), "--land_frac_field", "lf"]
    else:
        files = []
        for t, f in enumerate(land):
            # with one land tile the atmosphere may have several; otherwise file n belongs to land tile n
            p = [[] for _ in range(1 + int(rng.integers(3)) if nt == 1 else 1)]
            for j, i in np.argwhere(f > 0):
                w = rng.dirichlet(np.ones(len(p)))
                for m in range(len(p)):
                    for u in ([1.0] if rng.random() < 0.5 else [0.3, 0.7]):
                        p[m].append((i + 1, j + 1, u * w[m] * f[j, i] * area[t][j, i]))
            for m, e in enumerate(p):
                if not e:
                    return ctx.nontrivial(False)
                q = DS()
                q.add_dim("string", 255); q.add_dim("ncells", len(e)); q.add_dim("two", 2)
                q.add("contact", "char", ("string",), grid.chars("atmos_mosaic:tile%d::%s:%s" % (t + m + 1, solo, tn[t])))
                q.add("tile1_cell", "int", ("ncells", "two"), rng.integers(1, 4, (len(e), 2)))
                q.add("tile2_cell", "int", ("ncells", "two"), np.array([v[:2] for v in e]))
                q.add("xgrid_area", "double", ("ncells",), [v[2] for v in e], units="m2")
                g = "old_tile%dX%s_%s.nc" % (t + m + 1, solo, tn[t])
                q.write(os.path.join(d, g))
                files.append(g)
        q = DS()
        q.add_dim("string", 255); q.add_dim("nfile_aXl", len(files))
        q.add("lnd_mosaic_file", "char", ("string",), grid.chars(solo + ".nc"))
        q.add("lnd_mosaic", "char", ("string",), grid.chars(solo))
        q.add("aXl_file", "char", ("nfile_aXl", "string"), np.array([grid.chars(f) for f in files]))
        q.write(os.path.join(d, "old_spec.nc"))
    args = ["--input_mosaic", os.path.join(d, "old_spec.nc" if c["mode"] == "couple" else solo + ".nc")] + args
    if c["name"]:
        args += ["--mosaic_name", c["name"]]
    if c["long"]:
        args += ["--sea_level", repr(sea)] * 30
    ctx.ok("make_quick_mosaic", *args, cwd=wd)
    rd = lambda f: ncio.read(os.path.join(wd, f))
    have = sorted(os.listdir(wd))
    exp = [(c["name"] or "mosaic") + ".nc", solo + ".nc"] + gf + (["topog.nc"] if c["mode"] in ("depth", "area_frac") else [])
    pair = {"aXl": ("atmos", "land"), "aXo": ("atmos", "ocean"), "lXo": ("land", "ocean")}
    xf = {k: ["%s_mosaic_%sX%s_mosaic_%s.nc" % (a, t, b, t) for t in tn] for k, (a, b) in pair.items()}
    mk = {k: [("%s_mask.nc" % k) if nt == 1 else "%s_mask_tile%d.nc" % (k, t + 1) for t in range(nt)] for k in ("land", "ocean")}
    exp += sum(xf.values(), []) + sum(mk.values(), [])
    if have != sorted(exp):
        raise Violation("files written %s, expected %s" % (have, sorted(exp)))
    for f in [solo + ".nc"] + gf:
        if open(os.path.join(wd, f), "rb").read() != open(os.path.join(d, f), "rb").read():
            raise Violation("%s is not a copy of the input" % f)
    # coupler mosaic
    m = rd((c["name"] or "mosaic") + ".nc")
    txt = lambda v: grid.text(np.atleast_2d(v))[0]
    for comp, nm in (("atm", "atmos"), ("lnd", "land"), ("ocn", "ocean")):
        for k, e in (("_mosaic_dir", "./"), ("_mosaic_file", solo + ".nc"), ("_mosaic", nm + "_mosaic")):
            if txt(m.vars[comp + k].data) != e:
                raise Violation("%s%s is %r, expected %r" % (comp, k, txt(m.vars[comp + k].data), e))
    if c["mode"] in ("depth", "area_frac"):
        for k, e in (("ocn_topog_file", "topog.nc"), ("ocn_topog_dir", "./")):
            if txt(m.vars[k].data) != e:
                raise Violation("%s is %r, expected %r" % (k, txt(m.vars[k].data), e))
    for k, fs in xf.items():
        got = [txt(v) for v in m.vars[k + "_file"].data]
        if got != fs:
            raise Violation("%s_file lists %s, expected %s" % (k, got, fs))
    for t in range(nt):
        tol = 1e-6
        for k, f in (("land", land[t]), ("ocean", 1 - land[t])):
            g = rd(mk[k][t]).vars["mask"].data
            if g.shape != f.shape or not (np.abs(g - f) <= tol).all():
                raise Violation("%s mask of tile %d is %s, expected %s" % (k, t + 1, g.tolist(), f.tolist()))
        for k, (a, b) in pair.items():
            f = land[t] if k == "aXl" else 1 - land[t]
            x = rd(xf[k][t])
            want = {(i + 1, j + 1): f[j, i] * area[t][j, i] for j, i in np.argwhere(f > 0)}
            if txt(x.vars["contact"].data) != "%s_mosaic:%s::%s_mosaic:%s" % (a, tn[t], b, tn[t]):
                raise Violation("contact of %s is %r" % (xf[k][t], txt(x.vars["contact"].data)))
            c1, c2 = x.vars["tile1_cell"].data, x.vars["tile2_cell"].data
            if (c1 != c2).any():
                raise Violation("%s joins different cells" % xf[k][t])
            got = {}
            for q, v in zip(c1, x.vars["xgrid_area"].data):
                if tuple(q) in got:
                    raise Violation("%s has cell %s twice" % (xf[k][t], q))
                got[tuple(int(z) for z in q)] = v
            if set(got) != set(want):
                raise Violation("%s has cells %s, expected %s" % (xf[k][t], sorted(got), sorted(want)))
            for q in want:
                if abs(got[q] - want[q]) > 1e-6 * area[t][q[1] - 1, q[0] - 1]:
                    raise Violation("%s: area of cell %s is %r, expected %r" % (xf[k][t], q, got[q], want[q]))
            for q in ("tile1_distance", "tile2_distance"):
                if (x.vars[q].data != 0).any():
                    raise Violation("%s of %s is not zero" % (q, xf[k][t]))
    al = np.concatenate([f.ravel() for f in land])
    ctx.label("%s %s" % (c["mode"], "one" if nt == 1 else "many"))
    ctx.nontrivial((al == 0).any() and (al == 1).any() and (not part or ((al > 0) & (al < 1)).any()))
