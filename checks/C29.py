"""transfer_to_mosaic_grid: a previous-version grid file becomes a mosaic that holds the same grid."""
import copy
import os
import numpy as np
from hypothesis import strategies as st
from vlib.engine import Violation
from vlib import grid, cs, ncio
from vlib.ncio import DS

ID = "C29"
QUICK, THOROUGH = 800, 20000
RULE = ("A generated supergrid (cyclic in x, closed or folded in the north, regular or deformed, with free edge lengths and angles) is written as a previous-version grid file, with either name of each variable "
        "and with and without the optional ones, alone or with atmosphere, land and exchange grids; the mosaic files made from it are compared with the supergrid; non-trivial = more than one cell each way.")
ASSUMPTIONS = ["the ocean grid is cyclic in x, as the tool states", "the southern side is a line of cells whose middle points are the mean of their corners and whose angle is zero",
               "with --rotate_poly the areas of cells near a pole, which are then those of another shape, are not checked",
               "distances to the centroid of the second parent are not in the old file and not checked"]
R = 6371.0e3
SPHERE = 4 * np.pi * R * R


def strategy(tier):
    @st.composite
    def s(draw):
        c = dict(seed=draw(st.integers(0, 2 ** 20)), nx=draw(st.integers(2, 9)), ny=draw(st.integers(1, 7)), nz=draw(st.integers(1, 6)))
        c["x0"] = draw(st.sampled_from([0.0, -280.0, 17.5]))
        c["deform"] = draw(st.booleans())
        c["north"] = draw(st.sampled_from([60.0, 89.0, 90.0]))
        c["opt"] = draw(st.integers(0, 63))
        c["ft"] = draw(st.sampled_from(["double", "double", "float"]))
        c["xb"] = draw(st.sampled_from(["cyclic", "cyclic", "cyclic", "solid_walls"]))
        c["yb"] = draw(st.sampled_from(["fold_north_edge", "solid_walls"]))
        c["coupled"] = draw(st.booleans())
        c["order"] = draw(st.integers(1, 2))
        c["dir"] = draw(st.sampled_from([None, None, "grids/"]))
        c["rot"] = draw(st.booleans())
        c["at"] = [draw(st.integers(2, 9)) for _ in range(4)]
        c["name"] = draw(st.sampled_from(["old.nc", "in/grid_spec.nc"]))
        return c
    return s()


def run(c, ctx):
    c = copy.deepcopy(c)
    rng = np.random.default_rng(c["seed"])
    NX, NY = c["nx"], c["ny"]
    nx, ny = 2 * NX, 2 * NY
    gx = c["x0"] + np.r_[0, np.cumsum(rng.uniform(0.5, 1.5, nx))]
    gx = c["x0"] + (gx - c["x0"]) / (gx[-1] - c["x0"]) * 360
    gx[1::2] = 0.5 * (gx[:-1:2] + gx[2::2])
    gy = np.linspace(-75, c["north"], ny + 1)
    x, y = np.meshgrid(gx, gy)
    if c["deform"] and ny > 2:
        a = np.sin(2 * np.pi * (x - c["x0"]) / 360) * np.linspace(0, 1, ny + 1)[:, None]
        x = x + 4.0 * a / NX
        y = np.where(y < 89.5, y - np.abs(a) * 20 / ny, y)
    f4 = c["ft"] == "float"
    if f4:
        x, y = x.astype("f4").astype("f8"), y.astype("f4").astype("f8")
    x[:, 0] = x[:, -1] - 360
    y[:, 0] = y[:, -1]
    x[0, 1::2] = 0.5 * (x[0, :-1:2] + x[0, 2::2])
    y[0, 1::2] = 0.5 * (y[0, :-1:2] + y[0, 2::2])
    dx = rng.uniform(1e3, 1e6, (ny + 1, nx)).round(1)
    dy = rng.uniform(1e3, 1e6, (ny, nx + 1)).round(1)
    dy[:, 0] = dy[:, -1]
    ang = rng.uniform(-180, 180, (ny + 1, nx + 1))
    ang[:, 0] = ang[:, -1]
    ang[0] = 0
    opt = [bool(c["opt"] >> k & 1) for k in range(6)]
    O = DS()
    O.add_dim("grid_x_T", NX); O.add_dim("grid_y_T", NY); O.add_dim("vertex", 4); O.add_dim("zt", c["nz"]); O.add_dim("zb", c["nz"])
    T = ("grid_y_T", "grid_x_T")
    add = lambda n, v: O.add(n, c["ft"], T, np.asarray(v))
    nm = ("geolon_e", "geolat_e", "geolon_n", "geolat_n") if opt[0] else ("x_E", "y_E", "x_N", "y_N")
    for s, v in (("x", x), ("y", y)):
        add(s + "_T", v[1::2, 1::2]); add(s + "_C", v[2::2, 2::2])
        add(nm[0 if s == "x" else 1], v[1::2, 2::2]); add(nm[2 if s == "x" else 3], v[2::2, 1::2])
        O.add(s + "_vert_T", c["ft"], ("vertex",) + T, np.stack([v[:-1:2, :-1:2], v[:-1:2, 2::2], v[2::2, 2::2], v[2::2, :-1:2]]))
    add("ds_01_11_T", dx[1::2, ::2]); add("ds_11_21_T", dx[1::2, 1::2])
    add("ds_10_11_T", dy[::2, 1::2]); add("ds_11_12_T", dy[1::2, 1::2])
    add("ds_02_22_T", dx[2::2, ::2] + dx[2::2, 1::2]); add("ds_20_22_T", dy[::2, 2::2] + dy[1::2, 2::2])
    add("ds_01_11_C", dx[2::2, 1::2]); add("ds_11_21_C", np.roll(dx[2::2, ::2], -1, 1))
    add("ds_10_11_C", dy[1::2, 2::2]); add("ds_11_12_C", np.vstack([dy[2::2, 2::2], np.full((1, NX), 7.0)]))
    if opt[1]:
        add("ds_20_21_T", dy[::2, 2::2])
    if opt[2]:
        add("ds_21_22_T", dy[1::2, 2::2])
    if opt[3]:
        add("ds_00_10_T", dx[:-1:2, ::2]); add("ds_10_20_T", dx[:-1:2, 1::2])
    else:
        dx[0] = 0
    add("angle_C", ang[2::2, 2::2])
    for k, (n, sl) in enumerate((("T", (slice(1, None, 2), slice(1, None, 2))), ("E", (slice(1, None, 2), slice(2, None, 2))), ("N", (slice(2, None, 2), slice(1, None, 2))))):
        if opt[4] or opt[5] and k == 0:
            add("angle_" + n, ang[sl])
        else:
            ang[sl] = 0
    ang[1:, 0] = ang[1:, -1]
    z = np.cumsum(rng.uniform(1, 100, 2 * c["nz"])).round(2)
    O.add("zt", c["ft"], ("zt",), z[::2]); O.add("zb", c["ft"], ("zb",), z[1::2])
    depth = np.where(rng.random((NY, NX)) < 0.3, 0.0, rng.uniform(1, 5000, (NY, NX)).round(1))
    add("depth_t", depth)
    O.attrs["x_boundary_type"], O.attrs["y_boundary_type"] = c["xb"], c["yb"]
    axes, ex = {}, {}
    if c["coupled"]:
        n = c["at"]
        for k, (q, u, v) in enumerate((("a", n[0], n[1]), ("l", n[2], n[3]))):
            for d, m, lo, hi in (("x", u, c["x0"], c["x0"] + 360), ("y", v, -90, 90)):
                b = np.linspace(lo, hi, m + 1)
                t = 0.5 * (b[1:] + b[:-1]) + rng.uniform(-1, 1, m)
                O.add_dim(d + "b" + q, m + 1); O.add_dim(d + "t" + q, m)
                O.add(d + "b" + q, c["ft"], (d + "b" + q,), b); O.add(d + "t" + q, c["ft"], (d + "t" + q,), t)
                g = np.zeros(2 * m + 1)
                g[::2], g[1::2] = b, t
                axes[d + q] = g
        size = {"ATM": (n[0], n[1]), "LND": (n[2], n[3]), "OCN": (NX, NY)}
        for p1, p2 in (("ATM", "LND"), ("ATM", "OCN"), ("LND", "OCN")):
            k = int(rng.integers(1, 30))
            dm = "i_%sX%s" % (p1.lower(), p2.lower())
            O.add_dim(dm, k)
            e = {"area": rng.uniform(1e-9, 1e-3, k)}
            O.add("AREA_%sx%s" % (p1, p2), "double", (dm,), e["area"])
            for p in (p1, p2):
                for m, w in enumerate("IJ"):
                    e[w + p] = rng.integers(1, size[p][m] + 1, k)
                    O.add("%s_%s_%sx%s" % (w, p, p1, p2), "int", (dm,), e[w + p])
            if c["order"] == 2:
                for w in "IJ":
                    e["D" + w] = rng.uniform(-1e5, 1e5, k)
                    O.add("D%s_%sx%s" % (w, p1, p2), "double", (dm,), e["D" + w])
            ex[p1, p2] = e
        O.add("AREA_ATM", "double", T, rng.random((NY, NX)))
    os.makedirs(os.path.dirname(ctx.path(c["name"])), exist_ok=True)
    O.write(ctx.path(c["name"]))
    args = ["--input_file", c["name"]] + (["--mosaic_dir", c["dir"]] if c["dir"] else []) + (["--rotate_poly"] if c["rot"] else [])
    ctx.ok("transfer_to_mosaic_grid", *args)
    ctx.label("%s %s" % ("coupled" if c["coupled"] else "ocean", c["yb"]))
    ctx.nontrivial(NX > 1 and NY > 1)
    want = ["ocean_hgrid.nc", "ocean_vgrid.nc", "topog.nc", "ocean_mosaic.nc"]
    if c["coupled"]:
        want += ["atmos_hgrid.nc", "land_hgrid.nc", "atmos_mosaic.nc", "land_mosaic.nc", "atmos_mosaicXland_mosaic.nc", "atmos_mosaicXocean_mosaic.nc", "land_mosaicXocean_mosaic.nc", "mosaic.nc"]
    have = [f for f in os.listdir(ctx.dir) if f.endswith(".nc") and f != c["name"]]
    if sorted(have) != sorted(want):
        raise Violation("files written %s, expected %s" % (sorted(have), sorted(want)))
    rd = lambda f: ncio.read(ctx.path(f)).vars
    tol = 2e-7 if f4 else 1e-12

    def eq(f, n, got, exp, t=tol, at=0.0):
        got, exp = np.asarray(got, "f8"), np.asarray(exp, "f8")
        if got.shape != exp.shape:
            raise Violation("%s: %s has shape %s, expected %s" % (f, n, got.shape, exp.shape))
        bad = ~(np.abs(got - exp) <= at + t * np.abs(exp))
        if bad.any():
            k = tuple(np.argwhere(bad)[0])
            raise Violation("%s: %s%s is %r, expected %r" % (f, n, list(map(int, k)), got[k], exp[k]))
    g = rd("ocean_hgrid.nc")
    if grid.text(np.atleast_2d(g["tile"].data)) != ["tile1"]:
        raise Violation("tile of ocean_hgrid.nc is %r" % grid.text(np.atleast_2d(g["tile"].data)))
    eq("ocean_hgrid.nc", "x", g["x"].data, x, tol, 4e-5 if f4 else 1e-11)
    eq("ocean_hgrid.nc", "y", g["y"].data, y, tol, 4e-5 if f4 else 1e-11)
    eq("ocean_hgrid.nc", "dx", g["dx"].data, dx, tol, 0.3 if f4 else 1e-8)
    eq("ocean_hgrid.nc", "dy", g["dy"].data, dy, tol, 0.3 if f4 else 1e-8)
    eq("ocean_hgrid.nc", "angle_dx", g["angle_dx"].data, ang)
    lo, la = cs.cells(g["x"].data, g["y"].data)
    area = np.array([cs.moments(cs.llpoly(lo[k], la[k]), lo[k].mean())[0] * R * R for k in np.ndindex(lo.shape[:2])]).reshape(lo.shape[:2])
    far = np.abs(la).max(-1) < np.deg2rad(80) if c["rot"] else np.ones(area.shape, bool)
    eq("ocean_hgrid.nc", "area", np.where(far, g["area"].data, 0), np.where(far, area, 0), 1e-6)
    eq("ocean_vgrid.nc", "zeta", rd("ocean_vgrid.nc")["zeta"].data, np.r_[0, z])
    eq("topog.nc", "depth", rd("topog.nc")["depth"].data, depth)
    md = c["dir"] or "./"
    txt = lambda v: grid.text(np.atleast_2d(v))

    def mosaic(comp, con, optional=False):
        f = comp + "_mosaic.nc"
        v = rd(f)
        got = [txt(v[k].data) for k in ("mosaic", "gridlocation", "gridfiles", "gridtiles")]
        exp = [[comp + "_mosaic"], [md], [comp + "_hgrid.nc"], ["tile1"]]
        if got != exp:
            raise Violation("%s holds %s, expected %s" % (f, got, exp))
        k = sorted(zip(txt(v["contacts"].data), txt(v["contact_index"].data))) if "contacts" in v else []
        w = sorted(("%s_mosaic:tile1::%s_mosaic:tile1" % (comp, comp), i) for i in con)
        if k != w and not (optional and not k):
            raise Violation("%s has contacts %s, expected %s" % (f, k, w))
    cyc = lambda m, n: "%d:%d,1:%d::1:1,1:%d" % (m, m, n, n)
    mosaic("ocean", ([cyc(nx, ny)] if c["xb"] == "cyclic" else []) + (["1:%d,%d:%d::%d:%d,%d:%d" % (NX, ny, ny, nx, NX + 1, ny, ny)] if c["yb"].startswith("fold") else []))
    if not c["coupled"]:
        return
    for comp, q in (("atmos", "a"), ("land", "l")):
        v = rd(comp + "_hgrid.nc")
        if grid.text(np.atleast_2d(v["tile"].data)) != ["tile1"]:
            raise Violation("tile of %s_hgrid.nc is %r" % (comp, grid.text(np.atleast_2d(v["tile"].data))))
        gx, gy = np.meshgrid(axes["x" + q], axes["y" + q])
        eq(comp + "_hgrid.nc", "x", v["x"].data, gx, tol, 1e-12)
        eq(comp + "_hgrid.nc", "y", v["y"].data, gy, tol, 1e-12)
        mosaic(comp, [cyc(gx.shape[1] - 1, gx.shape[0] - 1)], comp == "atmos")
    names = {"ATM": "atmos", "LND": "land", "OCN": "ocean"}
    for (p1, p2), e in ex.items():
        f = "%s_mosaicX%s_mosaic.nc" % (names[p1], names[p2])
        v = rd(f)
        if txt(v["contact"].data) != ["%s_mosaic:tile1::%s_mosaic:tile1" % (names[p1], names[p2])]:
            raise Violation("contact of %s is %s" % (f, txt(v["contact"].data)))
        eq(f, "xgrid_area", v["xgrid_area"].data, e["area"] * SPHERE, 1e-9)
        for k, p in enumerate((p1, p2)):
            eq(f, "tile%d_cell" % (k + 1), v["tile%d_cell" % (k + 1)].data, np.stack([e["I" + p], e["J" + p]], 1), 0)
        if c["order"] == 2:
            eq(f, "tile1_distance", v["tile1_distance"].data, np.stack([e["DI"], e["DJ"]], 1))
        elif "tile1_distance" in v:
            raise Violation("%s has distances that the old file does not hold" % f)
    v = rd("mosaic.nc")
    exp = {"ocn_topog_dir": md, "ocn_topog_file": "topog.nc"}
    for q, n in (("atm", "atmos"), ("lnd", "land"), ("ocn", "ocean")):
        exp.update({q + "_mosaic_dir": md, q + "_mosaic_file": n + "_mosaic.nc", q + "_mosaic": n + "_mosaic"})
    for q, (p1, p2) in (("aXo", ("ATM", "OCN")), ("aXl", ("ATM", "LND")), ("lXo", ("LND", "OCN"))):
        exp[q + "_file"] = "%s_mosaicX%s_mosaic.nc" % (names[p1], names[p2])
    for k, e in exp.items():
        if txt(v[k].data) != [e]:
            raise Violation("%s of mosaic.nc is %s, expected %r" % (k, txt(v[k].data), e))
