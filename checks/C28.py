"""make_regional_mosaic: the grid of a regional file is its part of the global grid and serves to regrid it."""
import copy
import os
import numpy as np
from hypothesis import strategies as st
from vlib.engine import Violation
from vlib import grid, cs, freg, ncio
from vlib.ncio import DS
from checks.C21 import draw_axis

ID = "C28"
QUICK, THOROUGH = 500, 20000
RULE = ("Generated global mosaics of one to twelve longitude-latitude tiles or a cubed sphere and regional files for any block of any tile; the grid file and mosaic are compared with the block of the global grid, "
        "and on longitude-latitude tiles the regional field regridded by fregrid through the regional mosaic is compared with exact overlaps; axes that do not count up by one must be refused; "
        "non-trivial = the block is a strict part of the tile and larger than one cell, or the axis is refused.")
ASSUMPTIONS = ["the axes grid_xt_sub01 and grid_yt_sub01 hold the global index of each column and row, as FMS writes them"]


def strategy(tier):
    @st.composite
    def s(draw):
        c = dict(seed=draw(st.integers(0, 2 ** 20)))
        if draw(st.integers(0, 3)):
            c["kind"] = "ll"
            nt = draw(st.sampled_from([1, 2, 3, 12]))
            c["tiles"] = [[draw_axis(draw, draw(st.integers(1, 12)), -180, 360, 5, 60), draw_axis(draw, draw(st.integers(1, 12)), -90, 90, 5, 40)] for _ in range(nt)]
            c["tile"] = draw(st.integers(0, nt - 1))
            nx, ny = len(c["tiles"][c["tile"]][0]) - 1, len(c["tiles"][c["tile"]][1]) - 1
        else:
            c["kind"] = "cube"
            c["n"] = nx = ny = draw(st.integers(1, 8))
            c["tile"] = draw(st.integers(0, 5))
        i0, j0 = draw(st.integers(1, nx)), draw(st.integers(1, ny))
        c["blk"] = [i0, draw(st.integers(i0, nx)), j0, draw(st.integers(j0, ny))]
        c["bad"] = draw(st.sampled_from([None] * 7 + ["gap"]))
        c["axis"] = draw(st.sampled_from(["double", "double", "float"]))
        c["noise"] = draw(st.booleans())
        c["where"] = draw(st.booleans())
        c["desc"] = draw(st.booleans())
        c["long"] = draw(st.integers(0, 5)) == 0
        c["regrid"] = draw(st.booleans())
        c["name"] = draw(st.sampled_from(["region", "rregion_atmos.tile9.day", "19800101.regionatmos_4xdaily"]))
        return c
    return s()


def run(c, ctx):
    c = copy.deepcopy(c)
    rng = np.random.default_rng(c["seed"])
    wd = ctx.path("work")
    d = ctx.path("grids" + ("x" * 90 if c["long"] else "")) if c["where"] else wd
    for p in {wd, d}:
        os.makedirs(p)
    if c["kind"] == "cube":
        tiles, con = cs.cube(c["n"])
        cs.write(d, "glob", tiles, con)
    else:
        tiles = [np.meshgrid(freg.mid(a), freg.mid(b)) for a, b in c["tiles"]]
        tn = ["tile%d" % (t + 1) for t in range(len(tiles))]
        gf = ["glob_grid.%s.nc" % t for t in tn]
        for f, t, (x, y) in zip(gf, tn, tiles):
            grid.hgrid(os.path.join(d, f), x, y, t)
        grid.mosaic(os.path.join(d, "glob.nc"), "glob", gf, tn)
    t = c["tile"]
    i0, i1, j0, j1 = c["blk"]
    nx, ny = i1 - i0 + 1, j1 - j0 + 1
    ax, ay = np.arange(i0, i1 + 1.0), np.arange(j0, j1 + 1.0)
    bad = c["bad"]
    if bad:
        if nx < 2:
            return ctx.nontrivial(False)
        ax[-1] += 1 + rng.integers(3)
    if c["noise"]:
        ax, ay = ax + rng.uniform(-1e-4, 1e-4, nx), ay + rng.uniform(-1e-4, 1e-4, ny)
    v = rng.integers(-50, 50, (1, ny, nx)).astype("f8")
    ds = DS()
    ds.add_dim("time", None); ds.add_dim("grid_yt_sub01", ny); ds.add_dim("grid_xt_sub01", nx)
    ds.add("time", "double", ("time",), [1.0], units="days since 1980-01-01 00:00:00", cartesian_axis="T", calendar="julian")
    ds.add("grid_xt_sub01", c["axis"], ("grid_xt_sub01",), ax, units="degrees_E", cartesian_axis="X")
    ds.add("grid_yt_sub01", c["axis"], ("grid_yt_sub01",), ay, units="degrees_N", cartesian_axis="Y")
    ds.add("ps", "double", ("time", "grid_yt_sub01", "grid_xt_sub01"), v, missing_value=1e20)
    rf = "%s.tile%d.nc" % (c["name"], t + 1)
    ds.write(os.path.join(wd, rf))
    args = ["--global_mosaic", os.path.join(d, "glob.nc"), "--regional_file", rf]
    if c["desc"]:
        args += ["--grid_descriptor", "spherical"]
    if c["long"]:
        args += ["--regional_file", rf] * 12
    if bad:
        r = ctx.run("make_regional_mosaic", *args, cwd=wd)
        ctx.nontrivial(True)
        if r.rc <= 0:
            raise Violation("a regional axis with a gap is accepted (exit code %d)" % r.rc)
        return
    ctx.ok("make_regional_mosaic", *args, cwd=wd)
    gname = "regional_grid.tile%d.nc" % (t + 1)
    for f in (gname, "regional_mosaic.nc"):
        if not os.path.exists(os.path.join(wd, f)):
            raise Violation("%s is not written" % f)
    g = ncio.read(os.path.join(wd, gname))
    sl = (slice(2 * j0 - 2, 2 * j1 + 1), slice(2 * i0 - 2, 2 * i1 + 1))
    for k, a in zip("xy", tiles[t]):
        if g.vars[k].data.shape != a[sl].shape or (g.vars[k].data != a[sl]).any():
            raise Violation("%s of the regional grid is not the block of the global grid: %s instead of %s" % (k, g.vars[k].data.tolist(), a[sl].tolist()))
    if grid.text(g.vars["tile"].data)[0] != "tile%d" % (t + 1):
        raise Violation("tile is %r" % grid.text(g.vars["tile"].data))
    if g.dims.get("nx") != 2 * nx or g.dims.get("ny") != 2 * ny:
        raise Violation("dimensions of the regional grid: %s" % (g.dims,))
    m = ncio.read(os.path.join(wd, "regional_mosaic.nc"))
    for k, e in (("mosaic", ["regional_mosaic"]), ("gridfiles", [gname]), ("gridtiles", ["tile%d" % (t + 1)])):
        if grid.text(m.vars[k].data) != e:
            raise Violation("%s of the regional mosaic is %s, expected %s" % (k, grid.text(m.vars[k].data), e))
    if m.vars["mosaic"].attrs.get("grid_descriptor", "") != ("spherical" if c["desc"] else ""):
        raise Violation("grid_descriptor is %r" % m.vars["mosaic"].attrs.get("grid_descriptor"))
    ntot = (tiles[t][0].shape[0] - 1) // 2 * ((tiles[t][0].shape[1] - 1) // 2)
    ctx.nontrivial(1 < nx * ny < ntot)
    if c["kind"] == "ll" and c["regrid"]:
        lons, lats = c["tiles"][t]
        lons, lats = lons[i0 - 1:i1 + 1], lats[j0 - 1:j1 + 1]
        if lons[-1] - lons[0] > 360:
            return
        ctx.label("regrid")
        ctx.ok("fregrid", "--input_mosaic", "regional_mosaic.nc", "--input_file", rf[:-3], "--scalar_field", "ps", "--nlon", "12", "--nlat", "6", "--output_file", "out", cwd=wd)
        o = ncio.read(os.path.join(wd, "out.nc")).vars["ps"].data[0]
        X, Y = np.linspace(0, 360, 13), np.linspace(-90, 90, 7)
        wx, wy = freg.lon_overlap(X, lons), freg.lat_overlap(Y, lats)
        W = wy @ np.ones((ny, nx)) @ wx.T
        e = np.where(W > 0, (wy @ v[0] @ wx.T) / np.where(W > 0, W, 1), 1e20)
        if not (np.abs(o - e) <= 1e-6 + 1e-6 * np.abs(e)).all():
            k = tuple(np.argwhere(~(np.abs(o - e) <= 1e-6 + 1e-6 * np.abs(e)))[0])
            raise Violation("the regional field at %s becomes %r, expected %r" % (k, o[k], e[k]))
