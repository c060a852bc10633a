"""runoff_regrid: all runoff reaches the ocean, each share the ocean cell it falls on or the nearest one."""
import copy
import os
import numpy as np
from hypothesis import strategies as st
from vlib.engine import Violation
from vlib import ncio, freg, grid, cs
from vlib.freg import D
from vlib.ncio import DS
from checks import C17
from checks.C21 import draw_axis, edges

ID = "C22"
QUICK, THOROUGH = 900, 25000
RULE = ("Generated runoff fields (lon-lat, global or regional, any origin, 1-3 records or none, float or double, missing points) and one-tile ocean grids (lon-lat or distorted, any origin, with or without the "
        "south pole) with generated topography and sea level, serial or parallel; every value of every record is compared with the overlap-weighted runoff plus that of the land cells whose nearest ocean cell it is; "
        "non-trivial = runoff falls on land cells and on ocean cells.")
ASSUMPTIONS = ["runoff is not negative and missing at the same points in all records", "there is an ocean cell", "input cells of at most 40 degrees, latitudes increase, longitudes of both grids within -280..360", "where two ocean cells are equally near either may take the runoff"]


def strategy(tier):
    @st.composite
    def s(draw):
        nx, ny = draw(st.integers(2, 9)), draw(st.integers(2, 7))
        if draw(st.booleans()):
            nx = draw(st.sampled_from([9, 10, 12, 15])); o = draw(st.integers(-280, 0))
            lons = [o + 360.0 * i / nx for i in range(nx + 1)]
            lats = draw(st.sampled_from([None, 1]))
            lo = draw(st.sampled_from([-90, -90, -78, -60]))
            lats = np.linspace(lo, 90, ny + 1).tolist() if lats is None or ny < 5 else draw_axis(draw, ny, lo, 90, 1, 40)
        else:
            lons, lats = draw_axis(draw, nx, -280, 360, 1, 40), draw_axis(draw, ny, -90, 90, 1, 40)
        snx, sny = draw(st.integers(2, 9)), draw(st.integers(2, 8))
        if draw(st.integers(0, 2)):
            snx = draw(st.sampled_from([9, 10, 12, 18])); o = draw(st.integers(-180, 0))
            sx = [o + 360.0 * (i + 0.5) / snx for i in range(snx)]
            sny = max(sny, 5)
            sy = [-90 + 180.0 * (i + 0.5) / sny for i in range(sny)]
        else:
            sx, sy = draw_axis(draw, snx, -200, 360, 1, 30), draw_axis(draw, sny, -70, 70, 1, 20)
        return dict(lons=lons, lats=lats, sx=sx, sy=sy, bend=draw(st.sampled_from([0, 0, 0.3, -0.2])), nt=draw(st.sampled_from([0, 1, 2, 3, 0, 1, 2, 12, 14])),
                    dtype=draw(st.sampled_from(["double", "float"])), miss=draw(st.sampled_from([None, 0, 0.2, 0.6])), mv=draw(st.sampled_from([-1e20, -9999.0, 1e10])),
                    land=draw(st.sampled_from([0.1, 0.4, 0.8, 0.95])), sea=draw(st.sampled_from([None, None, 0.0, 25.0])), dry=draw(st.sampled_from([0, 0.5, 0.9])),
                    np=draw(st.sampled_from([0, 0, 0, 1, 2, 3, 4])), names=draw(st.booleans()), seed=draw(st.integers(0, 2 ** 20)))
    return s()


def run(c, ctx):
    c = copy.deepcopy(c)
    rng = np.random.default_rng(c["seed"])
    x, y = np.meshgrid(freg.mid(c["lons"]), freg.mid(c["lats"]))
    if c["bend"]:
        h, w = x.shape
        u, v = np.meshgrid(np.linspace(0, 1, w), np.linspace(0, 1, h))
        dx, dy = min(np.diff(c["lons"])), min(np.diff(c["lats"]))
        x = x + c["bend"] * dx * np.sin(3 * v)
        y = y + c["bend"] * dy * np.sin(2 * np.pi * u) * v * (1 - v)
    grid.hgrid(ctx.path("og.nc"), x, y, "tile1")
    grid.mosaic(ctx.path("om.nc"), "om", ["og.nc"], ["tile1"])
    ny, nx = (v // 2 for v in x.shape)
    dep = np.where(rng.random((ny, nx)) < c["land"], rng.choice([0.0, 0.0, 10.0], (ny, nx)), rng.uniform(30, 4000, (ny, nx)))
    sea = c["sea"] or 0.0
    if not (dep > sea).any():
        dep[rng.integers(ny), rng.integers(nx)] = 500.0
    wet = dep > sea
    ds = DS()
    ds.add_dim("nx", nx); ds.add_dim("ny", ny)
    if c["seed"] % 2:
        ds.add_dim("ntiles", 1)
    ds.add("depth", "double", ("ny", "nx"), dep, units="meters")
    ds.write(ctx.path("topog.nc"), "NETCDF3_CLASSIC")
    shp = (len(c["sy"]), len(c["sx"]))
    nt = max(c["nt"], 1)
    data = rng.uniform(0, 10, (nt,) + shp) * (rng.random((nt,) + shp) >= c["dry"])
    data = data.astype(freg.NP[c["dtype"]])
    mi = np.zeros(shp, bool)
    if c["miss"] is not None:
        mi = rng.random(shp) < c["miss"]
        data[:, mi] = c["mv"]
    ds = DS()
    ds.add_dim("lon", shp[1]); ds.add_dim("lat", shp[0])
    ds.add("lon", "double", ("lon",), np.array(c["sx"]), units="degrees_east")
    ds.add("lat", "double", ("lat",), np.array(c["sy"]), units="degrees_north")
    at = dict(units="kg/m2/s", long_name="river runoff")
    if c["miss"] is not None:
        at["missing_value"] = np.array(c["mv"], freg.NP[c["dtype"]])
    dims = ("lat", "lon")
    if c["nt"]:
        ds.add_dim("time", nt, True)
        tv = np.cumsum(rng.integers(1, 40, nt)) + 0.5
        ds.add("time", "double", ("time",), tv, units="days since 1900-01-01 00:00:00", calendar="noleap", cartesian_axis="T", modulo=" ")
        dims = ("time",) + dims
    ds.add("RUNOFF", c["dtype"], dims, data if c["nt"] else data[0], **at)
    ds.write(ctx.path("in.nc"), "NETCDF3_CLASSIC")
    # model
    cx, cy = x[::2, ::2], y[::2, ::2]
    ext = cy[0, 0] > -90 + 1e-10
    px, py = x[1::2, 1::2], y[1::2, 1::2]
    if ext:
        cy = np.vstack([np.full((1, nx + 1), -90.0), cy]); cx = np.vstack([cx[:1], cx])
        py = np.vstack([0.5 * (cy[0, :-1] + cy[1, :-1])[None], py]); px = np.vstack([px[:1], px])
        wet = np.vstack([np.zeros((1, nx), bool), wet])
    q = lambda a: np.stack([a[:-1, :-1], a[:-1, 1:], a[1:, 1:], a[1:, :-1]], -1) * D
    qx, qy = q(cx), q(cy)
    area = np.array([[abs(cs.moments(cs.llpoly(qx[j, i], qy[j, i]), 0)[0]) for i in range(nx)] for j in range(len(qx))])
    sx, sy = edges(c["sx"]) * D, edges(c["sy"]) * D
    ov = C17.ll_overlap(qx, qy, (sx, sy), False)
    sarea = np.outer(np.diff(np.sin(sy)), np.diff(sx))
    val = np.where(mi, 0.0, data.astype(float))
    own = np.zeros((nt,) + wet.shape)
    loose = 0.0
    for ((j, i), (jj, ii)), a in ov.items():
        own[:, j, i] += val[:, jj, ii] * a[0]
        if a[0] < 3e-6 * min(area[j, i], sarea[jj, ii]):
            loose += val[:, jj, ii].max() * a[0]
    P = np.stack([np.cos(py * D) * np.cos(px * D), np.cos(py * D) * np.sin(px * D), np.sin(py * D)], -1)
    lo, hi = np.where(wet, own, 0.0), np.where(wet, own, 0.0)
    for j, i in np.argwhere(~wet):
        d = np.where(wet, np.linalg.norm(P - P[j, i], axis=-1), 9.0)
        near = np.argwhere(d <= d.min() + 1e-9)
        for k in near:
            hi[:, k[0], k[1]] += own[:, j, i]
            if len(near) == 1:
                lo[:, k[0], k[1]] += own[:, j, i]
    tot = own.sum((1, 2))
    args = ["--input_file", "in.nc", "--input_fld_name", "RUNOFF", "--output_mosaic", "om.nc", "--output_topog", "topog.nc"]
    name, out = "runoff", "runoff.nc"
    if c["names"]:
        name, out = "friver", "result.nc"
        args += ["--output_file", out, "--output_fld_name", name]
    if c["sea"] is not None:
        args += ["--sea_level", repr(c["sea"])]
    np_ = min(c["np"], nx, ny)
    ctx.label("parallel" if np_ > 1 else "serial"); ctx.label("extended" if ext else "to the pole"); ctx.label("bent" if c["bend"] else "lon-lat")
    ctx.label("records" if c["nt"] else "static"); ctx.label("missing" if mi.any() else "no missing")
    r = ctx.run("runoff_regrid_parallel" if np_ else "runoff_regrid", *args, mpi=np_)
    if r.rc:
        raise Violation("runoff_regrid exits %s: %s" % (r.rc, (r.err + r.out)[-300:]))
    f = ncio.read(ctx.path(out))
    if set(f.vars) != {"grid_x_T", "grid_y_T", name} | ({"Time"} if c["nt"] else set()):
        raise Violation("variables %s" % sorted(f.vars))
    v = f.vars[name]
    got = v.data if c["nt"] else v.data[None]
    if got.shape != (nt, ny, nx) or tuple(v.dims) != (("Time",) if c["nt"] else ()) + ("grid_y_T", "grid_x_T"):
        raise Violation("%s has shape %s %s" % (name, v.dims, v.data.shape))
    for k, w in at.items():
        if k not in v.attrs or not np.all(v.attrs[k] == w):
            raise Violation("attribute %s of %s is %r" % (k, name, v.attrs.get(k)))
    if c["nt"]:
        tvv = f.vars["Time"]
        if not np.array_equal(tvv.data, tv) or tvv.attrs.get("units") != "days since 1900-01-01 00:00:00" or tvv.attrs.get("calendar") != "noleap":
            raise Violation("Time is %s %s, expected %s" % (tvv.data, tvv.attrs, tv))
    if not np.allclose(f.vars["grid_x_T"].data, x[1, 1::2], rtol=0, atol=1e-9):
        raise Violation("grid_x_T is %s" % f.vars["grid_x_T"].data)
    yy = f.vars["grid_y_T"].data
    if not np.allclose(yy, y[1::2, 2 * (nx // 4)], rtol=0, atol=1e-9):
        raise Violation("grid_y_T is %s" % yy)
    e = int(ext)
    wet, area, lo, hi = wet[e:], area[e:], lo[:, e:], hi[:, e:]
    if (got[:, ~wet] != 0).any():
        raise Violation("runoff on land")
    g = got * area
    tol = 1e-9 * max(tot.max(), 1e-3 * area.max()) + loose
    bad = (g < lo - tol) | (g > hi + tol) | np.isnan(g)
    if bad.any():
        k = tuple(np.argwhere(bad)[0])
        raise Violation("%s%s is %r, expected %r to %r" % (name, k, float(got[k]), float(lo[k] / area[k[1:]]), float(hi[k] / area[k[1:]])))
    if (np.abs(g.sum((1, 2)) - tot) > tol * wet.size).any():
        raise Violation("total runoff %s, expected %s" % (g.sum((1, 2)), tot))
    ctx.nontrivial(bool((lo > 0).any() and tot.max() > 0 and (own[:, e:][:, ~wet] > 0).any()))
