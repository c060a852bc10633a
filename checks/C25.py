"""river_regrid: the river network on the new grid is a consistent drainage network that follows the source."""
import copy
import os
import numpy as np
from hypothesis import strategies as st
from vlib.engine import Violation
from vlib import grid, cs, freg, ncio, sph
from vlib.ncio import DS
from checks.C17 import ll_overlap
from checks.C21 import draw_axis

ID = "C25"
QUICK, THOROUGH = 1000, 30000
RULE = ("Generated source networks (levels of drainage area with ties, gaps and values around the cutoff) and target grids (longitude-latitude with closed, cyclic or doubly cyclic edges, or a cubed sphere) "
        "with land fractions from exchange grids or mask files; directions, travel, basins, drainage areas, lengths and fractions of every cell are compared with a model of the network; "
        "non-trivial = some river flows through two cells or more and some cell is sea.")
ASSUMPTIONS = ["missing values are negative, as in the source data sets", "the source covers the globe on a uniform grid from 0 to 360 and -90 to 90 degrees, as the tool states",
               "directions are not judged next to cells whose greatest source value hangs on an overlap between 1e-8 and 1e-4 of the cell, and next to cells that contain a pole", "cyclic grids are at least two cells wide"]
R = 6371.0e3
D = np.pi / 180
LARGE = 1e20
CUT = 1e12
DI = [1, 1, 0, -1, -1, -1, 0, 1]
DJ = [0, -1, -1, -1, 0, 1, 1, 1]


def strategy(tier):
    @st.composite
    def s(draw):
        c = dict(seed=draw(st.integers(0, 2 ** 20)))
        c["kind"] = draw(st.sampled_from(["ll", "ll", "cube"]))
        if c["kind"] == "ll":
            nx, ny = draw(st.integers(1, 9)), draw(st.integers(1, 9))
            c["bc"] = draw(st.sampled_from(["closed", "x", "x", "y", "xy"]))
            if c["bc"] != "closed":   # a contact of one cell has no direction
                nx, ny = max(nx, 2), max(ny, 2)
            if draw(st.booleans()):
                c["lons"], c["lats"] = draw_axis(draw, nx, -180, 360, 5, 90), draw_axis(draw, ny, -90, 90, 5, 60)
            else:
                nx = max(nx, 3)
                c["lons"], c["lats"] = np.linspace(0, 360, nx + 1).tolist(), np.linspace(-90, 90, ny + 1).tolist()
            if c["lons"][-1] - c["lons"][0] > 360:
                c["lons"] = np.linspace(0, 360, nx + 1).tolist()
            c["gc"] = False
        else:
            c["gc"] = draw(st.integers(0, 3)) == 0
            c["n"] = draw(st.integers(1, 5)) if c["gc"] else draw(st.sampled_from([2, 4, 4, 6]))
            c["stretch"] = draw(st.sampled_from([None, None, [1.5, 20.0, -30.0]]))
        c["sx"], c["sy"] = draw(st.sampled_from([(4, 3), (8, 4), (12, 6), (24, 12), (36, 18)]))
        c["levels"] = draw(st.sampled_from([3, 8, 1000, 1000]))
        c["scale"] = draw(st.sampled_from([1e10, 1e11, 5e11, 3e12]))
        c["gap"] = draw(st.sampled_from([0, 0, 0, 0.1, 0.5, 0.95]))
        c["smooth"] = draw(st.booleans())
        c["fr"] = draw(st.sampled_from([[0.5, 0.4, 0.1], [0.2, 0.8, 0], [0.1, 0.6, 0.3], [0, 1, 0], [0.9, 0.1, 0], [0.3, 0.2, 0.5], [0, 0.9, 0.1], [0.05, 0.95, 0], [0.03, 0.95, 0.02], [0.1, 0.9, 0]]))
        c["mask"] = draw(st.booleans())
        c["thresh"] = draw(st.sampled_from([None, 1e-6, 1e-4, 0.05, 0.3])) if c["mask"] else draw(st.sampled_from([1e-6, 1e-4, 0.05, 0.3]))
        c["minf"] = draw(st.sampled_from([None, 0.0, 0.05, 0.3]))
        c["miss"] = draw(st.lists(st.sampled_from([-9999, -999, -1]), min_size=6, max_size=6))
        c["imiss"] = draw(st.integers(0, 3)) == 0
        c["stype"] = draw(st.sampled_from(["double", "double", "float"]))
        c["names"] = draw(st.sampled_from([["atmos_mosaic", "land_mosaic"], ["C12_mosaic", "C12_mosaic"], ["a", "b"], ["xland", "land"]]))
        c["same"] = draw(st.booleans())
        c["sub"] = draw(st.booleans())
        c["out"] = draw(st.sampled_from([None, "river", "out/my_river", "out/" + "r" * 150]))
        c["long"] = draw(st.integers(0, 9)) == 0
        return c
    return s()


def target(c, d, name):
    """supergrids, cell areas, corner polygons, halo index of the target"""
    ga = {"great_circle_algorithm": "TRUE"} if c["gc"] else None
    if c["kind"] == "ll":
        X, Y = np.meshgrid(freg.mid(c["lons"]), freg.mid(c["lats"]))
        ny, nx = len(c["lats"]) - 1, len(c["lons"]) - 1
        f = name + "_grid.nc"
        grid.hgrid(os.path.join(d, f), X, Y, "tile1", gattrs=ga)
        con = []
        if "x" in c["bc"]:
            con.append((0, 0, "%d:%d,1:%d::1:1,1:%d" % (2 * nx, 2 * nx, 2 * ny, 2 * ny)))
        if "y" in c["bc"]:
            con.append((0, 0, "1:%d,%d:%d::1:%d,1:1" % (2 * nx, 2 * ny, 2 * ny, 2 * nx)))
        grid.mosaic(os.path.join(d, name + ".nc"), name, [f], ["tile1"], contacts=con, gattrs=ga)
        idx = np.full((1, ny + 2, nx + 2), -1)
        q = np.arange(nx * ny).reshape(ny, nx)
        idx[0, 1:-1, 1:-1] = q
        if "x" in c["bc"]:
            idx[0, 1:-1, 0], idx[0, 1:-1, -1] = q[:, -1], q[:, 0]
        if "y" in c["bc"]:
            idx[0, 0, 1:-1], idx[0, -1, 1:-1] = q[-1], q[0]
        if c["bc"] == "xy":
            idx[0, 0, 0], idx[0, 0, -1], idx[0, -1, -1], idx[0, -1, 0] = q[-1, -1], q[-1, 0], q[0, 0], q[0, -1]
        return [(X, Y)], idx
    n = c["n"]
    kw = dict(stretch=c["stretch"][0], lon=c["stretch"][1], lat=c["stretch"][2]) if c["stretch"] and c["gc"] else {}
    tiles, con = cs.cube(n, **kw)
    cs.write(d, name, tiles, con, gattrs=ga)
    return tiles, cs.halo_index(tiles)


def distance(x1, y1, x2, y2):
    dx = x2 - x1
    dx -= 360 * (dx > 180)
    dx += 360 * (dx < -180)
    return R * D * np.hypot(dx * np.cos(y1 * D), y2 - y1)


def run(c, ctx):
    c = copy.deepcopy(c)
    rng = np.random.default_rng(c["seed"])
    wd = ctx.path("work")
    os.makedirs(os.path.join(wd, "out"))
    d = ctx.path("grids") if c["sub"] else wd
    os.makedirs(d, exist_ok=True)
    an, ln = c["names"]
    tiles, halo = target(c, d, ln)
    nt, ny, nx = len(tiles), (tiles[0][0].shape[0] - 1) // 2, (tiles[0][0].shape[1] - 1) // 2
    N = nt * ny * nx
    # areas and overlaps with the source
    sx, sy = c["sx"], c["sy"]
    area = np.zeros((nt, ny, nx))
    slon, slat = np.linspace(0, 2 * np.pi, sx + 1), np.linspace(-np.pi / 2, np.pi / 2, sy + 1)
    ov = {}
    odd = np.zeros((nt, ny, nx), bool)
    for t, (x, y) in enumerate(tiles):
        if c["kind"] == "ll":
            area[0] = sph.box(x[0, :-2:2], y[:-2:2, :1], x[0, 2::2], y[2::2, :1])
            w = freg.lat_overlap(c["lats"], slat / D)[:, None, :, None] * freg.lon_overlap(c["lons"], slon / D)[None, :, None, :] * R * R
            for k in np.argwhere(w > 0):
                ov.setdefault((0, k[0], k[1]), []).append(((k[2], k[3]), w[tuple(k)]))
            continue
        lo, la = cs.cells(x[::2, ::2], y[::2, ::2])
        if c["gc"]:
            area[t] = sph.gc_area(x[::2, ::2], y[::2, ::2])
        else:
            for k in np.ndindex(ny, nx):
                area[t][k] = cs.moments(cs.llpoly(lo[k], la[k]), 0)[0] * R * R
        for k in np.ndindex(ny, nx):
            p = cs.llpoly(lo[k], la[k])
            e = p[0, 0] - p[-1, 0]
            odd[t][k] = abs(e - 2 * np.pi * np.round(e / (2 * np.pi)) - e) > 1e-6   # winds around a pole
        for (k, b), v in ll_overlap(lo, la, (slon, slat), False).items():
            ov.setdefault((t,) + k, []).append((b, v[0] * R * R))
    # source
    v = rng.random((sy, sx))
    if c["smooth"]:
        a = rng.normal(size=4)
        v = v * 0.3 + 0.5 + 0.15 * np.sin(np.arange(sx) * 2 * np.pi / sx + a[0])[None, :] + 0.3 * a[1] * np.linspace(-1, 1, sy)[:, None]
        v = np.clip(v, 0, 0.999)
        v = sum(np.roll(np.roll(v, i, 1), j, 0) for i in (-1, 0, 1) for j in (-1, 0, 1)) / 9
    sub = (np.floor(v * c["levels"]) + 1) / c["levels"] * c["scale"] * 2
    sub = np.where(rng.random((sy, sx)) < c["gap"], c["miss"][0], sub)
    if c["stype"] == "float":
        sub = sub.astype("f4").astype("f8")
    ds = DS()
    ds.add_dim("lat", sy); ds.add_dim("lon", sx)
    ds.add("lon", "double", ("lon",), (slon[1:] + slon[:-1]) / 2 / D, units="degrees_east", long_name="Nominal Longitude of T-cell center", cartesian_axis="X")
    ds.add("lat", "double", ("lat",), (slat[1:] + slat[:-1]) / 2 / D, units="degrees_north", long_name="Nominal Latitude of T-cell center", cartesian_axis="Y")
    satt = {}
    for m, (nm, ty, lnm) in enumerate((("subA", c["stype"], "subbasin area"), ("tocell", "int" if c["imiss"] else "double", "direction to downstream cell"),
                                       ("travel", "int" if c["imiss"] else "double", "cells left to travel before reaching ocean"), ("basin", "int", "River basin id"),
                                       ("cellarea", "double", "Cell area"), ("celllength", "double", "Cell length"))):
        mv = c["miss"][m]
        mv = np.int32(mv) if c["imiss"] and nm in ("tocell", "travel", "basin") else np.float64(mv)
        satt[nm] = dict(units="m", long_name=lnm, missing_value=mv)
        ds.add(nm, ty, ("lat", "lon"), sub if nm == "subA" else rng.integers(0, 9, (sy, sx)), **satt[nm])
    src = ctx.path("source_" + "x" * 100 + ".nc" if c["long"] else "source.nc")
    ds.write(src)
    # land
    th, mf = c["thresh"] or 0.0, c["minf"] or 0.0
    vals = [q for q in (0.01, 0.1, 0.2, 0.5, 0.6, 0.8, 0.9, 0.99) if abs(q - (1 - th)) > 1e-3 and abs(q - mf) > 1e-3]
    kind = rng.choice(3, N, p=c["fr"]).reshape(nt, ny, nx)
    frac = np.where(kind == 0, 0.0, np.where(kind == 1, 1.0, rng.choice(vals, (nt, ny, nx))))
    land = frac.copy()
    land[frac > 1 - th] = 1
    land[land < mf] = 0
    ds = DS()
    ds.add_dim("string", 255)
    ds.add("lnd_mosaic_dir", "char", ("string",), grid.chars("./"))
    ds.add("lnd_mosaic_file", "char", ("string",), grid.chars(ln + ".nc"))
    ds.add("lnd_mosaic", "char", ("string",), grid.chars(ln))
    if c["mask"]:
        for t in range(nt):
            q = DS()
            q.add_dim("ny", ny); q.add_dim("nx", nx)
            q.add("mask", "double", ("ny", "nx"), frac[t])
            q.write(os.path.join(d, "land_mask_tile%d.nc" % (t + 1)))
    else:
        files = []
        for t in range(nt):
            parts = [[], []]
            for j, i in np.ndindex(ny, nx):
                if frac[t, j, i]:
                    w = rng.random()
                    for m, u in enumerate((w, 1 - w) if rng.random() < 0.5 else (1,)):
                        parts[m].append((i + 1, j + 1, u * frac[t, j, i] * area[t, j, i]))
            for m, p in enumerate(parts):
                if not p:
                    continue
                f = ("atm_%s_tile%dXlnd_%s_tile%d.nc" if an == ln and c["same"] else "%s_tile%dX%s_tile%d.nc") % (an, (t + m) % 6 + 1, ln, t + 1)
                q = DS()
                q.add_dim("string", 255); q.add_dim("ncells", len(p)); q.add_dim("two", 2)
                q.add("contact", "char", ("string",), grid.chars("%s:tile%d::%s:tile%d" % (an, (t + m) % 6 + 1, ln, t + 1)))
                q.add("tile1_cell", "int", ("ncells", "two"), rng.integers(1, 4, (len(p), 2)))
                q.add("tile2_cell", "int", ("ncells", "two"), np.array([e[:2] for e in p]))
                q.add("xgrid_area", "double", ("ncells",), [e[2] for e in p], units="m2")
                q.write(os.path.join(d, f))
                files.append(f)
        if not files:
            return ctx.nontrivial(False)
        ds.add_dim("nfile_aXl", len(files))
        ds.add("aXl_file", "char", ("nfile_aXl", "string"), np.array([grid.chars(f) for f in files]))
    if c["gc"]:
        ds.attrs["great_circle_algorithm"] = "TRUE"
    ds.write(os.path.join(d, "grid_spec.nc"))
    args = ["--mosaic", os.path.join(d, "grid_spec.nc"), "--river_src", src]
    if c["mask"]:
        args.append("--read_land_mask")
    if c["thresh"] is not None:
        args += ["--land_thresh", repr(c["thresh"])]
    if c["minf"] is not None:
        args += ["--min_frac", repr(c["minf"])]
    if c["out"]:
        args += ["--output", c["out"]]
    if c["long"]:
        args += ["--min_frac", repr(mf)] * 45
    ctx.ok("river_regrid", *args, cwd=wd)
    base = c["out"] or "river_output"
    names = [base + ".nc"] if nt == 1 else ["%s.tile%d.nc" % (base, t + 1) for t in range(nt)]
    out = [ncio.read(os.path.join(wd, f)) for f in names]
    ids = ("subA", "tocell", "travel", "basin", "cellarea", "celllength", "land_frac", "x", "y")
    g = {}
    for k in ids:
        for o in out:
            if k not in o.vars or o.vars[k].dims != ("grid_y", "grid_x"):
                raise Violation("%s is absent or not on (grid_y, grid_x)" % k)
        g[k] = np.array([o.vars[k].data for o in out]).astype("f8")
        if g[k].shape != (nt, ny, nx):
            raise Violation("%s has shape %s" % (k, g[k].shape))
        for o in out:
            for a, val in satt.get(k, {}).items():
                if a not in o.vars[k].attrs or o.vars[k].attrs[a] != val:
                    raise Violation("attribute %s of %s is %r in the source, %r in the output" % (a, k, val, o.vars[k].attrs.get(a)))
    xt = np.array([x[1::2, 1::2] for x, _ in tiles])
    yt = np.array([y[1::2, 1::2] for _, y in tiles])
    for t, o in enumerate(out):
        ax, ay = (xt[0, 0], yt[0, :, 0]) if nt == 1 else (np.arange(nx) + 1, np.arange(ny) + 1)
        if not (np.allclose(o.vars["grid_x"].data, ax, rtol=0, atol=1e-9) and np.allclose(o.vars["grid_y"].data, ay, rtol=0, atol=1e-9)):
            raise Violation("axes of tile %d: %s %s" % (t + 1, o.vars["grid_x"].data, o.vars["grid_y"].data))
    bad = lambda k, e, tol: np.argwhere(~(np.abs(g[k] - e) <= tol))
    for k, e, tol in (("x", xt, 1e-9), ("y", yt, 1e-9), ("land_frac", land, 1e-9 if c["mask"] else 1e-6)):
        b = bad(k, e, tol)
        if len(b):
            q = tuple(b[0])
            raise Violation("%s of (tile, j, i) %s is %r, expected %r" % (k, q, g[k][q], e[q]))
    sea = land == 0
    mv = dict(zip(("subA", "tocell", "travel", "basin", "cellarea", "celllength"), c["miss"]))
    for k, m in mv.items():
        b = np.argwhere((g[k] == m) != sea)
        if len(b):
            q = tuple(b[0])
            raise Violation("%s of (tile, j, i) %s with land fraction %g is %r (missing value %r)" % (k, q, land[q], g[k][q], m))
    # greatest source value of every cell: [certain, possible]
    lo_ = np.full((nt, ny, nx), float(c["miss"][0]))
    hi_ = lo_.copy()
    for q, l in ov.items():
        for b, a in l:
            r = a / area[q]
            if sub[b] == c["miss"][0]:
                continue
            if r > 1e-4:
                lo_[q] = max(lo_[q], sub[b])
            if r > 1e-8:
                hi_[q] = max(hi_[q], sub[b])
    known = (lo_ == hi_) & ~odd
    level = np.where(land < 1, LARGE, lo_).reshape(-1)
    known = (known | (land < 1)).reshape(-1)
    # the network
    fl = {k: v.reshape(-1) for k, v in g.items()}
    flat_halo = halo.reshape(nt, ny + 2, nx + 2)
    dest = np.full(N, -1)
    length = np.zeros(N)
    for n, (t, j, i) in enumerate(np.ndindex(nt, ny, nx)):
        if sea[t, j, i]:
            continue
        at = "cell (tile, j, i) (%d, %d, %d)" % (t, j, i)
        v = fl["tocell"][n]
        if land[t, j, i] < 1 and v != 0:
            raise Violation("%s is partly sea and flows on (tocell %r)" % (at, v))
        nb = {k: flat_halo[t, j + 1 + DJ[k], i + 1 + DI[k]] for k in range(8)}
        if v == 0:
            k = None
        else:
            k = int(np.log2(v)) if v > 0 else -1
            if k not in nb or 2 ** k != v:
                raise Violation("%s has tocell %r" % (at, v))
            if nb[k] < 0:
                raise Violation("%s flows off the grid (tocell %r)" % (at, v))
            dest[n] = nb[k]
            tt, jj, ii = np.unravel_index(nb[k], (nt, ny, nx))
            length[n] = distance(xt[t, j, i], yt[t, j, i], xt[tt, jj, ii], yt[tt, jj, ii])
        if land[t, j, i] == 1 and known[n] and all(known[m] for m in nb.values() if m >= 0):
            me = level[n]
            near = [level[m] for m in nb.values() if m >= 0 and level[m] != c["miss"][0]]
            to = None
            if me > CUT:
                up = [q for q in near if me < q < LARGE]
                to = max(up) if up else LARGE if LARGE in near else None
            elif near and max(near) > me:
                to = max(near)
            got = None if k is None else level[nb[k]]
            if got != to:
                raise Violation("%s (source drainage area %r, neighbours %s) flows to a cell with %r, expected %r" % (at, me, near, got, to))
    close = lambda a, b, r=1e-8: abs(a - b) <= r * max(abs(a), abs(b))
    ar = area.reshape(-1) * land.reshape(-1)
    seaf = sea.reshape(-1)
    # walk from the outlets upwards: every river cell is reached exactly once
    up = {}
    for n in range(N):
        if dest[n] >= 0 and not seaf[dest[n]]:
            up.setdefault(dest[n], []).append(n)
    outlets = [n for n in range(N) if not seaf[n] and (dest[n] < 0 or seaf[dest[n]])]
    basins = {}
    seen = np.zeros(N, bool)
    total = np.zeros(N)
    order = []
    for o in outlets:
        b = fl["basin"][o]
        if b in basins:
            raise Violation("two rivers share basin %r" % b)
        basins[b] = o
        stack = [(o, 0 if dest[o] < 0 else 1)]
        while stack:
            n, tr = stack.pop()
            seen[n] = True
            order.append(n)
            if fl["travel"][n] != tr:
                raise Violation("travel of cell %s is %r, expected %r" % (np.unravel_index(n, (nt, ny, nx)), fl["travel"][n], tr))
            if fl["basin"][n] != b:
                raise Violation("cell %s of the river of basin %r has basin %r" % (np.unravel_index(n, (nt, ny, nx)), b, fl["basin"][n]))
            stack += [(m, tr + 1) for m in up.get(n, ())]
    if (~seen & ~seaf).any():
        raise Violation("cells that never reach an outlet: %s" % np.argwhere((~seen & ~seaf).reshape(nt, ny, nx))[:3])
    for n in reversed(order):
        total[n] += ar[n]
        if dest[n] >= 0 and not seaf[dest[n]]:
            total[dest[n]] += total[n]
    for n in order:
        at = "cell (tile, j, i) %s" % (np.unravel_index(n, (nt, ny, nx)),)
        if not close(fl["cellarea"][n], ar[n], 1e-6):
            raise Violation("cellarea of %s is %r, expected %r" % (at, fl["cellarea"][n], ar[n]))
        if not close(fl["subA"][n], total[n], 1e-6):
            raise Violation("drainage area of %s is %r, upstream area %r" % (at, fl["subA"][n], total[n]))
        if not close(fl["celllength"][n], length[n]) and abs(length[n]) > 1e-3:
            raise Violation("celllength of %s is %r, expected %r" % (at, fl["celllength"][n], length[n]))
    if sorted(basins) != list(range(1, len(outlets) + 1)):
        raise Violation("basins are numbered %s" % sorted(basins)[:30])
    a = [total[basins[b]] for b in sorted(basins)]
    if any(a[m] < a[m + 1] * (1 - 1e-6) for m in range(len(a) - 1)):
        raise Violation("basins are not in order of their drainage area: %s" % a[:30])
    ctx.label("%s%s" % (c["kind"], c.get("bc", "")))
    ctx.nontrivial(len(order) and max(fl["travel"][n] for n in order) > 1 and sea.any())
