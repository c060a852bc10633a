"""check_mask: the mask tables list exactly the domains without active points (halo included)."""
import copy
import os
import numpy as np
from hypothesis import strategies as st
from vlib.engine import Violation
from vlib import grid, cs
from vlib.ncio import DS
from checks.C03 import extent

ID = "C23"
QUICK, THOROUGH = 1000, 40000
RULE = ("Generated ocean masks (old grid files with wet, or mosaic and topography with a sea level; closed, cyclic, doubly cyclic or tripolar edges; halos 0-3) and processor ranges or layouts, and generated land fractions "
        "on a cubed sphere with exchange grids split over files; the set of mask tables and every line of them is compared with a model of the layouts, the decomposition and the halo; "
        "non-trivial = a table that masks some domains and keeps others.")
ASSUMPTIONS = ["halo not wider than the grid", "the remarks about open boundaries (--nobc) and --show_valid_only are not judged, only that the masks are the same", "land grids are the six-tile cubed sphere, halo one, as the tool states"]


def strategy(tier):
    @st.composite
    def s(draw):
        c = dict(seed=draw(st.integers(0, 2 ** 20)), fill=draw(st.sampled_from([-1.0, -1.0, 0.0, 0.02, 0.05, 0.15, 0.4, 0.9])), blob=draw(st.booleans()))
        if draw(st.integers(0, 4)) == 0:
            c["kind"] = "land"
            c["n"] = draw(st.integers(1, 12))
            c["layout"] = [draw(st.integers(1, min(c["n"], 6))), draw(st.integers(1, min(c["n"], 6)))]
            c["names"] = draw(st.sampled_from([["atmos_mosaic", "land_mosaic"], ["C12_mosaic", "C12_mosaic"], ["a", "b"], ["xland", "land"], ["a", "C48_mosaic"]]))
            c["split"] = draw(st.integers(1, 3))
            c["halo"] = draw(st.sampled_from([None, None, 2]))
            c["sub"] = draw(st.booleans())
            return c
        c["kind"] = draw(st.sampled_from(["wet", "topo", "topo"]))
        c["nx"], c["ny"] = draw(st.integers(2, 40)), draw(st.integers(2, 40))
        c["bc"] = draw(st.sampled_from(["closed", "x", "y", "xy", "tri", "xtri", "xtri"]))
        if "tri" in c["bc"]:
            c["nx"] += c["nx"] % 2
        c["halo"] = draw(st.sampled_from([None, 0, 1, 2, 3]))
        c["halo"] = c["halo"] if c["halo"] is None else min(c["halo"], c["nx"], c["ny"])
        if draw(st.booleans()):
            c["layout"] = [draw(st.integers(1, c["nx"])), draw(st.integers(1, c["ny"]))]
        else:
            c["layout"] = None
            a = draw(st.sampled_from([None, 1, 2, 4, 7, 16]))
            c["pes"] = [a, draw(st.one_of(st.none(), st.integers(a or 4, 150)))]
        c["sea"] = draw(st.sampled_from([None, None, 0.0, 10.0, 2.5, -0.5]))
        c["dtype"] = draw(st.sampled_from(["double", "double", "float"])) if c["kind"] == "topo" else "double"
        return c
    return s()


def layouts(nx, ny, np_):
    f = np.float32(np.sqrt(1.0 * np_ * nx / ny))
    i = int(np.floor(f))
    if np.float64(f) - i > 0.5:
        i += 1
    i = max(i, 1)
    while np_ % i:
        i -= 1
    return i, np_ // i


def cuts(n, nd):
    return [(a, b + 1) for a, b in extent(n, nd)]


def active(rng, ny, nx, c):
    if c["fill"] < 0:       # a few points on the sides and corners, seen from the other side only
        m = np.zeros((ny, nx), bool)
        for _ in range(rng.integers(1, 4)):
            e = lambda n: int(rng.choice([0, 0, n - 1, n - 1, min(1, n - 1), max(n - 2, 0), rng.integers(n)]))
            m[e(ny), e(nx)] = True
        return m
    if c["blob"] and nx * ny > 1:
        a = np.zeros((ny, nx), bool)
        for _ in range(rng.integers(1, 3)):
            j, i = rng.integers(ny), rng.integers(nx)
            h, w = rng.integers(1, max(2, int(ny * c["fill"]) + 2)), rng.integers(1, max(2, int(nx * c["fill"]) + 2))
            a[j:j + h, i:i + w] = True
        return a
    return rng.random((ny, nx)) < c["fill"]


def tables(d):
    return {f: open(os.path.join(d, f)).read() for f in os.listdir(d) if f.startswith("mask_table")}


def compare(d, exp, ctx):
    got = tables(d)
    if set(got) != set(exp):
        raise Violation("mask tables %s written, expected %s" % (sorted(got), sorted(exp)))
    for f, lines in exp.items():
        if got[f].splitlines() != lines:
            raise Violation("%s contains %s, expected %s" % (f, got[f].splitlines()[:40], lines[:40]))


def run(c, ctx):
    c = copy.deepcopy(c)
    rng = np.random.default_rng(c["seed"])
    ctx.label(c["kind"])
    wd = ctx.path("run")
    os.makedirs(wd)
    if c["kind"] == "land":
        return land(c, ctx, rng, wd)
    nx, ny, bc = c["nx"], c["ny"], c["bc"]
    wet = active(rng, ny, nx, c)
    sea = c["sea"] or 0.0
    args = []
    if c["kind"] == "wet":
        ds = DS()
        ds.add_dim("grid_x_T", nx); ds.add_dim("grid_y_T", ny)
        ds.add("wet", "double", ("grid_y_T", "grid_x_T"), wet.astype(float))
        ds.attrs["x_boundary_type"] = "cyclic" if bc in ("x", "xy", "xtri") else "solid_walls"
        ds.attrs["y_boundary_type"] = "cyclic" if bc in ("y", "xy") else "fold_north_edge" if bc in ("tri", "xtri") else "solid_walls"
        ds.write(ctx.path("grid_spec.nc"), "NETCDF3_CLASSIC")
        args += ["--grid_file", ctx.path("grid_spec.nc")]
    else:
        x, y = np.meshgrid(np.linspace(0, 360, 2 * nx + 1), np.linspace(-80, 80, 2 * ny + 1))
        grid.hgrid(ctx.path("og.nc"), x, y, "tile1")
        con = []
        if "x" in bc:
            con.append((0, 0, "%d:%d,1:%d::1:1,1:%d" % (2 * nx, 2 * nx, 2 * ny, 2 * ny)))
        if bc in ("y", "xy"):
            con.append((0, 0, "1:%d,1:1::1:%d,%d:%d" % (2 * nx, 2 * nx, 2 * ny, 2 * ny)))
        if bc in ("tri", "xtri"):
            con.append((0, 0, "1:%d,%d:%d::%d:%d,%d:%d" % (nx, 2 * ny, 2 * ny, 2 * nx, nx + 1, 2 * ny, 2 * ny)))
        grid.mosaic(ctx.path("om.nc"), "om", ["og.nc"], ["tile1"], contacts=con)
        land_d = rng.choice([sea, sea - 0.25, sea - 100.0, 0.0 if sea >= 0 else sea], (ny, nx))
        dep = np.where(wet, sea + rng.choice([0.25, 0.5, 1.0, 300.0], (ny, nx)), land_d)
        ds = DS()
        ds.add_dim("nx", nx); ds.add_dim("ny", ny)
        ds.add("depth", c["dtype"], ("ny", "nx"), dep, units="meters")
        ds.write(ctx.path("topog.nc"), "NETCDF3_CLASSIC")
        args += ["--grid_file", ctx.path("om.nc"), "--ocean_topog", ctx.path("topog.nc")]
        if c["sea"] is not None:
            args += ["--sea_level", repr(sea)]
    halo = 1 if c["halo"] is None else c["halo"]
    if c["halo"] is not None:
        args += ["--halo", str(halo)]
    if c["seed"] % 4 == 0:      # open boundaries only add remarks to the report
        k = int(rng.integers(1, 5))
        lst = lambda v: ",".join(str(q) for q in v)
        i0, j0 = rng.integers(1, nx + 1, k), rng.integers(1, ny + 1, k)
        args += ["--nobc", str(k), "--direction", lst(rng.choice(["west", "east", "south", "north"], k)), "--is", lst(i0), "--ie", lst(i0 + rng.integers(0, 2, k)),
                 "--js", lst(j0), "--je", lst(j0 + rng.integers(0, 2, k))]
        ctx.label("open boundaries")
    if c["layout"]:
        todo = [tuple(c["layout"])]
        args += ["--layout", "%d,%d" % todo[0]]
    else:
        lo, hi = c["pes"]
        if lo is not None:
            args += ["--min_pe", str(lo)]
        if hi is not None:
            args += ["--max_pe", str(hi)]
        todo = [layouts(nx, ny, p) for p in range(4 if lo is None else lo, (128 if hi is None else hi) + 1)]
        todo = [l for l in todo if l[0] <= nx and l[1] <= ny]
    # active points with their surroundings: every index of the halo is looked up in the grid it continues into
    def at(j, i):
        if i < 0 or i >= nx:
            if "x" not in bc:
                # beyond a closed side nothing, and the fold only mirrors what is there
                return False
            i %= nx
        if j < 0 or j >= ny:
            if bc in ("y", "xy"):
                j %= ny
            elif bc in ("tri", "xtri") and j >= ny:
                j, i = 2 * ny - 1 - j, nx - 1 - i
            else:
                return False
        return wet[j, i]
    full = np.array([[at(j, i) for i in range(-halo, nx + halo)] for j in range(-halo, ny + halo)])
    exp = {}
    cum = np.zeros((ny + 2 * halo + 1, nx + 2 * halo + 1), int)
    cum[1:, 1:] = full.cumsum(0).cumsum(1)
    nt = False
    for lx, ly in todo:
        lst = []
        for j, (j0, j1) in enumerate(cuts(ny, ly)):
            for i, (i0, i1) in enumerate(cuts(nx, lx)):
                a, b, p, q = j0, j1 + 2 * halo, i0, i1 + 2 * halo
                if cum[b, q] - cum[a, q] - cum[b, p] + cum[a, p] == 0:
                    lst.append("%d,%d" % (i + 1, j + 1))
        if lst:
            exp["mask_table.%d.%dx%d" % (len(lst), lx, ly)] = ["%d" % len(lst), "%d, %d" % (lx, ly)] + lst
            nt = nt or len(lst) < lx * ly
    ctx.ok("check_mask", *args, cwd=wd)
    ctx.nontrivial(nt)
    compare(wd, exp, ctx)


def land(c, ctx, rng, wd):
    n = c["n"]
    tiles, con = cs.cube(n)
    an, ln = c["names"]
    d = ctx.path("grids") if c["sub"] else ctx.dir
    cs.write(d, ln, tiles, con)
    a = np.array([active(rng, n, n, c) for _ in range(6)])
    if c["seed"] % 3 == 0:
        a[rng.integers(6)] = False
    idx = cs.halo_index(tiles)
    flat = np.append(a.ravel(), False)
    full = flat[idx]
    files = []
    for t in range(6):
        cells = [(i + 1, j + 1) for j in range(n) for i in range(n) if a[t, j, i]]
        # every land cell may be covered from several atmosphere tiles; a tile may have no file at all
        parts = [[] for _ in range(c["split"])]
        for q in cells:
            for m in sorted({int(rng.integers(c["split"])) for _ in range(2)}):
                parts[m].append(q)
        for m, p in enumerate(parts):
            if not p:
                continue
            # make_coupler_mosaic marks the components when all of them share one mosaic
            f = ("atm_%s_tile%dXlnd_%s_tile%d.nc" if an == ln and c["sub"] else "%s_tile%dX%s_tile%d.nc") % (an, (t + m) % 6 + 1, ln, t + 1)
            ds = DS()
            ds.add_dim("string", 255); ds.add_dim("ncells", len(p)); ds.add_dim("two", 2)
            ds.add("contact", "char", ("string",), grid.chars("%s:tile%d::%s:tile%d" % (an, (t + m) % 6 + 1, ln, t + 1)))
            ds.add("tile1_cell", "int", ("ncells", "two"), rng.integers(1, n + 1, (len(p), 2)))
            ds.add("tile2_cell", "int", ("ncells", "two"), np.array(p))
            ds.add("xgrid_area", "double", ("ncells",), rng.uniform(1e3, 1e9, len(p)), units="m2")
            ds.write(os.path.join(d, f))
            files.append(f)
    if not files:
        return ctx.nontrivial(False)
    rng.shuffle(files)
    ds = DS()
    ds.add_dim("string", 255); ds.add_dim("nfile_aXl", len(files))
    ds.add("lnd_mosaic_dir", "char", ("string",), grid.chars("./"))
    ds.add("lnd_mosaic_file", "char", ("string",), grid.chars(ln + ".nc"))
    ds.add("lnd_mosaic", "char", ("string",), grid.chars(ln))
    ds.add("aXl_file", "char", ("nfile_aXl", "string"), np.array([grid.chars(f) for f in files]))
    ds.write(os.path.join(d, "mosaic.nc"))
    lx, ly = c["layout"]
    lst = []
    for t in range(6):
        for j, (j0, j1) in enumerate(cuts(n, ly)):
            for i, (i0, i1) in enumerate(cuts(n, lx)):
                if not full[t, j0:j1 + 2, i0:i1 + 2].any():
                    lst.append("%d,%d,%d" % (i + 1, j + 1, t + 1))
    args = ["--grid_file", os.path.join(d, "mosaic.nc"), "--model", "land", "--layout", "%d,%d" % (lx, ly)]
    if c["halo"]:
        args += ["--halo", str(c["halo"])]
    ctx.ok("check_mask", *args, cwd=wd)
    ctx.nontrivial(0 < len(lst) < 6 * lx * ly)
    compare(wd, {"mask_table.%d.%dx%d" % (len(lst), lx, ly): ["%d" % len(lst), "%d, %d, 6" % (lx, ly)] + lst} if lst else {}, ctx)
