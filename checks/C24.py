"""remap_land: every destination tile gets the data of the nearest source tile of its kind."""
import copy
import os
import numpy as np
from hypothesis import strategies as st
from vlib.engine import Violation
from vlib import ncio, grid, sph
from vlib.ncio import DS

ID = "C24"
QUICK, THOROUGH = 700, 20000
RULE = ("Generated land restart sets (one- or six-face grids, soil / glacier / lake tiles, levels, cohorts, soil and litter cohorts, species names, fire days, static vegetation with a time axis; all eight file types) and "
        "cold restarts on generated destination grids, with or without a remap file written or read back, serial or parallel; every variable of every output file is compared with a model that takes, for each destination cell, "
        "the tiles of the nearest source cell that has soil (or glacier, lake); non-trivial = at least two kinds of tiles or cells mapped from different source faces or cells.")
ASSUMPTIONS = ["at most one glacier and one lake tile per cell", "cohort data do not hold the default fill value", "source data are mapped from a grid without two source cells at the same distance", "where a destination cell gets more tiles than the tile axis of the source has, the tool must refuse"]
FI, FD = -2147483647, 9.969209968386869e+36
KINDS = ["land", "soil", "cana", "snow", "lake", "glac", "vegn", "fire"]


def strategy(tier):
    @st.composite
    def s(draw):
        g = lambda: dict(nf=draw(st.sampled_from([1, 6, 6])), nx=draw(st.integers(1, 4)), ny=draw(st.integers(1, 3)))
        return dict(src=g(), dst=g(), kind=draw(st.sampled_from(KINDS + ["vegn", "vegn", "soil"])), nt=draw(st.integers(1, 4)), slack=draw(st.sampled_from([2, 2, 0, 1, 3, 5])), gaps=draw(st.booleans()),
                    land=draw(st.sampled_from([0.2, 0.5, 0.9, 1.0])), cold=draw(st.sampled_from([0.2, 0.5, 0.8, 1.0])), glac=draw(st.sampled_from([0, 0.4, 0.8])), lake=draw(st.sampled_from([0, 0.4, 0.8])),
                    dry=draw(st.sampled_from([[], [], [0], [2, 3], [5]])), ddry=draw(st.sampled_from([[], [], [0], [4]])), nz=draw(st.sampled_from([0, 1, 3])), nc=draw(st.integers(1, 3)),
                    sc=draw(st.integers(0, 2)), lc=draw(st.integers(0, 2)), sp=draw(st.booleans()), md=draw(st.integers(0, 3)), time=draw(st.sampled_from([0, 0, 1, 2, 3])),
                    tilevar=draw(st.booleans()), ctilevar=draw(st.booleans()), cohvar=draw(st.booleans()), ccohvar=draw(st.booleans()), nvar=draw(st.integers(1, 4)), fill=draw(st.sampled_from([0, 0, 0, 0.2])),
                    late=draw(st.sampled_from([False, False, False, True])), remap=draw(st.sampled_from([None, None, "new", "reuse"])), np=draw(st.sampled_from([0, 0, 0, 1, 2, 3])),
                    long=draw(st.sampled_from([False] * 7 + [True])), seed=draw(st.integers(0, 2 ** 20)))
    return s()


def name(base, nf, f):
    return base + ".nc" if nf == 1 else "%s.tile%d.nc" % (base, f + 1)


def make_grid(ctx, d, nm, g, rng):
    """scattered cell centres; returns their positions"""
    files, pts = [], []
    for f in range(g["nf"]):
        h, w = 2 * g["ny"] + 1, 2 * g["nx"] + 1
        z = rng.uniform(-0.999, 0.999, (h, w))
        x, y = rng.uniform(0, 360, (h, w)), np.degrees(np.arcsin(z))
        grid.hgrid(os.path.join(d, "%s.tile%d.nc" % (nm, f + 1)), x, y, "tile%d" % (f + 1))
        files.append("%s.tile%d.nc" % (nm, f + 1))
        pts.append((x[1::2, 1::2], y[1::2, 1::2]))
    grid.mosaic(os.path.join(d, nm + "_mosaic.nc"), nm, files, ["tile%d" % (k + 1) for k in range(g["nf"])], location=d)
    return pts


def make_tiles(rng, g, ntile, land, glac, lake, dry, gaps, maxsoil):
    """per face the land tiles [(number, cell, kind, frac, tag, vegn)] in file order"""
    out = []
    for f in range(g["nf"]):
        ts = []
        for p in range(g["nx"] * g["ny"]):
            if f in dry or rng.random() >= land:
                continue
            kinds = ["soil"] * int(rng.integers(0 if glac or lake else 1, maxsoil + 1))
            if rng.random() < glac:
                kinds.insert(int(rng.integers(len(kinds) + 1)), "glac")
            if rng.random() < lake:
                kinds.insert(int(rng.integers(len(kinds) + 1)), "lake")
            if not kinds:
                continue
            kinds = kinds[:ntile]
            nums = sorted(rng.choice(ntile, len(kinds), replace=False)) if gaps else range(len(kinds))
            fr = rng.uniform(0.05, 1, len(kinds)) * rng.choice([1.0, 0.3])
            for k, n, a in zip(kinds, nums, fr / fr.sum() * rng.uniform(0.2, 1)):
                ts.append((int(n), p, k, a, int(rng.integers(1, 40)), int(rng.integers(0, 9))))
        out.append(sorted(ts))
    return out


def land_file(path, g, pts, ts, ntile, tilevar, extra=None):
    ds = DS()
    n = len(ts)
    base_dims(ds, g, pts, ntile, n, tilevar)
    idx = [t[0] * g["nx"] * g["ny"] + t[1] for t in ts]
    ds.add("tile_index", "int", ("tile_index",), pad(idx, FI), compress="tile lat lon")
    ds.add("frac", "double", ("tile_index",), pad([t[3] for t in ts], FD), long_name="fractional area of tile")
    for k in ("glac", "lake", "soil"):
        ds.add(k, "int", ("tile_index",), pad([t[4] if t[2] == k else FI for t in ts], FI), long_name="tag of " + k)
    ds.add("vegn", "int", ("tile_index",), pad([t[5] if t[2] == "soil" else FI for t in ts], FI), long_name="tag of vegetation")
    for k, v in (extra or {}).items():
        ds.vars[k] = v
    ds.write(path)
    return ds


def pad(v, fill):
    return np.array(v) if len(v) else np.array([fill])


def base_dims(ds, g, pts, ntile, n, tilevar):
    ds.add_dim("lon", g["nx"]); ds.add_dim("lat", g["ny"]); ds.add_dim("tile", ntile); ds.add_dim("tile_index", max(n, 1))
    ds.add("lon", "double", ("lon",), pts[0][0], units="degrees_east", long_name="longitude", cartesian_axis="X")
    ds.add("lat", "double", ("lat",), pts[1][:, 0], units="degrees_north", long_name="latitude", cartesian_axis="Y")
    if tilevar:
        ds.add("tile", "int", ("tile",), np.arange(1, ntile + 1), long_name="tile number within grid cell")


def sel(kind, t):
    return kind in ("land", "cana", "snow") or t[2] == (kind if kind in ("glac", "lake") else "soil")


def run(c, ctx):
    c = copy.deepcopy(c)
    rng = np.random.default_rng(c["seed"])
    kind, S, T = c["kind"], c["src"], c["dst"]
    ctx.label(kind)
    d = ctx.path("a_directory_with_a_rather_long_name_as_they_are_found_in_archives_of_experiments" * 2) if c["long"] else ctx.path("d")
    os.makedirs(d)
    P = lambda n: os.path.join(d, n)
    sp, tp = make_grid(ctx, d, "src", S, rng), make_grid(ctx, d, "dst", T, rng)
    ntile = c["nt"] + c["slack"]
    st_ = make_tiles(rng, S, ntile, c["land"], c["glac"], c["lake"], c["dry"], c["gaps"], c["nt"])
    nct = c["nt"] + 2
    ct = make_tiles(rng, T, nct, c["cold"], c["glac"], c["lake"], c["ddry"], False, c["nt"])
    if not any(ct):
        ct[0] = [(0, 0, "soil", 0.5, 1, 1)]
    for k in ("soil", "glac", "lake"):
        if any(t[2] == k for ts in ct for t in ts) and not any(t[2] == k for ts in st_ for t in ts):
            ct = [[t for t in ts if t[2] != k] for ts in ct]
    if not any(ct) or not any(st_):
        return ctx.nontrivial(False)
    # source files
    extra = []
    vrng = np.random.default_rng(c["seed"] + 1)
    ntime = (c["time"] if kind == "vegn" else min(c["time"], 1)) if c["time"] else 0
    srcs, exp_vars = [], None
    hasz = c["nz"] and kind not in ("land",)
    for f in range(S["nf"]):
        ts = [t for t in st_[f] if sel(kind, t)]
        n = len(ts)
        ds = DS()
        base_dims(ds, S, sp[f], ntile, n, c["tilevar"])
        ns = S["nx"] * S["ny"]
        ds.add("tile_index", "int", ("tile_index",), pad([t[0] * ns + t[1] for t in ts], FI), compress="tile lat lon")
        hidden = {}
        if hasz:
            ds.add_dim("zfull", c["nz"])
            ds.add("zfull", "double", ("zfull",), np.arange(c["nz"]) + 0.25, units="m")
        if ntime:
            ds.add_dim("time", ntime, True)
            ds.add("time", "double", ("time",), np.arange(ntime) * 30.5 + 1, units="days since 0001-01-01 00:00:00")
        pre = ("time",) if ntime and kind == "vegn" else ()
        body = []

        def data(dt, dims, cells=n, nofill=False):
            shp = tuple(max(cells, 1) if x in ("tile_index", "cohort_index") else ds.dims[x] for x in dims)
            a = vrng.integers(-1000, 1000, shp) if dt == "int" else vrng.normal(0, 50, shp)
            if c["fill"] and not nofill:
                a = np.where(vrng.random(shp) < c["fill"], FI if dt == "int" else FD, a)
            return a
        for v in range(c["nvar"]):
            dt = ["double", "int", "double", "double"][v]
            dims = (pre if v % 2 == 0 else ()) + (("zfull",) if hasz and v != 1 and v % 3 != 2 else ()) + ("tile_index",)
            body.append(("v%d" % v, dt, dims, data(dt, dims)))
        if kind in ("vegn", "soil"):
            if c["sc"]:
                ds.add_dim("soilCCohort", c["sc"]); ds.add("soilCCohort", "double", ("soilCCohort",), np.arange(c["sc"]) + 1.0)
                if hasz:
                    for dt in ("double", "int"):
                        dims = ("soilCCohort", "zfull", "tile_index")
                        body.append(("sc_" + dt, dt, dims, data(dt, dims)))
            if c["lc"]:
                ds.add_dim("litterCCohort", c["lc"]); ds.add("litterCCohort", "double", ("litterCCohort",), np.arange(c["lc"]) + 1.0)
                dims = pre + ("litterCCohort", "tile_index")
                body.append(("lc_d", "double", dims, data("double", dims)))
            if c["sp"]:
                ds.add_dim("nspecies", 2); ds.add_dim("textlen", 6)
                ds.add("nspecies", "double", ("nspecies",), [1.0, 2.0]); ds.add("textlen", "double", ("textlen",), np.arange(6) + 1.0)
                body.append(("species_names", "char", ("nspecies", "textlen"), np.array([[b"g", b"r", b"a", b"s", b"s", b" "], [b"t", b"r", b"e", b"e", b" ", b" "]], "S1")))
        if kind == "fire" and c["md"]:
            ds.add_dim("mdf_day", c["md"]); ds.add("mdf_day", "double", ("mdf_day",), np.arange(c["md"]) + 1.0)
            dims = ("mdf_day", "tile_index")
            body.append(("md_d", "double", dims, data("double", dims)))
        coh = None
        if kind == "vegn":
            ds.add_dim("cohort", c["nc"])
            if c["cohvar"]:
                ds.add("cohort", "int", ("cohort",), np.arange(1, c["nc"] + 1))
            coh = [((k * ntile + t[0]) * ns + t[1], k, i) for k in range(c["nc"]) for i, t in enumerate(ts) if k == 0 or vrng.random() < 0.5]
            if vrng.random() < 0.5:
                coh = [q for q in coh if vrng.random() < 0.8]
            coh.sort()
            ds.add_dim("cohort_index", max(len(coh), 1))
            cv = ("cohort_index", "int", ("cohort_index",), pad([q[0] for q in coh], FI))
            b2 = []
            for v, dt in enumerate(["double", "int"]):
                dims = (pre if v == 0 else ()) + ("cohort_index",)
                b2.append(("c%d" % v, dt, dims, data(dt, dims, len(coh), True)))
            b2.append(("n_accum", "int", (), np.array(int(vrng.integers(0, 99)))))
            body = body + b2 + [cv] if c["late"] else [cv] + body + b2
        elif c["late"]:
            ti = ds.vars.pop("tile_index")
            body.append(("tile_index", "int", ("tile_index",), ti.data))
        if kind == "land":
            for nm in ("frac", "glac", "lake", "soil", "vegn"):
                if nm == "frac":
                    body.append((nm, "double", ("tile_index",), pad([t[3] for t in ts], FD)))
                elif nm == "vegn":
                    body.append((nm, "int", ("tile_index",), pad([t[5] if t[2] == "soil" else FI for t in ts], FI)))
                else:
                    body.append((nm, "int", ("tile_index",), pad([t[4] if t[2] == nm else FI for t in ts], FI)))
        for nm, dt, dims, v in body:
            ds.add(nm, dt, dims, v, long_name="field " + nm, **({} if dt == "char" else {"valid": np.int32(3)}))
        srcs.append((ds, ts, coh))
        if kind != "land":
            land_file(P(name("src_land.res", S["nf"], f)), S, sp[f], st_[f], ntile, True)
        ds.write(P(name("src.res", S["nf"], f)))
    # cold restarts
    for f in range(T["nf"]):
        land_file(P(name("cold_land.res", T["nf"], f)), T, tp[f], ct[f], nct, c["ctilevar"] if kind == "land" else True)
        if kind != "land":
            ds = DS()
            base_dims(ds, T, tp[f], nct, 1, c["ctilevar"])
            ds.add_dim("cohort", c["nc"])
            if kind == "vegn" and c["ccohvar"]:
                ds.add("cohort", "int", ("cohort",), np.arange(1, c["nc"] + 1))
            ds.write(P(name("cold.res", T["nf"], f)))
    # the model
    pos = [[(f, p) for f in range(S["nf"]) for p in sorted({t[1] for t in st_[f] if t[2] == k})] for k in ("soil", "glac", "lake")]
    kin = ["soil", "glac", "lake"]
    xyz = [sph.xyz(x.ravel(), y.ravel()) for x, y in sp]
    use = set(); seen = set(); over = False
    expect = []
    for f in range(T["nf"]):
        v = sph.xyz(tp[f][0].ravel(), tp[f][1].ravel())
        cells = {}
        for p in range(T["nx"] * T["ny"]):
            mine = [t for t in ct[f] if t[1] == p]
            lst = []
            for k, cand in zip(kin, pos):
                cold = [t for t in mine if t[2] == k]
                if not cold:
                    continue
                dist = np.array([np.sum((xyz[a][b] - v[p]) ** 2) for a, b in cand])
                o = np.argsort(dist)
                if len(o) > 1 and dist[o[1]] - dist[o[0]] < 1e-9:
                    return ctx.nontrivial(False)
                a, b = cand[o[0]]
                use.add(k); seen.add((a, b))
                s_ = [t for t in st_[a] if t[1] == b and t[2] == k]
                tot = sum(t[3] for t in cold)
                q = sum(t[3] for t in s_)
                for t in s_:
                    lst.append((a, t, t[3] * tot / q if k == "soil" else cold[0][3]))
            over = over or len(lst) > ntile
            cells[p] = lst
        rows = [(n, p, a, t, fr) for p, lst in cells.items() for n, (a, t, fr) in enumerate(lst) if sel(kind, t)]
        rows.sort(key=lambda r: (r[0], r[1]))
        expect.append(rows)
    anyg = {k: any(t[2] == k for ts in ct for t in ts) for k in kin}
    ctx.nontrivial(len(use) > 1 or len(seen) > 1)
    tool = "remap_land_parallel" if c["np"] else "remap_land"
    mpi = min(c["np"], T["nx"] * T["ny"])
    args = ["--src_mosaic", P("src_mosaic.nc"), "--dst_mosaic", P("dst_mosaic.nc")]
    if c["remap"]:
        args += ["--remap_file", P("remap" + (".nc" if T["nf"] == 1 else ""))]
    ps = lambda n: P(n + (".nc" if S["nf"] == 1 and c["seed"] % 2 else ""))
    pt = lambda n: P(n + (".nc" if T["nf"] == 1 and c["seed"] % 2 else ""))
    landargs = [] if kind == "land" else ["--land_src_restart", ps("src_land.res"), "--land_cold_restart", pt("cold_land.res")]
    if c["remap"] == "reuse":
        a = ["--file_type", "land", "--src_restart", ps("src.res" if kind == "land" else "src_land.res"), "--dst_restart", pt("first"), "--dst_cold_restart", pt("cold_land.res")]
        r = ctx.run(tool, *args, *a, mpi=mpi, cwd=ctx.dir)
        if over:
            if r.rc == 0:
                raise Violation("remap_land accepted more tiles in a cell than the tile axis has")
            return
        if r.rc:
            raise Violation("remap_land --file_type land failed: %s %s" % (r.out[-300:], r.err[-300:]))
    r = ctx.run(tool, *args, "--file_type", kind, "--src_restart", ps("src.res"), "--dst_restart", pt("out.res"), "--dst_cold_restart", pt("cold_land.res" if kind == "land" else "cold.res"), *landargs, mpi=mpi, cwd=ctx.dir)
    if over:
        if r.rc == 0:
            raise Violation("remap_land accepted more tiles in a cell than the tile axis has")
        return
    if r.rc:
        raise Violation("%s --file_type %s failed on a valid input: rc=%s %s %s" % (tool, kind, r.rc, r.out[-300:], r.err[-500:]))
    s0 = srcs[0][0]
    for f in range(T["nf"]):
        path = P(name("out.res", T["nf"], f))
        got = ncio.read(path)
        rows = expect[f]
        nsd = T["nx"] * T["ny"]
        dims = {k: v for k, v in s0.dims.items()}
        dims.update(lon=T["nx"], lat=T["ny"], tile_index=max(len(rows), 1))
        # cohorts: those of the source tile, in the order of their index
        crow = []
        if kind == "vegn":
            for n, p, a, t, _ in rows:
                ds, ts, coh = srcs[a]
                for m, (ix, k, i) in enumerate(coh):
                    if ts[i] == t:
                        crow.append(((k * ntile + n) * nsd + p, a, m))
            crow.sort()
            dims["cohort_index"] = max(len(crow), 1)
        names = list(s0.vars)
        if not c["tilevar"] and c["ctilevar"]:
            names.append("tile")
        if kind == "vegn" and not c["cohvar"] and c["ccohvar"]:
            names.append("cohort")
        where = "face %d of %s" % (f + 1, kind)
        if sorted(got.vars) != sorted(names):
            raise Violation("%s: variables %s, expected %s" % (where, sorted(got.vars), sorted(names)))
        if got.dims != dims:
            raise Violation("%s: dimensions %s, expected %s" % (where, dict(got.dims), dims))
        for nm in names:
            g = got.vars[nm]
            v = s0.vars.get(nm)
            if v is not None:
                if g.dtype != v.dtype or g.dims != v.dims or ncio.att_diff(v.attrs, g.attrs, ()):
                    raise Violation("%s: %s is %s%s %s, expected %s%s %s" % (where, nm, g.dtype, g.dims, dict(g.attrs), v.dtype, v.dims, dict(v.attrs)))
            tol = 0
            if nm == "lon":
                e = tp[f][0][0]
            elif nm == "lat":
                e = tp[f][1][:, 0]
            elif nm == "tile":
                e = np.arange(1, ntile + 1)
            elif nm == "cohort":
                e = np.arange(1, c["nc"] + 1)
            elif nm == "n_accum":
                e = srcs[f if S["nf"] == T["nf"] else 0][0].vars[nm].data
            elif v.dims[-1:] not in (("tile_index",), ("cohort_index",)):
                e = v.data
            elif v.dims[-1] == "tile_index" and not rows or v.dims[-1] == "cohort_index" and not crow:
                continue
            elif nm == "tile_index":
                e = np.array([n * nsd + p for n, p, _, _, _ in rows])
            elif nm == "cohort_index":
                e = np.array([q[0] for q in crow])
            elif nm == "frac" and kind == "land":
                e = np.array([q[4] for q in rows]); tol = 1e-12
            elif nm in ("glac", "lake") and kind == "land" and not anyg[nm]:
                e = np.full(len(rows), FI)
            elif v.dims[-1] == "cohort_index":
                e = np.stack([srcs[a][0].vars[nm].data[..., m] for _, a, m in crow], -1)
            else:
                e = np.stack([srcs[a][0].vars[nm].data[..., srcs[a][1].index(t)] for _, _, a, t, _ in rows], -1)
            gd = np.asarray(g.data)
            same = gd.shape == np.shape(e) and (np.all(gd == e) if not tol else np.allclose(gd, e, rtol=tol, atol=0))
            if not same:
                raise Violation("%s: %s is %s, expected %s" % (where, nm, gd.tolist(), np.asarray(e).tolist()))
