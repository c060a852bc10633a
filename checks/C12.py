"""make_hgrid: longitude-latitude, tripolar, plane, spectral and user-given grids."""
import os
import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import PchipInterpolator
from vlib.engine import Violation
from vlib import ncio, sph
from vlib.ncio import DS, Var
from vlib.sph import R, D

ID = "C12"
QUICK, THOROUGH = 4000, 80000
RULE = ("Generated grid specifications (regular_lonlat, tripolar, f/beta plane, simple cartesian, spectral, from_file in the text and four "
        "netCDF layouts; bounds with 1-4 regions by number of points or nominal resolution; t/c/no centring; great circle areas); every vertex, "
        "length, area and angle of the output is compared with formulas in numpy; non-trivial = varying resolution, a tripolar cap, or a file.")
ASSUMPTIONS = ["lengths and areas are compared to 1e-8 relative, coordinates to 1e-9 degrees (1e-7 near the bipolar poles)",
               "cell areas of the tripolar cap touching the poles or the join are compared through the total only"]


@st.composite
def axis(draw, lo, hi, legacy, even):
    nb = draw(st.integers(2, 4))
    if legacy:
        n = [draw(st.integers(2, 6)) for _ in range(nb - 1)]
        d = [draw(st.sampled_from([1.0, 1.0, 2.0, 0.5, 1.5])) for _ in range(nb)]
        return dict(nb=nb, n=n, d=d)
    w = [draw(st.integers(1, 12)) for _ in range(nb - 1)]
    n = [draw(st.integers(1, 6)) * 2 for _ in range(nb - 1)] if even else [draw(st.integers(1, 10)) for _ in range(nb - 1)]
    if draw(st.integers(0, 30)) == 0:
        n[0] *= 12
    return dict(nb=nb, w=w, n=n)


@st.composite
def cases(draw):
    c = {}
    c["type"] = t = draw(st.sampled_from(["regular_lonlat_grid"] * 3 + ["tripolar_grid"] * 3 + ["f_plane_grid", "beta_plane_grid", "simple_cartesian_grid",
                                                                                              "spectral_grid", "text", "v1", "v1", "v2", "v3", "v5"]))
    c["gc"] = draw(st.booleans())
    c["name"] = draw(st.sampled_from([None, "g", "ocean_hgrid"]))
    c["verbose"] = draw(st.sampled_from([False, False, True]))
    c["legacy"] = draw(st.sampled_from([False, False, True])) and t in ("regular_lonlat_grid", "f_plane_grid", "beta_plane_grid")
    c["center"] = draw(st.sampled_from(["none", "t_cell", "c_cell"]))
    c["lon0"] = draw(st.one_of(st.sampled_from([0.0, -280.0, -180.0, 20.5]), st.integers(-1440, 1440).map(lambda v: v / 4.0)))
    c["global"] = draw(st.booleans())
    c["lats"] = draw(st.one_of(st.sampled_from([[-90, 90], [-82, 90], [-30, 60], [10.5, 47], [-75, -20]]), st.tuples(st.integers(-90, 60), st.integers(10, 180)).map(lambda v: [v[0], min(90, v[0] + v[1])])))
    c["x"] = draw(axis(0, 0, c["legacy"], c["center"] != "none"))
    c["y"] = draw(axis(0, 0, c["legacy"], c["center"] != "none"))
    c["join"] = draw(st.sampled_from([None, None, 60.0, 66.3, 50.0, 75.0, 55.125, 40.0, 70.7]))
    c["flat"] = draw(st.one_of(st.sampled_from([0.0, 30.0, -55.5, 89.0]), st.integers(-89, 89).map(float)))
    c["dxdy"] = [draw(st.sampled_from([1000.0, 250.5])), draw(st.sampled_from([1000.0, 77.25]))]
    c["n"] = [draw(st.integers(1, 10)), draw(st.integers(1, 10))]
    c["ntile"] = draw(st.sampled_from([1, 1, 2, 3]))
    c["uniform"] = draw(st.booleans())
    c["mid"] = draw(st.sampled_from([False, False, True]))
    c["rev"] = draw(st.booleans())
    c["seed"] = draw(st.integers(0, 2 ** 31))
    return c


def strategy(tier):
    return cases()


def spec(a, lo, hi, legacy, center):
    """-> bounds, options, vertex positions"""
    if legacy:
        b = [lo]
        for l, n in enumerate(a["n"]):
            b.append(b[-1] + n * 0.5 * (a["d"][l] + a["d"][l + 1]))
        delta = []
        for l, n in enumerate(a["n"]):
            avg, chg = 0.5 * (a["d"][l] + a["d"][l + 1]), a["d"][l + 1] - a["d"][l]
            if center == "t_cell":
                delta += [avg - 0.5 * chg * np.cos(np.pi / n * (i + 0.5)) for i in range(n)]
            else:
                delta += [avg - 0.5 * chg * np.cos(np.pi / n * i) for i in range(1, n + 1)]
        g = [b[0]]
        if center == "t_cell":
            for d in delta:
                g += [g[-1] + d / 2, g[-1] + d]
        else:
            g.append(g[0] + 0.5 * a["d"][0])
            for d in delta[:-1]:
                g += [g[-1] + d / 2, g[-1] + d]
            g.append(g[-1] + 0.5 * delta[-1])
        return b, a["d"], np.array(g)
    cum = np.concatenate([[0], np.cumsum(a["w"])]) / sum(a["w"])
    b = [float("%.4f" % (lo + (hi - lo) * f)) for f in cum]
    k = np.concatenate([[0], np.cumsum(a["n"])])
    ref = 1 if center == "none" else 2
    tmp = PchipInterpolator(k / ref, b)(np.arange(k[-1] // ref + 1)) if len(b) > 2 else np.linspace(b[0], b[1], k[-1] // ref + 1)
    if center == "none":
        return b, a["n"], tmp
    m = 0.5 * (tmp[1:] + tmp[:-1])
    g = np.zeros(2 * len(m) + 1)
    g[::2], g[1::2] = tmp, m
    if center == "c_cell":
        g[2:-1:2] = 0.5 * (m[1:] + m[:-1])
    return b, a["n"], g


def distort(rng, ni, nj, uniform):
    lon = np.linspace(20, 20 + min(8 * ni, 300), ni + 1)
    lat = np.linspace(-60, 55, nj + 1)
    if uniform:
        lon, lat = lon + np.append(0, rng.uniform(-1, 1, ni)), lat + np.append(0, rng.uniform(-3, 3, nj))
        xc, yc = np.meshgrid(lon, lat)
    else:
        xc, yc = np.meshgrid(lon, lat)
        h = 115.0 / nj
        xc = xc + rng.uniform(-1.5, 1.5, xc.shape)
        yc = yc + rng.uniform(-0.15 * h, 0.15 * h, yc.shape)
    return xc, yc


def run(c, ctx):
    t = c["type"]
    args, files = [], []
    rng = np.random.default_rng(c["seed"])
    name = c["name"] or "horizontal_grid"
    if c["name"]:
        args += ["--grid_name", c["name"]]
    if c["verbose"]:
        args += ["--verbose"]
    center = c["center"]
    fmt = lambda v: ",".join(repr(float(x)) if isinstance(x, float) else str(x) for x in v)
    exp = []
    interesting = False
    if t in ("regular_lonlat_grid", "f_plane_grid", "beta_plane_grid", "tripolar_grid"):
        ax = dict(c["x"])
        if t == "tripolar_grid":
            ax = dict(nb=2, w=[1], n=[sum(ax["n"])])
            ax["n"][0] += ax["n"][0] % 2
        lo, hi = c["lats"]
        xb, xn, x = spec(ax, c["lon0"], c["lon0"] + (360 if c["global"] or t == "tripolar_grid" else 77), c["legacy"], center)
        yb, yn, y = spec(c["y"], lo, 90 if t == "tripolar_grid" else hi, c["legacy"], center)
        if c["legacy"]:
            center = center if center != "none" else "c_cell"
            if y[-1] > 90:
                ctx.label("beyond the pole")
                return
        args += ["--grid_type", t, "--nxbnds", len(xb), "--nybnds", len(yb), "--xbnds", fmt(xb), "--ybnds", fmt(yb)]
        args += ["--dlon" if c["legacy"] else "--nlon", fmt(xn), "--dlat" if c["legacy"] else "--nlat", fmt(yn), "--center", center]
        if t in ("f_plane_grid", "beta_plane_grid"):
            args += ["--f_plane_latitude", c["flat"]]
        elif c["gc"]:
            args += ["--great_circle_algorithm"]
        if np.diff(x).max() > 170:
            ctx.label("half the globe in a cell")
            return
        X, Y = np.meshgrid(x, y)
        interesting = len(xb) > 2 or len(yb) > 2 or t != "regular_lonlat_grid"
        if t == "tripolar_grid":
            k = int(np.argmin(np.abs(y - (c["join"] or 65.0))))
            if k == len(y) - 1 or y[k] < 10 or np.ptp(np.sort(np.abs(y - (c["join"] or 65.0)))[:2]) < 1e-6:
                ctx.label("no vertex near the join latitude")
                return
            if c["join"]:
                args += ["--lat_join", c["join"]]
            exp.append(tripolar(X, Y, xb[0], c["join"] or 65.0, c["gc"]))
        elif t == "regular_lonlat_grid":
            exp.append(boxes(X, Y, c["gc"]))
        else:
            e = dict(x=X, y=Y)
            f = np.cos(c["flat"] * D)
            e["dx"] = np.abs(np.diff(X, axis=1)) * D * R * f
            e["dy"] = np.abs(np.diff(Y, axis=0)) * D * R
            e["area"] = np.diff(X, axis=1)[:-1] * np.diff(Y, axis=0)[:, :-1] * D * D * R * R * f
            exp.append(e)
    elif t == "simple_cartesian_grid":
        nx, ny = c["n"]
        args += ["--grid_type", t, "--xbnds", "0,30.5", "--ybnds", "50,60", "--nlon", nx, "--nlat", ny, "--simple_dx", c["dxdy"][0], "--simple_dy", c["dxdy"][1]]
        X, Y = np.meshgrid(np.linspace(0, 30.5, nx + 1), np.linspace(50, 60, ny + 1))
        exp.append(dict(x=X, y=Y, dx=np.full((ny + 1, nx), c["dxdy"][0]), dy=np.full((ny, nx + 1), c["dxdy"][1]),
                        area=np.full((ny, nx), c["dxdy"][0] * c["dxdy"][1])))
    elif t == "spectral_grid":
        ni, nj = c["n"][0] + 1, c["n"][1] + 1
        args += ["--grid_type", t, "--nlon", 2 * ni, "--nlat", 2 * nj]
        if c["gc"]:
            args += ["--great_circle_algorithm"]
        s, w = np.polynomial.legendre.leggauss(nj)
        lat = np.arcsin(s) / D
        latb = np.concatenate([[-90], np.arcsin(np.clip(np.cumsum(w)[:-1] - 1, -1, 1)) / D, [90]])
        x, y = (np.arange(2 * ni + 1) - 1) * 180.0 / ni, np.zeros(2 * nj + 1)
        y[::2], y[1::2] = latb, lat
        X, Y = np.meshgrid(x, y)
        exp.append(boxes(X, Y, c["gc"]))
        interesting = True
    else:
        interesting = True
        ni, nj = c["n"]
        if t == "v5":
            ni = max(ni, 3)
        args += ["--grid_type", "from_file"]
        if t == "text":
            nx, ny = ni + 1, nj
            args += ["--nlon", fmt([nx] * c["ntile"]), "--nlat", fmt([ny] * c["ntile"])]
        for k in range(c["ntile"]):
            if t == "text":
                x = 10 + np.cumsum(rng.uniform(0.5, 5, nx + 1)).round(4)
                y = -80 + np.cumsum(rng.uniform(0.5, 100 / (ny + 1), ny + 1)).round(4)
                files.append("grid%d.txt" % k)
                with open(ctx.path(files[-1]), "w") as f:
                    f.write("x-grid of tile %d\n" % k + "\n".join("%r" % v for v in x) + "\ny-grid\n" + "\n".join("%r" % v for v in y) + "\n")
                X, Y = np.meshgrid(x, y)
                exp.append(boxes(X, Y, False))
                continue
            files.append("in%d.nc" % k)
            exp.append(from_nc(c, rng, t, ni, nj, ctx.path(files[-1])))
        args += ["--my_grid_file", ",".join(files)]
        if c["gc"]:
            args += ["--great_circle_algorithm"]
        if c["mid"] and t != "text":
            args += ["--angular_midpoint"]
    ctx.ok("make_hgrid", *args)
    nt = len(exp)
    names = [name + ".nc"] if nt == 1 else ["%s.tile%d.nc" % (name, k + 1) for k in range(nt)]
    if sorted(os.listdir(ctx.dir)) != sorted(names + files):
        raise Violation("files %s, expected %s" % (sorted(os.listdir(ctx.dir)), sorted(names + files)))
    for k, e in enumerate(exp):
        compare(ncio.read(ctx.path(names[k])), e, "tile%d" % (k + 1), t)
    ctx.label("type=" + t, "center=" + center, "great circle" if c["gc"] else "areas by latitude", "legacy" if c["legacy"] else "")
    ctx.nontrivial(interesting)


def compare(g, e, tile, t):
    def s(n):
        v = g.vars[n].data
        return b"".join(v.tolist()).split(b"\0")[0].decode()
    ny, nx = e["area"].shape
    for d, n in (("nx", nx), ("ny", ny), ("nxp", nx + 1), ("nyp", ny + 1)):
        if g.dims.get(d) != n:
            raise Violation("dimension %s is %s, expected %d" % (d, g.dims.get(d), n))
    if s("tile") != tile:
        raise Violation("tile name %r, expected %r" % (s("tile"), tile))
    for n in ("x", "y", "dx", "dy", "area", "angle_dx"):
        if n not in g.vars:
            raise Violation("no variable " + n)
        if not np.all(np.isfinite(g.vars[n].data)):
            raise Violation("%s is not finite" % n)
    gx, gy = g.vars["x"].data, g.vars["y"].data
    if "v" in e:        # tripolar: compared on the sphere
        d = sph.angle(sph.xyz(gx, gy), e["v"])
        if d.max() > 1e-7:
            i = np.unravel_index(int(d.argmax()), d.shape)
            raise Violation("vertex %s is at (%r, %r), expected %s" % (tuple(int(k) for k in i), gx[i], gy[i], sph.lonlat(e["v"][i])))
        if gx.min() < e["lon0"] - 1e-6 or gx.max() > e["lon0"] + 360 + 1e-6:
            raise Violation("longitudes from %r to %r, start at %r" % (gx.min(), gx.max(), e["lon0"]))
    else:
        if not sph.close(gx, e["x"], 0, 1e-9):
            raise Violation("x is " + sph.worst(gx, e["x"]))
        if not sph.close(gy, e["y"], 0, 1e-9):
            raise Violation("y is " + sph.worst(gy, e["y"]))
    for n in ("dx", "dy"):
        if not sph.close(g.vars[n].data, e[n], 1e-8, 1e-2 if "v" in e else 1e-3):
            raise Violation("%s is %s" % (n, sph.worst(g.vars[n].data, e[n])))
    a = g.vars["area"].data
    ok = np.ones(a.shape, bool) if "amask" not in e else e["amask"]
    tol = e.get("atol", 1e-8)
    if not sph.close(np.where(ok, a, 0), np.where(ok, e["area"], 0), tol, 1e-12 * np.abs(e["area"]).max() + e.get("aabs", 0)):
        raise Violation("area is " + sph.worst(np.where(ok, a, 0), np.where(ok, e["area"], 0)))
    if "total" in e and abs(a.sum() / e["total"] - 1) > e.get("ttol", 1e-9):
        raise Violation("total area %r, expected %r" % (a.sum(), e["total"]))
    if (a < -np.minimum(e.get("aabs", 0), 1e-9 * R * R)).any():
        raise Violation("negative area %r at %s, expected %r" % (a.min(), np.unravel_index(a.argmin(), a.shape), e["area"].flat[a.argmin()]))
    an = g.vars["angle_dx"].data
    if "angle" in e:
        d = (an - e["angle"](gx, gy) + 180) % 360 - 180
        if np.abs(d).max() > 1e-6:
            raise Violation("angle_dx is " + sph.worst(an, e["angle"](gx, gy)))
    elif np.abs(an).max() > 0:
        raise Violation("angle_dx %r on an unrotated grid" % np.abs(an).max())


def boxes(X, Y, gc):
    e = dict(x=X, y=Y)
    e["dx"] = np.abs(np.diff(X, axis=1)) * D * R * np.cos(Y[:, 1:] * D)
    e["dy"] = np.abs(np.diff(Y, axis=0)) * D * R
    if gc:
        e["area"] = sph.gc_area(X, Y)
        top = np.abs(Y) > 89.9
        e["aabs"] = np.where(top[:-1, :-1] | top[1:, 1:], 1e-9, 1e-11) * R * R       # (rounding of the excess formula, worse at a pole)
        e["amask"] = (np.diff(X, axis=1)[:-1] < 175) & (np.diff(Y, axis=0)[:, :-1] < 175)
        # (a cell of 180 degrees has no defined great circle edge)
    else:
        e["area"] = sph.box(X[:-1, :-1], Y[:-1, :-1], X[1:, 1:], Y[1:, 1:])
        e["atol"] = 1e-8
    return e


def tripolar(X, Y, lon0, join, gc):
    y = Y[:, 0]
    k = int(np.argmin(np.abs(y - join)))
    e = boxes(X, Y, False)
    rp = np.tan((90 - y[k]) * D / 2)
    x, yy = X[k:] - lon0, np.minimum(Y[k:], 90)
    # bipolar coordinates of the grid points: longitude lamc from the axis, latitude phic towards the two poles on the join circle
    lam = 2 * np.arctan(np.tan((90 - yy) * D / 2) / rp)
    lam = np.where(np.abs(x - 90) < 90, -lam, lam)
    phi = np.where(np.abs(x - 180) < 90, -90 + np.abs(x - 180), np.where(x >= 270, 90 - (360 - x), 90 - x)) * D
    v = np.stack([np.cos(lam) * np.cos(phi), np.sin(lam) * np.cos(phi), np.sin(phi)], -1)
    th = np.arctan2(np.hypot(v[..., 1], v[..., 2]), v[..., 0]) / 2
    al = np.arctan2(v[..., 1], v[..., 2]) / D
    lon, colat = lon0 - al, 2 * np.arctan(rp * np.tan(th))
    e["v"] = np.concatenate([sph.xyz(X[:k], Y[:k]), sph.xyz(lon, 90 - colat / D)])
    m = rp * (1 + np.tan(th) ** 2) / (1 + rp ** 2 * np.tan(th) ** 2)
    e["dx"] = np.concatenate([e["dx"][:k], np.abs(np.diff(phi, axis=1)) * R * (m[:, 1:] + m[:, :-1]) / 2])
    mc = m * np.cos(phi)
    e["dy"] = np.concatenate([e["dy"][:k], np.abs(np.diff(lam, axis=0)) * R * (mc[1:] + mc[:-1]) / 2])
    e["lon0"] = lon0
    lo, la = sph.lonlat(e["v"])
    e["area"] = sph.gc_area(lo, la) if gc else np.concatenate([e["area"][:k], sph.ll_area(lo, la)[k:]])
    # cells of the cap near the pole or crossing the meridian of the fold are left to the total
    far = np.all([q < 89.999 for q in sph.cells(la)], axis=0)
    e["amask"] = far.copy()
    if not gc:
        sp = np.ptp(np.array([((np.asarray(q) - np.asarray(sph.cells(lo)[0]) + 180) % 360) for q in sph.cells(lo)]), axis=0)
        e["amask"] &= sp < 170
    e["amask"][:k] = True
    e["atol"] = 1e-6 if gc else 1e-7
    e["aabs"] = 2e-8 * np.abs(e["area"]).max() + 1e-11 * R * R
    if gc:
        e["amask"][:k] = np.broadcast_to((np.diff(X, axis=1) < 175)[:1], e["amask"][:k].shape)
    else:
        e["total"] = 2 * np.pi * R * R * (1 - np.sin(y[0] * D))
        nx = X.shape[1] - 1
        if nx % 4:      # (the pole is then inside a cell edge or a cell)
            e.pop("total")

    def ang(gx, gy):
        a = np.zeros_like(gx)
        a[k:, 1:-1] = np.arctan2(gy[k:, 2:] - gy[k:, :-2], (gx[k:, 2:] - gx[k:, :-2]) * np.cos(gy[k:, 1:-1] * D)) / D
        return a
    e["angle"] = ang
    return e


def from_nc(c, rng, t, ni, nj, path):
    ds = DS()
    uni = c["uniform"] or t in ("v3", "v5") or ni * nj == 1
    xc, yc = distort(rng, ni, nj, uni)
    if uni:
        xt, yt = np.meshgrid(0.5 * (xc[0, 1:] + xc[0, :-1]) + 0.01, 0.5 * (yc[1:, 0] + yc[:-1, 0]) + 0.01)
    else:
        xt, yt = [0.25 * (q[1:, 1:] + q[:-1, :-1] + q[1:, :-1] + q[:-1, 1:]) for q in (xc, yc)]
        if ni == 1 and nj == 1:
            uni = True      # (a single cell cannot be told apart)
        elif (yt == yt[:, :1]).all() and (xt == xt[:1]).all():
            uni = True
    if t == "v1":
        for d, n in (("grid_xt", ni), ("grid_yt", nj), ("grid_x", ni + 1), ("grid_y", nj + 1)):
            ds.add_dim(d, n)
        for n, v, dm in (("grid_lon", xc, ("grid_y", "grid_x")), ("grid_lat", yc, ("grid_y", "grid_x")), ("grid_lont", xt, ("grid_yt", "grid_xt")), ("grid_latt", yt, ("grid_yt", "grid_xt"))):
            ds.vars[n] = Var("double", dm, v, {})
    elif t == "v2":
        a, b = ("rlon", "rlat") if c["rev"] else ("i", "j")
        for d, n in ((a, ni), (b, nj), ("vertices", 4)):
            ds.add_dim(d, n)
        for n, v in (("lon", xt), ("lat", yt)):
            ds.vars[n] = Var("double", (b, a), v, {})
        for n, v in (("lon_vertices", xc), ("lat_vertices", yc)):
            ds.vars[n] = Var("double", (b, a, "vertices"), np.stack(sph.cells(v), -1), {})
    elif t == "v3":
        for d, n in (("lon", ni), ("lat", nj), ("bnds", 2)):
            ds.add_dim(d, n)
        ds.vars["lon"] = Var("double", ("lon",), xt[0], {})
        ds.vars["lat"] = Var("double", ("lat",), yt[:, 0], {})
        ds.vars["lon_bnds"] = Var("double", ("lon", "bnds"), np.stack([xc[0, :-1], xc[0, 1:]], -1), {})
        ds.vars["lat_bnds"] = Var("double", ("lat", "bnds"), np.stack([yc[:-1, 0], yc[1:, 0]], -1), {})
    else:
        x = np.sort(rng.choice(np.arange(1, 360), ni, replace=False)) * 1.0
        x = (np.arange(ni) + 0.5) * 360 / ni + rng.uniform(-0.2, 0.2, ni) * 360 / ni if ni > 1 else x
        y = (np.arange(nj) + 0.5) * 180 / nj - 90 + (rng.uniform(-0.2, 0.2, nj) * 180 / nj if nj > 1 else 0)
        rev = c["rev"] and nj > 1
        if not rev and y[0] > 0:
            y = y - y[0]
        ds.add_dim("grid_xt", ni)
        ds.add_dim("grid_yt", nj)
        ds.vars["grid_xt"] = Var("double", ("grid_xt",), x, {})
        ds.vars["grid_yt"] = Var("double", ("grid_yt",), y[::-1] if rev else y, {})
        first = 0.5 * ((x[-1] - 360 if x[-1] > x[0] + 180 else x[-1]) + x[0])
        xb = np.concatenate([[first], 0.5 * (x[1:] + x[:-1]), [first + 360]])
        yb = np.concatenate([[-90], 0.5 * (y[1:] + y[:-1]), [90]])
        (xc, yc), (xt, yt) = np.meshgrid(xb, yb), np.meshgrid(x, y)
    ds.write(path, "NETCDF4" if c["rev"] else "NETCDF3_CLASSIC")
    X, Y = np.zeros((2 * nj + 1, 2 * ni + 1)), np.zeros((2 * nj + 1, 2 * ni + 1))
    X[::2, ::2], Y[::2, ::2], X[1::2, 1::2], Y[1::2, 1::2] = xc, yc, xt, yt
    if uni:
        X[::2, 1::2], Y[::2, 1::2] = xt[:1], yc[:, :-1]
        X[1::2, ::2], Y[1::2, ::2] = xc[:-1], yt[:, :1]
    elif c["mid"]:
        for Z, z in ((X, xc), (Y, yc)):
            Z[::2, 1::2], Z[1::2, ::2] = 0.5 * (z[:, 1:] + z[:, :-1]), 0.5 * (z[1:] + z[:-1])
    else:
        v = sph.xyz(xc, yc)
        for s, w in (((slice(0, None, 2), slice(1, None, 2)), v[:, 1:] + v[:, :-1]), ((slice(1, None, 2), slice(0, None, 2)), v[1:] + v[:-1])):
            lo, la = sph.lonlat(w)
            X[s], Y[s] = lo % 360, la
    e = dict(x=X, y=Y, dx=sph.gc_dx(X, Y), dy=sph.gc_dy(X, Y))
    e["area"] = sph.gc_area(X, Y) if c["gc"] else sph.ll_area(X, Y)
    wide = np.diff(X, axis=1)[:-1] >= 175
    e["amask"] = ~(wide | (np.diff(X, axis=1)[1:] >= 175))
    e["aabs"] = 1e-12 * R * R
    return e
