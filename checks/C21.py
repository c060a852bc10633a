"""make_topog: analytic topographies, remapped topographies and their adjustment to a vertical grid."""
import copy
import functools
import os
import numpy as np
from hypothesis import strategies as st
from vlib.engine import Violation
from vlib import ncio, freg, grid, sph
from vlib.freg import D
from vlib.ncio import DS
from checks import C17

ID = "C21"
QUICK, THOROUGH = 1600, 30000
RULE = ("Generated mosaics (1-3 tiles, lon-lat or distorted, any origin, closed, periodic or folded, great circle or not) with every topog_type and its options, and source data of three types with missing "
        "values and land, one row or many, on other or on the model grid, with filtering, vertical grids and all adjustment options, serial or parallel; every depth and number of levels is compared with a "
        "numpy model; non-trivial = depths differ, or (realistic) land and several depths.")
ASSUMPTIONS = ["realistic topography is for one tile, cells of at most 40 degrees (18 degrees radius for great circles)", "the number of processes does not exceed the rows or columns of a tile",
               "source latitudes increase", "cases where rounding decides a level are not compared"]
LAND = [(-90, 0, 360, -80, 0, 360), (-80, 335, 360, -70, 360, 360), (-80, 0, 360, -70, 0, 170), (-80, 225, 300, -68, 285, 300), (-70, 0, 155, -67, 50, 145), (-35, 116,
        120, -31, 114, 130), (-38, 140, 151, -31, 130, 151), (-31, 115, 153, -20, 113, 149), (-20, 113, 149, -11, 131, 143), (-50, 286, 292, -40, 287, 298), (-40, 287,
        298, -20, 290, 320), (-20, 290, 320, -16, 279, 325), (-16, 279, 325, 0, 280, 310), (0, 280, 310, 11, 285, 300), (6, 282, 285, 20, 255, 263), (20, 255, 263, 30,
        245, 266), (25, 278, 280, 30, 275, 279), (30, 245, 280, 40, 236, 286), (40, 236, 286, 50, 236, 303), (50, 236, 303, 60, 220, 296), (60, 195, 296, 65, 220, 296),
        (65, 220, 296, 70, 198, 288), (70, 198, 220, 72, 203, 203), (70, 230, 290, 75, 240, 280), (60, 315, 315, 75, 302, 341), (-35, 19, 28, 6, 8, 50), (6, 0, 50, 18, 0,
        56), (18, 0, 56, 26, 0, 59), (6, 350, 360, 18, 342, 360), (18, 342, 360, 26, 345, 360), (26, 345, 360, 40, 353, 360), (40, 353, 360, 50, 360, 360), (8, 77, 78,
        26, 65, 90), (4, 99, 100, 26, 90, 115), (26, 0, 126, 40, 0, 122), (40, 0, 130, 50, 0, 140), (50, 0, 140, 60, 8, 140), (60, 8, 163, 65, 13, 180), (65, 13, 188, 70,
        20, 180), (70, 70, 180, 75, 90, 100)]
RIDGE = [(-20, 340, 350, 30, 315, 325), (30, 315, 325, 60, 340, 330), (-60, 260, 230, 40, 200, 180), (-50, 240, 240, 30, 190, 190)]
DEG2M = 111.324e3


def draw_axis(draw, n, lo, hi, step, maxd):
    """n+1 increasing multiples of step from somewhere in lo..hi"""
    k = int((hi - lo) / step)
    d = draw(st.lists(st.integers(1, max(1, min(int(maxd / step), k // n))), min_size=n, max_size=n))
    s = draw(st.integers(0, max(0, k - sum(d))))
    return [lo + step * v for v in np.cumsum([s] + d).tolist()]


def strategy(tier):
    @st.composite
    def s(draw):
        typ = draw(st.sampled_from(["realistic"] * 12 + ["rectangular_basin", "gaussian", "gaussian", "bowl", "idealized", "idealized", "box_channel", "dome", "dome"]))
        c = dict(type=typ, np=draw(st.sampled_from([0, 0, 0, 0, 1, 2, 3, 4])), verbose=draw(st.booleans()), long=draw(st.integers(0, 3)) == 0, seed=draw(st.integers(0, 2 ** 20)))
        f = lambda lo, hi: draw(st.integers(lo * 4, hi * 4)) / 4.0
        opt = lambda v: v if draw(st.integers(0, 2)) else None
        o = {}
        if typ != "realistic":
            nt = draw(st.sampled_from([1, 1, 2, 3]))
            tiles = []
            for t in range(nt):
                nx, ny = draw(st.integers(2, 8)), draw(st.integers(2, 8))
                if typ == "idealized" and draw(st.booleans()):
                    lons, lats = np.linspace(0, 360, nx + 1).tolist(), np.linspace(-90, 90, ny + 1).tolist()
                elif typ in ("bowl", "dome") and draw(st.booleans()):
                    lons, lats = draw_axis(draw, nx, -4, 24, 0.5, 10), draw_axis(draw, ny, 55, 75, 0.5, 10)
                else:
                    lons, lats = draw_axis(draw, nx, -200, 360, 1, 60), draw_axis(draw, ny, -90, 90, 1, 40)
                tiles.append(dict(lons=lons, lats=lats, bend=draw(st.sampled_from([0, 0, 0.4, -0.3])) if typ in ("gaussian", "bowl", "rectangular_basin", "dome") else 0))
            c["tiles"] = tiles
            c["gc"] = draw(st.booleans())
            if typ in ("rectangular_basin", "gaussian", "bowl", "idealized", "box_channel"):
                o["bottom_depth"] = opt(f(0, 6000))
            if typ in ("gaussian", "bowl", "idealized"):
                o["min_depth"] = opt(f(0, 3000))
            if typ == "gaussian":
                o.update(gauss_amp=opt(f(-1, 2)), gauss_scale=opt(f(1, 4) / 4), slope_x=opt(f(-20, 20)), slope_y=opt(f(-20, 20)))
            if typ == "bowl":
                o.update(bowl_south=opt(f(54, 66)), bowl_north=opt(f(62, 76)), bowl_west=opt(f(-3, 12)), bowl_east=opt(f(5, 25)))
            if typ == "box_channel":
                for k in "we":
                    a, b = sorted([draw(st.integers(1, 9)), draw(st.integers(1, 9))])
                    o["j%sst_south" % {"w": "we", "e": "ea"}[k]] = a
                    o["j%sst_north" % {"w": "we", "e": "ea"}[k]] = b
            if typ == "dome":
                o.update(dome_slope=opt(draw(st.integers(1, 40)) / 1000.0), dome_bottom=opt(f(1000, 6000)), dome_embayment_west=opt(f(-3, 20)),
                         dome_embayment_east=opt(f(3, 25)), dome_embayment_south=opt(f(56, 74)), dome_embayment_depth=opt(f(0, 1000)))
            c["opt"] = {k: v for k, v in o.items() if v is not None}
            return c
        gc = draw(st.integers(0, 4)) == 0
        nx, ny = draw(st.sampled_from([2, 3, 4, 4, 5, 6, 6, 7, 8, 8])), draw(st.integers(2, 8))
        mx = 18 if gc else 40
        c["gc"] = gc
        per = draw(st.integers(0, 2)) == 0 and not gc
        if per:
            nx = max(nx, 3) if not draw(st.booleans()) else draw(st.sampled_from([9, 12]))
            nx = max(nx, 9)
            o0 = draw(st.integers(-180, 180))
            lons = [o0 + 360.0 * i / nx for i in range(nx + 1)]
        else:
            lons = draw_axis(draw, nx, -200, 360, 1, mx)
        lats = draw_axis(draw, ny, -90, 90, 1, mx)
        c["tiles"] = [dict(lons=lons, lats=lats, bend=0)]
        c["bnd"] = draw(st.sampled_from(["none", "x", "x", "xy", "y"] + (["fold"] * 4 if len(lons) % 2 and len(lons) > 4 else [])))
        c["ongrid"] = draw(st.integers(0, 2)) == 0
        c["dtype"] = draw(st.sampled_from(["double", "float", "int"]))
        snx, sny = draw(st.integers(2, 8)), draw(st.integers(2, 8))
        if c["ongrid"]:
            c["src"] = None
        else:
            if gc:
                sx, sy = draw_axis(draw, snx, -200, 360, 1, 14), draw_axis(draw, sny, -80, 80, 1, 14)
            elif draw(st.booleans()):
                snx = draw(st.sampled_from([9, 10, 12, 18])); o0 = draw(st.integers(-180, 180))
                sx = [o0 + 360.0 * (i + 0.5) / snx for i in range(snx)]
                sy = [-90 + 180.0 * (i + 0.5) / sny for i in range(sny)] if sny > 4 else draw_axis(draw, sny, -70, 70, 1, 20)
            else:
                sx, sy = draw_axis(draw, snx, -200, 360, 1, 30), draw_axis(draw, sny, -70, 70, 1, 20)
            c["src"] = [sx, sy]
        c["land"] = draw(st.sampled_from([0, 0.1, 0.3, 0.6]))
        c["miss"] = draw(st.sampled_from([0, 0.1, 0.3]))
        c["vals"] = draw(st.sampled_from(["random", "random", "steps", "const", "shallow"]))
        o["scale_factor"] = opt(draw(st.sampled_from([-1.0, 0.01, 2.0, 1.0])))
        c["mv"] = draw(st.sampled_from([-9999, -1, 0, 7]))
        o["num_filter_pass"] = opt(draw(st.integers(1, 4)))
        fl = [k for k in ("filter_topog", "smooth_topo_allow_deepening", "fill_first_row") if draw(st.integers(0, 2)) == 0]
        c["zw"] = None
        if draw(st.integers(0, 7)) < 7:
            c["zw"] = np.cumsum(draw(st.lists(st.integers(1, 300), min_size=2, max_size=9))).astype(float).tolist()
            o["kmt_min"] = opt(draw(st.integers(1, min(5, len(c["zw"]) + (draw(st.integers(0, 9)) == 0)))))
            o["fraction_full_cell"] = opt(draw(st.sampled_from([0, 0.1, 0.5, 1.0])))
            o["min_thickness"] = opt(draw(st.sampled_from([0, 0.5, 20.0])))
            for k, w in (("flat_bottom", 6), ("full_cell", 4), ("dont_fill_isolated_cells", 3), ("dont_change_landmask", 1), ("dont_adjust_topo", 5), ("dont_open_very_this_cell", 3)):
                if draw(st.integers(0, w)) == 0:
                    fl.append(k)
            fl += draw(st.sampled_from([[], [], ["round_shallow"], ["fill_shallow"], ["deepen_shallow"], ["fill_shallow", "deepen_shallow"]]))
        c["opt"] = {k: v for k, v in o.items() if v is not None}
        c["flags"] = fl
        return c
    return s()


def tile_xy(t):
    x, y = np.meshgrid(freg.mid(t["lons"]), freg.mid(t["lats"]))
    if t["bend"]:
        h, w = x.shape
        u, v = np.meshgrid(np.linspace(0, 1, w), np.linspace(0, 1, h))
        b = t["bend"]
        x, y = x + b * (t["lons"][1] - t["lons"][0]) * (v - 1) ** 2, y * 0.9 + b * (t["lats"][1] - t["lats"][0]) * u
    return x, y


def nearest(v, a):
    """index of the point of a nearest to v, the later one of two"""
    d = np.abs(np.asarray(a) - v)
    return int(len(a) - 1 - np.argmin(d[::-1]))


def trapezoid(dep, xs, ys, t, val):
    la1, s1, e1, la2, s2, e2 = t
    js, je = sorted((nearest(la1, ys), nearest(la2, ys)))
    is1, ie1 = sorted((nearest(s1, xs), nearest(e1, xs)))
    is2, ie2 = sorted((nearest(s2, xs), nearest(e2, xs)))
    rnd = lambda q: int(np.ceil(q)) - (1 if np.ceil(q) - q > 0.5 else 0)
    w = 1.0 / max(je - js, 1)
    a, b = is1, ie1
    for j in range(js, je + 1):
        dep[j, a:b + 1] = val
        a = rnd(w * ((j - js) * is2 + (je - j) * is1) + 1e-5)
        b = rnd(w * ((j - js) * ie2 + (je - j) * ie1) + 1e-5)


def analytic(typ, o, x, y):
    cx, cy = x[::2, ::2], y[::2, ::2]
    m4 = lambda a: 0.25 * (a[:-1, :-1] + a[:-1, 1:] + a[1:, :-1] + a[1:, 1:])
    xx, yy = m4(cx), m4(cy)
    ny, nx = xx.shape
    bd, md = o.get("bottom_depth", 5000.0), o.get("min_depth", 10.0)
    if typ == "rectangular_basin":
        return np.full((ny, nx), bd)
    if typ == "gaussian":
        xw, xe, ys, yn = xx.min(), xx.max(), yy.min(), yy.max()
        sc = o.get("gauss_scale", 0.25) * min(xe - xw, yn - ys)
        d = bd - o.get("gauss_amp", 0.5) * bd * np.exp(-((xx - 0.5 * (xe + xw)) ** 2 + (yy - 0.5 * (ys + yn)) ** 2) / sc ** 2)
        d = d - o.get("slope_x", 0) * (xx - xw) - o.get("slope_y", 0) * (yy - ys)
        return np.maximum(d, md)
    if typ == "bowl":
        S, N, W, E = (o.get("bowl_" + k, v) for k, v in (("south", 60), ("north", 70), ("west", 0), ("east", 20)))
        e = lambda q: 1 - np.exp(-q ** 2)
        d = md + bd * e((yy - S) / 2) * e((yy - N) / 2) * e((xx - W) / 4) * e((xx - E) / 4)
        return np.where((xx <= W) | (xx >= E) | (yy <= S) | (yy >= N), md, d)
    if typ == "box_channel":
        d = np.full((ny, nx), bd)
        d[0] = d[-1] = 0
        j = np.arange(1, ny + 1)
        d[(j <= o["jwest_south"]) | (j > o["jwest_north"]), 0] = 0
        d[(j <= o["jeast_south"]) | (j > o["jeast_north"]), -1] = 0
        return d
    if typ == "idealized":
        xs, ys = 0.5 * (cx[0, 1:] + cx[0, :-1]), 0.5 * (cy[1:, 0] + cy[:-1, 0])
        d = np.full((ny, nx), bd)
        for t in LAND:
            trapezoid(d, xs, ys, t, 0.0)
        j, i = np.mgrid[1:ny + 1, 1:nx + 1]
        u = np.maximum(bd * (1 - 0.4 * np.abs(np.cos(j * np.pi / (ny + 1)) * np.sin(i * 2 * np.pi / (nx + 1)))), md)
        d = np.where(d > 0, u, d)
        for t in RIDGE:
            trapezoid(d, xs, ys, t, (0.5 if t is RIDGE[-1] else 0.666) * bd)
        return d
    x, y = x[1::2, 1::2], y[1::2, 1::2]
    g = lambda k, v: o.get("dome_" + k, v)
    xw, xe, ys = g("embayment_west", 19.0), g("embayment_east", 21.0), g("embayment_south", 69.0)
    bot, sl, ed = g("bottom", 3600.0), g("slope", 0.01), g("embayment_depth", 600.0)

    def snap(v, a):
        for p, q in zip(a[:-1], a[1:]):
            if p <= v <= q:
                v = p
        return v
    xw, xe, ys = snap(xw, x[0]), snap(xe, x[0]), snap(ys, y[:, 0])
    s0 = snap(ys - (bot - ed) / (sl * DEG2M), y[:, 0])
    d = np.full(x.shape, bot)
    d = np.where((y >= s0) & (y < ys), bot - sl * DEG2M * (y - s0), d)
    d = np.where(y >= ys, 0.0, d)
    return np.where((x >= xw) & (x <= xe) & (y >= ys) & (y <= y.max()), ed, d)


def corner_max(a, bnd, fill):
    """largest over the four corners of a cell of the smallest value around the corner"""
    ny, nx = a.shape
    p = np.full((ny + 2, nx + 2), fill, float)
    p[1:-1, 1:-1] = a
    if bnd == "fold" or bnd == "foldonly":
        p[-1, 1:-1] = a[-1, ::-1]
    elif bnd in ("y", "xy"):
        p[0, 1:-1], p[-1, 1:-1] = a[-1], a[0]
    if bnd in ("x", "xy", "fold"):
        p[:, 0], p[:, -1] = p[:, -2].copy(), p[:, 1].copy()
    m = np.minimum(np.minimum(p[:-1, :-1], p[:-1, 1:]), np.minimum(p[1:, :-1], p[1:, 1:]))
    return np.maximum(np.maximum(m[:-1, :-1], m[:-1, 1:]), np.maximum(m[1:, :-1], m[1:, 1:]))


def levels(d, c, o, fl):
    """depths and levels (0 = land) fitted to the vertical grid"""
    zw = np.array(c["zw"])
    nk = len(zw)
    d = d.copy()
    mt = o.get("min_thickness", 0.1)
    k = np.full(d.shape, -1)
    for q in zip(*np.nonzero(d > 0)):
        n = nearest(d[q], zw)
        if zw[n] < d[q]:
            if d[q] - zw[n] < mt or n == nk - 1:
                d[q] = zw[n]
            else:
                n += 1
        k[q] = n
    wet = d > 0
    if "full_cell" in fl:
        d[wet] = zw[k[wet]]
    if "flat_bottom" in fl:
        d[wet], k[wet] = zw[-1], nk - 1
    if "dont_adjust_topo" in fl:
        return d, k + 1
    if "dont_fill_isolated_cells" not in fl:
        kk, hh = corner_max(k, c["bnd"], -1), corner_max(d, c["bnd"], 0)
        ch = kk != k
        if "dont_change_landmask" in fl:
            ch &= kk >= 0
        if c["bnd"] == "fold":
            ch[-1] = False
        k, d = np.where(ch, kk, k).astype(int), np.where(ch, hh, d)
    f = o.get("fraction_full_cell", 0.2)
    pm = np.full(nk, min(50.0, zw[0])) if f == 0 else np.maximum(f * np.diff(zw, prepend=0), mt)
    for q in zip(*np.nonzero(k > 0)):
        n = k[q]
        th = d[q] - zw[n - 1]
        if th < pm[n]:
            if "dont_open_very_this_cell" in fl and zw[n - 1] + pm[n] - d[q] > th:
                d[q], k[q] = zw[n - 1], n - 1
            else:
                d[q] = zw[n - 1] + pm[n]
    km = o.get("kmt_min", 2) - 1
    for q in zip(*np.nonzero((d > 0) & (k < km))):
        if "fill_shallow" in fl or ("deepen_shallow" not in fl and zw[k[q]] < 0.5 * zw[km]):
            d[q], k[q] = 0.0, -1
        else:
            d[q], k[q] = zw[km], km
    return d, k + 1


def shapiro(d, n, deepen):
    d = d.copy()
    w = np.array([1, 2, 1]) / 4.0
    land = d == 0
    ny, nx = d.shape
    for _ in range(n):
        s = d.copy()
        for j in range(1, ny - 1):
            for i in range(1, nx - 1):
                if land[j, i]:
                    continue
                b = np.where(land[j - 1:j + 2, i - 1:i + 2], d[j, i], d[j - 1:j + 2, i - 1:i + 2])
                v = w @ b @ w
                s[j, i] = v if deepen else min(v, d[j, i])
        d = s
    return d


def edges(p):
    p = np.asarray(p, float)
    m = 0.5 * (p[1:] + p[:-1])
    return np.concatenate([[2 * p[0] - m[0]], m, [2 * p[-1] - m[-1]]])


def run(c, ctx):
    c = copy.deepcopy(c)
    typ, o = c["type"], c["opt"]
    fl = c.get("flags", [])
    d = ctx.dir
    ga = dict(great_circle_algorithm="TRUE") if c["gc"] else None
    xy = [tile_xy(t) for t in c["tiles"]]
    files, names = [], []
    for n, (x, y) in enumerate(xy):
        tn = "tile%d" % (n + 1)
        grid.hgrid(ctx.path("og.%s.nc" % tn), x, y, tn, gattrs=ga)
        files.append("og.%s.nc" % tn); names.append(tn)
    ny, nx = [v // 2 for v in xy[0][0].shape]
    con = []
    if typ == "realistic":
        b = c["bnd"]
        if b in ("x", "xy", "fold"):
            con.append((0, 0, "%d:%d,1:%d::1:1,1:%d" % (2 * nx, 2 * nx, 2 * ny, 2 * ny)))
        if b in ("y", "xy"):
            con.append((0, 0, "1:%d,%d:%d::1:%d,1:1" % (2 * nx, 2 * ny, 2 * ny, 2 * nx)))
        if b == "fold":
            con.append((0, 0, "1:%d,%d:%d::%d:%d,%d:%d" % (nx, 2 * ny, 2 * ny, 2 * nx, nx + 1, 2 * ny, 2 * ny)))
    mname = "ocean_mosaic_with_a_rather_long_name_to_fill_the_command_line" * (2 if c["long"] else 0) or "mos"
    mname = mname[:120]
    grid.mosaic(ctx.path(mname + ".nc"), "m", files, names, contacts=con, gattrs=ga)
    out = ("topography_of_the_ocean_model_version_%s.nc" % ("x" * 60)) if c["long"] else "topog.nc"
    args = ["--mosaic", mname + ".nc", "--topog_type", typ]
    if c["long"] or c["seed"] % 2:
        args += ["--output", out]
    for k, v in o.items():
        args += ["--" + k, "%r" % v]
    args += ["--" + k for k in fl] + (["--verbose"] if c["verbose"] else [])
    want, lev, bad = [], None, False
    if typ == "realistic":
        rng = np.random.default_rng(c["seed"])
        cx, cy = np.array(c["tiles"][0]["lons"]), np.array(c["tiles"][0]["lats"])
        if c["ongrid"]:
            sx, sy = 0.5 * (cx[1:] + cx[:-1]), 0.5 * (cy[1:] + cy[:-1])
            args.append("--on_grid")
        else:
            sx, sy = map(np.array, c["src"])
        sc = o.get("scale_factor", 1.0)
        shp = (len(sy), len(sx))
        top = 1.2 * (c["zw"][-1] if c["zw"] else 5000)
        if c["vals"] == "const":
            v = np.full(shp, rng.choice(c["zw"]) if c["zw"] and rng.random() < 0.5 else rng.uniform(1, top))
        elif c["vals"] == "steps":
            v = rng.choice(c["zw"] or [10., 200., 3000.], shp) + rng.choice([0, 0, 0.05, 3.0, -0.05], shp)
        elif c["vals"] == "shallow":
            v = rng.uniform(0, (c["zw"] or [50])[0] * 2, shp)
        else:
            v = rng.uniform(0, top, shp)
        land = rng.random(shp) < c["land"]
        v = np.where(land, -v if not c["ongrid"] else 0.0, v)
        raw = v / sc
        if c["dtype"] == "int":
            raw = np.rint(raw)
        raw = raw.astype(freg.NP[c["dtype"]])
        mi = rng.random(shp) < c["miss"]
        raw[mi] = c["mv"]
        mi = raw == c["mv"]
        ds = DS()
        ds.add_dim("lon", shp[1]); ds.add_dim("lat", shp[0])
        ds.add("lon", "double", ("lon",), sx, units="degrees_east")
        ds.add("lat", "double", ("lat",), sy, units="degrees_north")
        ds.add("TOPO", c["dtype"], ("lat", "lon"), raw, missing_value=np.array(c["mv"], freg.NP[c["dtype"]]))
        tf = "source" + ("_topography" * 12 if c["long"] else "") + ".nc"
        ds.write(ctx.path(tf), "NETCDF3_CLASSIC")
        args += ["--topog_file", tf, "--topog_field", "TOPO"]
        if c["zw"]:
            z = np.concatenate([[0.0], c["zw"]])
            ds = DS()
            ds.add_dim("nzv", 2 * len(z) - 1)
            ds.add("zeta", "double", ("nzv",), freg.mid(z), units="meters")
            ds.write(ctx.path("vgrid.nc"), "NETCDF3_CLASSIC")
            args += ["--vgrid_file", "vgrid.nc"]
        val = raw.astype(float) * sc
        if c["ongrid"]:
            dep = np.where(mi | (val == c["mv"]), 0.0, val)
        else:
            wet = (~mi) & (val > 0)
            if c["gc"]:
                w = np.zeros(shp + (ny, nx))
                vec = lambda a, b: np.stack(np.broadcast_arrays(np.cos(b * D) * np.cos(a * D), np.cos(b * D) * np.sin(a * D), np.sin(b * D)), -1)
                A = vec(*np.meshgrid(edges(sx), edges(sy)))
                B = vec(*np.meshgrid(cx, cy))
                for (k, q), a in C17.gc_overlap(A[None], B).items():
                    w[k[1:] + q] = a[0]
            else:
                w = np.einsum("ab,cd->acbd", freg.lat_overlap(edges(sy), cy), freg.lon_overlap(edges(sx), cx))
            w = w * wet[:, :, None, None]
            tot = w.sum((0, 1))
            sm = min(np.diff(np.sin(cy * D)).min() * np.diff(cx).min() * D, 1)
            if ((tot > 0) & (tot < 1e-5 * sm)).any():
                ctx.label("sliver")
                return
            dep = np.where(tot > 0, (w * val[:, :, None, None]).sum((0, 1)) / np.where(tot > 0, tot, 1), 0.0)
        if "filter_topog" in fl:
            dep = shapiro(dep, o.get("num_filter_pass", 1), "smooth_topo_allow_deepening" in fl)
        if "fill_first_row" in fl:
            dep[0] = 0
        if c["zw"]:
            adj = "dont_adjust_topo" not in fl
            bad = adj and (("fill_shallow" in fl and "deepen_shallow" in fl) or o.get("kmt_min", 2) > len(c["zw"]))
            if not bad:
                eps = 0 if c["ongrid"] and "filter_topog" not in fl else (2e-7 if c["gc"] else 1e-9)
                r = [levels(dep * (1 + e), c, o, fl) for e in (0, eps, -eps)]
                for q in r[1:]:
                    if (q[1] != r[0][1]).any() or np.abs(q[0] - r[0][0]).max() > 1e-5 * top:
                        ctx.label("rounding")
                        return
                dep, lev = r[0]
        want = [dep]
    else:
        want = [analytic(typ, o, x, y) for x, y in xy]
        if typ == "box_channel":
            mj = min(x.shape[0] // 2 for x, y in xy)
            if max(v for k, v in o.items() if k[0] == "j") > mj:
                for k in list(o):
                    if k[0] == "j":
                        o[k] = min(o[k], mj)
                        args[args.index("--" + k) + 1] = repr(o[k])
                want = [analytic(typ, o, x, y) for x, y in xy]
    np_ = min([c["np"]] + [v // 2 for x, y in xy for v in x.shape])
    tool = "make_topog_parallel" if np_ else "make_topog"
    ctx.label(typ); ctx.label("parallel" if np_ > 1 else "serial")
    for k in fl:
        ctx.label(k)
    if typ == "realistic":
        ctx.label("levels" if c["zw"] else "no levels"); ctx.label("on grid" if c["ongrid"] else "great circle" if c["gc"] else "remap")
    r = ctx.run(tool, *args, mpi=np_)
    if bad:
        if r.rc == 0:
            raise Violation("options that do not fit together accepted: %s" % " ".join(args))
        ctx.nontrivial(True)
        return
    if r.rc:
        raise Violation("%s exits %s: %s" % (tool, r.rc, (r.err + r.out)[-300:]))
    out = out if "--output" in args else "topog.nc"
    f = ncio.read(ctx.path(out))
    exp = set()
    for n, wv in enumerate(want):
        sfx = "" if len(want) == 1 else "_tile%d" % (n + 1)
        exp.add("depth" + sfx)
        if "depth" + sfx not in f.vars:
            raise Violation("no depth%s in the output" % sfx)
        v = f.vars["depth" + sfx]
        if v.data.shape != wv.shape or tuple(v.dims) != ("ny" + sfx, "nx" + sfx) or v.attrs.get("units") != "meters":
            raise Violation("depth%s is %s %s" % (sfx, v.dims, v.data.shape))
        tol = (2e-6 if c["gc"] and typ == "realistic" else 1e-8) * max(np.abs(wv).max(), 1)
        e = np.abs(v.data - wv)
        if not (e <= tol).all():
            k = np.unravel_index(np.argmax(np.where(np.isnan(e), np.inf, e)), e.shape)
            raise Violation("depth%s[%d,%d] is %r, expected %r" % (sfx, k[0], k[1], float(v.data[k]), float(wv[k])))
    if lev is not None:
        exp.add("num_levels")
        if "num_levels" not in f.vars or (f.vars["num_levels"].data != lev).any():
            raise Violation("num_levels %s, expected %s" % (f.vars["num_levels"].data.tolist() if "num_levels" in f.vars else None, lev.tolist()))
    if set(f.vars) != exp:
        raise Violation("variables %s" % sorted(f.vars))
    ctx.nontrivial(any(len(np.unique(w)) > 1 for w in want) if typ != "realistic" else bool((want[0] == 0).any()) and len(np.unique(want[0])) > 2)
