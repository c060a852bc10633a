"""Exchange grids of make_coupler_mosaic against exact three-way overlaps."""
import copy
import functools
import os
import numpy as np
from hypothesis import strategies as st
from vlib import cs, freg, grid, ncio, sph
from vlib.ncio import DS
from vlib.engine import Violation
from checks import C17

ID = "C20"
RULE = ("Generated atmosphere, land, ocean and wave mosaics (lon-lat or cubed sphere, one or several tiles, default or great circle clipping), topography with sea level, "
        "partly wet cells, southward extension and options; every exchange cell and mask is compared with exact three-way polygon overlaps; non-trivial = some ocean cell is dry and "
        "some wet, and both an atmosphere-ocean and an atmosphere-land file are written.")
QUICK, THOROUGH = 140, 4000
QUICK_S = 50
SHRINK_S = 60
D, R2 = freg.D, freg.R2
ASSUMPTIONS = ["cells at most 90 degrees wide, great circle cells of at most 18 degrees radius",
               "overlaps under --area_ratio_thresh (1e-6) of the smaller cell may be dropped"]


@st.composite
def ll(draw, x0s, nmin=4, nmax=10, south=(-90.0,), mmin=3, mmax=7):
    nx, ny = draw(st.integers(nmin, nmax)), draw(st.integers(mmin, mmax))
    x0 = draw(st.sampled_from(x0s))
    w = np.array([draw(st.integers(4, 5) if nx < 9 else st.integers(2, 5)) for _ in range(nx)], float) if nx > 4 and draw(st.booleans()) else np.ones(nx)
    x = x0 + 360.0 * np.concatenate([[0], np.cumsum(w)]) / w.sum()
    x[-1] = x0 + 360.0
    s = draw(st.sampled_from(south))
    h = np.array([draw(st.integers(2, 6)) for _ in range(ny)], float) if draw(st.booleans()) else np.ones(ny)
    y = s + (90.0 - s) * np.concatenate([[0], np.cumsum(h)]) / h.sum()
    y[-1] = 90.0
    return {"kind": "ll", "lons": [float(v) for v in x], "lats": [float(v) for v in y], "cut": draw(st.sampled_from([None, None, None, ["x", 2], ["y", 1]]))}


@st.composite
def cases(draw):
    c = {"mode": draw(st.sampled_from(["al", "al", "alo", "alo", "alo", "same"])), "gc": draw(st.integers(0, 5)) == 0}
    cube = {"kind": "cs", "n": draw(st.sampled_from([2, 4])), "shift": draw(st.sampled_from([None, 0.0, 12.0, 36.0]))}
    which = draw(st.sampled_from(["", "", "a", "a", "o"]))
    ax, ox = [0.0, 0.0, -180.0, 13.5, -36.25], [0.0, -280.0, -300.0, 20.0, -187.5]
    if c["gc"]:
        cube["n"] = 4
        kw = dict(nmin=16, nmax=18, mmin=9, mmax=10)
        c["atm"] = cube if which else draw(ll(ax, **kw))
        c["lnd"] = draw(ll(ax, **kw))
        c["ocn"] = draw(ll(ox, **kw))
    else:
        c["atm"] = cube if which == "a" else draw(ll(ax))
        c["lnd"] = draw(ll(ax))
        c["ocn"] = cube if which == "o" else draw(ll(ox, nmin=4, nmax=12, south=(-90.0, -90.0, -78.0, -60.5)))
    if c["ocn"]["kind"] == "ll" and c["ocn"]["lats"][0] > -90:      # only a one-tile ocean is extended to the pole
        c["ocn"]["cut"] = None
    c["wav"] = draw(st.sampled_from([None, None, None, "new", "ocn"]))
    if c["wav"] == "new":
        c["wav"] = draw(ll(ax, nmin=16, nmax=17, mmin=9, mmax=9) if c["gc"] else ll(ax))
    c["order"] = 1 if c["gc"] else draw(st.sampled_from([None, 1, 2]))
    c["frac"] = draw(st.booleans())
    c["dry"] = draw(st.sampled_from([0.0, 0.2, 0.5, 0.8, 1.0]))
    c["sea"] = draw(st.sampled_from([None, None, 50.0, -20.0]))
    c["seed"] = draw(st.integers(0, 10 ** 6))
    c["mosaic"] = draw(st.sampled_from([None, "grid_spec"]))
    c["deep"] = draw(st.sampled_from([0, 0, 0, 0, 90]))
    c["check"] = draw(st.booleans())
    c["np"] = draw(st.sampled_from([0, 0, 0, 2, 3]))
    return c


def strategy(tier):
    return cases()


class Grid:
    """cells in file order: tile shapes, and corners of each cell"""

    def __init__(self, g):
        self.g = g
        if g["kind"] == "ll":
            self.lons, self.lats = np.array(g["lons"]), np.array(g["lats"])
            self.cut = freg.cut(self.lons, self.lats, g.get("cut"))
            self.shapes = [(j1 - j0, i1 - i0) for j0, j1, i0, i1 in self.cut]
            X, Y = np.meshgrid(self.lons, self.lats)
            self.corners = [(X[j0:j1 + 1, i0:i1 + 1], Y[j0:j1 + 1, i0:i1 + 1]) for j0, j1, i0, i1 in self.cut]
        else:
            self.tiles, self.con = C17.cube(g["n"], None, g["shift"], 1.0, 0.0, -90.0)
            self.corners = [(x[::2, ::2], y[::2, ::2]) for x, y in self.tiles]
            self.shapes = [(g["n"], g["n"])] * 6
        self.off = np.concatenate([[0], np.cumsum([a * b for a, b in self.shapes])])
        self.n = int(self.off[-1])

    def cell(self, k):
        t = int(np.searchsorted(self.off, k, "right")) - 1
        j, i = divmod(int(k - self.off[t]), self.shapes[t][1])
        return t, j, i

    def write(self, d, name, gattrs):
        if self.g["kind"] == "ll":
            return freg.write_mosaic(d, name, list(self.lons), list(self.lats), self.cut, gattrs)
        return cs.write(d, name, self.tiles, self.con, gattrs)

    def boxindex(self):
        """cell number of each box of lons x lats"""
        m = np.zeros((len(self.lats) - 1, len(self.lons) - 1), int)
        for t, (j0, j1, i0, i1) in enumerate(self.cut):
            m[j0:j1, i0:i1] = self.off[t] + np.arange((j1 - j0) * (i1 - i0)).reshape(j1 - j0, i1 - i0)
        return m

    def polys(self):
        out = []
        for x, y in self.corners:
            lo, la = cs.cells(x, y)
            for k in np.ndindex(lo.shape[:-1]):
                out.append(cs.llpoly(lo[k], la[k]))
        return out

    def refs(self):
        """longitude of the middle of every cell"""
        return np.array([p[:, 0].mean() for p in self.polys()])

    def vecs(self):
        out = []
        for x, y in self.corners:
            v = sph.xyz(x, y)
            q = np.stack([v[:-1, :-1], v[:-1, 1:], v[1:, 1:], v[1:, :-1]], -2)
            for k in np.ndindex(q.shape[:2]):
                p = q[k]
                out.append(np.array([w for i, w in enumerate(p) if np.linalg.norm(w - p[i - 1]) > 1e-12]))
        return out


def cosmom(p, clon):
    """area, integral of cos(lat) and of (lon - clon) cos(lat), integral of lat over a polygon with straight sides in lon-lat
    (zonal distances are arcs, hence the cosine); the zonal ones by the trapezoidal rule along the sides"""
    a, mx, my = cs.moments(p, clon)
    return a, mx - cs.moments(p, clon + 1.0)[1], mx, my


def ring(gs):
    """merged longitude breaks over one turn (radians), the merged latitudes, and for each grid the cell of each elementary box (-1 outside)"""
    x0 = gs[0].lons[0]
    xs = np.unique(np.concatenate([np.round(np.mod(g.lons - x0, 360.0), 12) for g in gs] + [[0.0, 360.0]]))
    keep = [0.0]
    for v in xs:
        if v - keep[-1] > 1e-9:
            keep.append(v)
    keep[-1] = 360.0
    xs = np.array(keep) + x0
    ys = np.unique(np.concatenate([g.lats for g in gs] + [[-90.0]]))
    ys = ys[np.concatenate([[True], np.diff(ys) > 1e-9])]
    mx, my = 0.5 * (xs[1:] + xs[:-1]), 0.5 * (ys[1:] + ys[:-1])
    ids = []
    for g in gs:
        m = g.boxindex()
        i = np.searchsorted(g.lons, np.mod(mx - g.lons[0], 360.0) + g.lons[0], "right") - 1
        j = np.searchsorted(g.lats, my, "right") - 1
        b = np.full((len(my), len(mx)), -1)
        ok = (j >= 0) & (j < m.shape[0])
        b[ok] = m[np.ix_(j[ok], np.clip(i, 0, m.shape[1] - 1))]
        ids.append(b)
    return xs * D, ys * D, ids


def pieces(gs, gc):
    """elementary pieces of the common refinement of the grids: cell of each grid (-1 none), area, mean lon, mean lat"""
    uniq = []
    for g in gs:
        if g not in uniq:
            uniq.append(g)
    out = []
    if gc:
        vs = [g.vecs() for g in uniq]

        def rad(vv):
            c = np.array([v.mean(0) for v in vv])
            return c, np.array([np.linalg.norm(v - m, axis=1).max() for v, m in zip(vv, c)])
        cr = [rad(v) for v in vs]

        def rec(lev, poly, key):
            if lev == len(uniq):
                a = cs.gc_poly_area(poly)
                if a > 1e-13:
                    out.append((key, a, (0.0, 0.0, 0.0), 0.0))
                return
            m = poly.mean(0)
            r = np.linalg.norm(poly - m, axis=1).max()
            c, rr = cr[lev]
            for k in np.flatnonzero(np.linalg.norm(c - m, axis=1) <= r + rr + 1e-9):
                q = cs.gc_clip(poly, vs[lev][k])
                if len(q) >= 3 and cs.gc_poly_area(q) > 1e-13:
                    rec(lev + 1, q, key + (int(k),))
        for k, v in enumerate(vs[0]):
            rec(1, v, (k,))
    else:
        boxes = [g for g in uniq if g.g["kind"] == "ll"]
        cubes = [g for g in uniq if g.g["kind"] != "ll"]
        assert len(cubes) <= 1
        if boxes:
            xs, ys, ids = ring(boxes)
        if not cubes:
            for j in range(len(ys) - 1):
                for i in range(len(xs) - 1):
                    p = np.array([[xs[i], ys[j]], [xs[i + 1], ys[j]], [xs[i + 1], ys[j + 1]], [xs[i], ys[j + 1]]])
                    xm = 0.5 * (xs[i] + xs[i + 1])
                    a, k0, mx, my = cosmom(p, xm)
                    out.append((tuple(int(b[j, i]) for b in ids), a, (xm, k0 / a, mx / a), my / a))
        elif not boxes:
            for k, p in enumerate(cubes[0].polys()):
                xm = p[:, 0].mean()
                a, k0, mx, my = cosmom(p, xm)
                out.append(((k,), a, (xm, k0 / a, mx / a), my / a))
        else:
            for k, p in enumerate(cubes[0].polys()):
                for s in range(-3, 4):
                    q = p + [2 * np.pi * s, 0]
                    i0, i1 = np.searchsorted(xs, q[:, 0].min(), "right") - 1, np.searchsorted(xs, q[:, 0].max(), "left")
                    j0, j1 = np.searchsorted(ys, q[:, 1].min(), "right") - 1, np.searchsorted(ys, q[:, 1].max(), "left")
                    for j in range(max(j0, 0), min(j1, len(ys) - 1)):
                        for i in range(max(i0, 0), min(i1, len(xs) - 1)):
                            r = cs.clip_box(q, xs[i], xs[i + 1], ys[j], ys[j + 1])
                            if len(r) < 3:
                                continue
                            xm = 0.5 * (xs[i] + xs[i + 1])
                            a, k0, mx, my = cosmom(r, xm)
                            if a > 1e-15:
                                key = {id(cubes[0]): k}
                                key.update({id(g): int(b[j, i]) for g, b in zip(boxes, ids)})
                                out.append((tuple(key[id(g)] for g in uniq), a, (xm, k0 / a, mx / a), my / a))
    pos = [uniq.index(g) for g in gs]
    return [(tuple(k[p] for p in pos), a, x, y) for k, a, x, y in out]


def areas(g, gc):
    if gc:
        return np.array([cs.gc_poly_area(v) for v in g.vecs()])
    if g.g["kind"] == "ll":
        a = freg.cell_area(g.lons, g.lats)
        r = np.zeros(g.n)
        r[g.boxindex().ravel()] = a.ravel()
        return r
    return np.array([cs.moments(p, 0)[0] for p in g.polys()])


def wrap(d):
    return d - 2 * np.pi * np.round(d / (2 * np.pi))


class Pair(dict):
    """(cell1, cell2) -> [area, zonal moment about cell1, about cell2, integral of lat, pieces]"""

    def __init__(self, ref1, ref2):
        self.ref = ref1, ref2

    def put(self, k, a, x, y):
        e = self.setdefault(k, [0.0, 0.0, 0.0, 0.0, 0])
        e[0] += a
        for s in (0, 1):
            e[1 + s] += a * (x[2] + x[1] * wrap(x[0] - self.ref[s][k[s]]))
        e[3] += a * y
        e[4] += 1


def centre(pairs, side):
    """[area, zonal moment, integral of lat, pieces] of every parent cell over the pieces of the listed pair tables"""
    s = {}
    for p in pairs:
        for k, e in p.items():
            q = s.setdefault(k[side], [0.0, 0.0, 0.0, 0])
            q[0] += e[0]
            q[1] += e[1 + side]
            q[2] += e[3]
            q[3] += e[4]
    return s


def read(path, g1, g2, ctx):
    ds = ncio.read(path)
    a = ds.vars["xgrid_area"].data
    t1, t2 = ds.vars["tile1_cell"].data, ds.vars["tile2_cell"].data
    if ds.vars["xgrid_area"].attrs.get("units") != "m2":
        raise Violation("%s: xgrid_area has units %r" % (path, ds.vars["xgrid_area"].attrs.get("units")))
    con = grid.text(ds.vars["contact"].data)[0]
    d = None
    if "tile1_distance" in ds.vars:
        d = np.concatenate([ds.vars["tile1_distance"].data, ds.vars["tile2_distance"].data], 1)
    return con, a, t1, t2, d


def run(c, ctx):
    c = copy.deepcopy(c)
    gc = c["gc"]
    atm = Grid(c["atm"])
    mode = c["mode"]
    if mode == "same":
        lnd = ocn = atm
    elif mode == "al":
        lnd, ocn = atm, Grid(c["ocn"])
    else:
        lnd, ocn = Grid(c["lnd"]), Grid(c["ocn"])
    wav = None
    if c["wav"] == "ocn":
        wav = ocn
    elif c["wav"]:
        wav = Grid(c["wav"])
    if wav is not None and wav is not ocn and c["wav"] != "ocn" and wav.g["kind"] != "ll":
        wav = None
    ga = {"great_circle_algorithm": "TRUE"} if gc else None
    deep = "d" * c["deep"] if c["deep"] else "x"
    rel = {}
    for nm, g in (("atm", atm), ("lnd", lnd), ("ocn", ocn), ("wav", wav)):
        if g is None or (nm == "lnd" and g is atm) or (nm == "ocn" and g is atm) or (nm == "wav" and g is ocn):
            continue
        g.name = nm + "_mosaic"
        rel[id(g)] = "%s_%s/%s.nc" % (deep, nm, g.name)
        g.write(ctx.path("%s_%s" % (deep, nm)), g.name, ga)
    # ocean mask
    rng = np.random.default_rng(c["seed"])
    frac, ds = np.zeros(ocn.n), DS()
    nt = len(ocn.shapes)
    ds.add_dim("ntiles", nt)
    sea = c["sea"] if c["sea"] is not None else 0.0
    for t, (ny, nx) in enumerate(ocn.shapes):
        sfx = "" if nt == 1 else "_tile%d" % (t + 1)
        ds.add_dim("nx" + sfx, nx)
        ds.add_dim("ny" + sfx, ny)
        dry = rng.random((ny, nx)) < c["dry"]
        depth = np.where(dry, rng.uniform(-500, sea, (ny, nx)), rng.uniform(sea, 5000, (ny, nx)))
        depth.ravel()[rng.integers(depth.size)] = sea
        f = (depth > sea).astype(float)
        if c["frac"]:
            f = np.where(dry, 0, np.where(rng.random((ny, nx)) < 0.5, rng.uniform(0.01, 0.99, (ny, nx)), 1.0))
            ds.add("area_frac" + sfx, "double", ("ny" + sfx, "nx" + sfx), f)
        ds.add("depth" + sfx, "double", ("ny" + sfx, "nx" + sfx), depth, units="meters")
        frac[ocn.off[t]:ocn.off[t + 1]] = f.ravel()
    os.makedirs(ctx.path(deep + "_topog"), exist_ok=True)
    topog = deep + "_topog/topog.nc"
    ds.write(ctx.path(topog))
    args = ["--atmos_mosaic", rel[id(atm)], "--ocean_mosaic", rel[id(ocn)], "--ocean_topog", topog]
    if lnd is not atm or c["seed"] % 2:
        args += ["--land_mosaic", rel[id(lnd)]]
    if wav is not None:
        args += ["--wave_mosaic", rel[id(wav)]]
    if c["order"]:
        args += ["--interp_order", str(c["order"])]
    if c["sea"] is not None:
        args += ["--sea_level", repr(c["sea"])]
    if c["mosaic"]:
        args += ["--mosaic_name", c["mosaic"]]
    if c["check"]:
        args += ["--check"]
    order = c["order"] or 2
    np_ = c["np"]
    n1 = min(a for g in (atm, lnd, ocn, wav or atm) for a, b in g.shapes)       # more processes than rows are refused
    if min(np_, n1) > 1:
        ctx.ok("make_coupler_mosaic_parallel", *args, mpi=min(np_, n1))
    else:
        ctx.ok("make_coupler_mosaic", *args)

    # expectation; zonal moments depend on how the pieces are cut when sides are oblique, so each table has its own
    slack = 1e-6 if "cs" in (atm.g["kind"], ocn.g["kind"]) else 0.0
    gs = [atm, lnd, ocn]
    ps = pieces(gs, gc)
    ref = {id(g): np.zeros(g.n) if gc else g.refs() for g in gs + ([wav] if wav is not None else [])}
    ra, rl, ro = (ref[id(g)] for g in gs)
    axo, axl, lxo = Pair(ra, ro), Pair(ra, rl), Pair(rl, ro)
    for (a, l, o), s, x, y in ps:
        f = frac[o] if o >= 0 else 0.0
        if f < 1:
            axl.put((a, l), s * (1 - f), x, y)
    for tab, g in ((axo, atm), (lxo, lnd)):
        if tab is axo or lnd is not atm:
            for (k, o), s, x, y in pieces([g, ocn], gc):
                if o >= 0 and frac[o] > 0:
                    tab.put((k, o), s * frac[o], x, y)
    wxo = Pair(ref[id(wav)], ro) if wav is not None else {}
    if wav is not None:
        for (w, o), s, x, y in pieces([wav, ocn], gc):
            if o >= 0 and frac[o] > 0:
                wxo.put((w, o), s * frac[o], x, y)
    ar = {id(g): areas(g, gc) for g in gs + ([wav] if wav is not None else [])}
    npc = {}
    for k, _, _, _ in ps:
        npc[k[0]] = npc.get(k[0], 0) + 1
    mfile = (c["mosaic"] or "mosaic") + ".nc"
    mos = ncio.read(ctx.path(mfile))
    seen = set()
    pre = {"axo": ("atm_", "ocn_"), "axl": ("atm_", "lnd_"), "lxo": ("lnd_", "ocn_"), "wxo": ("wav_", "ocn_")} if mode == "same" else {}
    got_total = {}
    for nm, tab, g1, g2, var in (("axo", axo, atm, ocn, "aXo_file"), ("axl", axl, atm, lnd, "aXl_file"), ("lxo", lxo, lnd, ocn, "lXo_file"), ("wxo", wxo, wav, ocn, "wXo_file")):
        files = grid.text(mos.vars[var].data) if var in mos.vars else []
        if nm == "lxo" and lnd is atm:      # the same exchange grid
            if files != (grid.text(mos.vars["aXo_file"].data) if "aXo_file" in mos.vars else []):
                raise Violation("%s: lXo_file %s differs from aXo_file though land is the atmosphere" % (mfile, files))
            continue
        if g1 is None:
            if files:
                raise Violation("%s lists %s without a wave mosaic" % (mfile, files))
            continue
        got = {}
        A1, A2 = ar[id(g1)], ar[id(g2)]
        for f in files:
            if f in seen or not os.path.exists(ctx.path(f)):
                raise Violation("%s lists %s twice or it was not written" % (mfile, f))
            seen.add(f)
            con, a, t1, t2, d = read(ctx.path(f), g1, g2, ctx)
            m = [p.split(":") for p in con.split("::")]
            k1, k2 = int(m[0][1][4:]) - 1, int(m[1][1][4:]) - 1
            if m[0][0] != g1.name or m[1][0] != g2.name:
                raise Violation("%s: contact %s" % (f, con))
            if (d is not None) != (order == 2):
                raise Violation("%s: distances present: %s, order %d" % (f, d is not None, order))
            for r in range(len(a)):
                (ny1, nx1), (ny2, nx2) = g1.shapes[k1], g2.shapes[k2]
                i1, j1, i2, j2 = [int(v) - 1 for v in (*t1[r], *t2[r])]
                if not (0 <= i1 < nx1 and 0 <= j1 < ny1 and 0 <= i2 < nx2 and 0 <= j2 < ny2):
                    raise Violation("%s: cell indices %s %s outside tiles of %s and %s" % (f, t1[r], t2[r], (nx1, ny1), (nx2, ny2)))
                k = (int(g1.off[k1] + j1 * nx1 + i1), int(g2.off[k2] + j2 * nx2 + i2))
                if k in got:
                    raise Violation("%s: the exchange cell of %s and %s is listed twice" % (f, t1[r], t2[r]))
                got[k] = (a[r], None if d is None else d[r])
        c1, c2 = None, None
        if order == 2:
            c1 = centre([axo, axl] if g1 is atm and nm in ("axo", "axl") else [tab], 0)
            c2 = centre([tab], 1)
        for k in sorted(set(tab) | set(got)):
            e = tab.get(k, [0.0] * 5)
            mn = min(A1[k[0]], A2[k[1]])
            tol = 1.0e-6 * mn * (e[4] + 1) * 1.01 + 1e-12
            gv = got.get(k, (0.0, None))
            if abs(gv[0] / R2 - e[0]) > tol + 1e-8 * e[0]:
                raise Violation("%s: exchange area of cells %s and %s (tile, j, i) is %.9g m2, their overlap %.9g m2 (smaller cell %.6g m2)"
                                % (nm, g1.cell(k[0]), g2.cell(k[1]), gv[0], e[0] * R2, mn * R2))
            if gv[1] is not None and e[0] > 1e-3 * mn:
                for side, cc, (dx, dy), Ag in ((0, c1, gv[1][:2], A1), (1, c2, gv[1][2:], A2)):
                    q = cc[k[side]]
                    if q[0] < 1e-3 * Ag[k[side]]:
                        continue
                    ex = e[1 + side] / e[0] - q[1] / q[0]
                    ey = e[3] / e[0] - q[2] / q[0]
                    t = 2e-5 + 3e-6 * (e[4] * mn / e[0] + q[3] * Ag[k[side]] / q[0])
                    if abs(dx - ex) > t + slack or abs(dy - ey) > t:
                        raise Violation("%s: distance of the exchange cell of %s and %s from the centroid of side %d is (%.8g, %.8g), should be (%.8g, %.8g)"
                                        % (nm, g1.cell(k[0]), g2.cell(k[1]), side + 1, dx, dy, ex, ey))
        got_total[nm] = got
    # masks
    def mask(stem, g, var, want, tol):
        for t, (ny, nx) in enumerate(g.shapes):
            p = ctx.path(stem + (".nc" if len(g.shapes) == 1 else "_tile%d.nc" % (t + 1)))
            if not os.path.exists(p):
                raise Violation("no %s" % p)
            v = ncio.read(p).vars[var].data
            w = want[g.off[t]:g.off[t + 1]].reshape(ny, nx)
            tt = np.broadcast_to(tol, want.shape)[g.off[t]:g.off[t + 1]].reshape(ny, nx)
            if v.shape != w.shape or not (np.abs(v - w) <= tt).all():
                raise Violation("%s %s is\n%s\nshould be\n%s" % (stem, var, v, w))
    A = ar[id(ocn)]
    mask("ocean_mask", ocn, "mask", frac, 1e-4)
    mask("ocean_mask", ocn, "areaO", A * R2, 1e-8 * A.max() * R2)
    L = ar[id(lnd)]
    lf, nl = np.zeros(lnd.n), np.zeros(lnd.n)
    for (a, l), e in axl.items():
        lf[l] += e[0]
        nl[l] += e[4]
    mask("land_mask", lnd, "mask", lf / L, 1.1e-6 * (nl + 1))
    mask("land_mask", lnd, "area_lnd", L * R2, 1e-8 * L.max() * R2)
    mask("land_mask", lnd, "l_area", lf * R2, 1.1e-6 * (nl + 1) * L * R2)
    if wav is not None:
        W = ar[id(wav)]
        wf, nw = np.zeros(wav.n), np.zeros(wav.n)
        for (w, o), e in wxo.items():
            wf[w] += e[0]
            nw[w] += e[4]
        mask("wave_mask", wav, "mask", wf / W, 1.1e-6 * (nw + 1))
    # the table of contents
    for nm, g in (("atm", atm), ("lnd", lnd), ("ocn", ocn), ("wav", wav)):
        if g is None:
            continue
        r = rel[id(g)]
        w = (os.path.dirname(r), os.path.basename(r), g.name)
        q = tuple(grid.text(mos.vars["%s_mosaic%s" % (nm, s)].data)[0] for s in ("_dir", "_file", ""))
        if (q[0].rstrip("/"), q[1], q[2]) != w:
            raise Violation("%s: %s mosaic is %s, should be %s" % (mfile, nm, q, w))
    q = tuple(grid.text(mos.vars["ocn_topog" + s].data)[0] for s in ("_dir", "_file"))
    if (q[0].rstrip("/"), q[1]) != os.path.split(topog):
        raise Violation("%s: topography is %s, should be %s" % (mfile, q, topog))
    ctx.label("%s%s%s" % (mode, " gc" if gc else "", " cs" if "cs" in (atm.g["kind"], ocn.g["kind"]) else ""), "order %d" % order)
    if wav is not None:
        ctx.label("wave")
    ctx.nontrivial(len(got_total.get("axo", ())) > 0 and len(got_total.get("axl", ())) > 0)
