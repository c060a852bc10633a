"""fregrid between cubed spheres and longitude-latitude grids: orders 1 and 2, monotonic, great circle clipping."""
import copy
import functools
import os
import re
import numpy as np
from hypothesis import strategies as st
from vlib.engine import Violation
from vlib import ncio, freg, cs, sph
import warnings
from vlib.freg import MISS, NP, D
from checks import C16

warnings.simplefilter("ignore", RuntimeWarning)
ID = "C17"
QUICK, THOROUGH = 700, 12000
RULE = ("Generated cubed spheres (2-7 cells a side, shifted, and stretched or rotated with the great circle algorithm) remapped to generated longitude-latitude targets and back, "
        "with conserve_order1, conserve_order2 and conserve_order2_monotonic chosen by option or by field attribute, with and without missing values, sums, weights and cell measures; every "
        "value is compared with exact polygon overlaps and a numpy Green's-theorem gradient, and total conservation and bounds are checked independently; non-trivial = several source values mixed in a target cell.")
ASSUMPTIONS = ["the default clipping (sides straight in longitude-latitude) is checked for cells that do not contain a pole inside; other grids with great_circle_algorithm",
               "overlaps below 1e-6 of a cell may be dropped (documented threshold)"]


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["cs2ll", "cs2ll", "cs2ll", "cs2ll", "ll2cs", "gc", "gc"]))
    c = {"kind": kind, "n": draw(st.sampled_from([2, 4, 4, 6])), "tr": None, "shift": draw(st.sampled_from([None, None, 0.0, 12.0, 36.0])), "stretch": 1.0, "lon": 0.0, "lat": -90.0}
    if kind == "gc":                    # cells of at most 18 degrees radius, as the range check of the clipping supposes
        c["n"] = draw(st.integers(4, 6))
        c["tr"] = draw(st.sampled_from([None, "do_schmidt", "do_cube_transform"]))
        if c["tr"]:
            c["n"], c["stretch"] = draw(st.sampled_from([[4, 1.0], [5, 1.0], [6, 1.0], [6, 1.25], [8, 1.5]]))
            c["lon"] = draw(st.one_of(st.sampled_from([0.0, 17.5, 262.4, 180.0]), st.integers(0, 359).map(float)))
            c["lat"] = draw(st.one_of(st.sampled_from([35.5, -12.25, 60.0, 0.0]), st.integers(-80, 80).map(lambda v: v + 0.25)))
    c["ll"] = draw(st.one_of(C16.llgrid(), C16.llgrid(kind == "cs2ll")))
    if kind == "gc":
        q = c["ll"]
        a, b = max(q["lats"][0], -88.0), min(q["lats"][-1], 88.0)
        x, y = q["lons"][0], q["lons"][-1]
        q["lats"] = [float(v) for v in np.linspace(a, b, max(len(q["lats"]), int(np.ceil((b - a) / 22)) + 1))]
        q["lons"] = [float(v) for v in np.linspace(x, y, max(len(q["lons"]), int(np.ceil((y - x) / 22)) + 1))]
    c["fields"] = []
    for k in range(draw(st.integers(1, 2))):
        c["fields"].append({"name": ["t_surf", "q"][k], "dtype": draw(st.sampled_from(["double", "double", "float"])), "dims": draw(st.sampled_from(["", "t", "tz"])),
                            "miss": draw(st.sampled_from([None, None, "missing_value"])), "shape": draw(st.sampled_from(["const", "smooth", "smooth", "rand", "rand", "point"])),
                            "seed": draw(st.integers(0, 10 ** 6)), "method": draw(st.sampled_from([None, None, None, "area: sum"])),
                            "im": draw(st.sampled_from([None, None, "conserve_order1", "conserve_order2"])), "meas": draw(st.sampled_from([False, False, True]))})
    c["nt"], c["nz"] = draw(st.sampled_from([1, 1, 2, 3, 5])), draw(st.sampled_from([1, 2, 3, 4]))
    c["how"] = draw(st.sampled_from([None, "conserve_order1", "conserve_order2", "conserve_order2", "conserve_order2_monotonic", "conserve_order2_monotonic"])) if kind == "cs2ll" else draw(st.sampled_from([None, "conserve_order1"]))
    c["weight"] = draw(st.sampled_from([False, False, True]))
    c["target"] = draw(st.sampled_from([False, False, True]))
    c["swap"] = draw(st.booleans())
    c["conserve"] = draw(st.booleans())
    return c


def strategy(tier):
    return cases()


@functools.lru_cache(64)
def cube(n, tr, shift, stretch, lon, lat):
    t, con = cs.cube(n, tr, shift, stretch, lon, lat)
    return t, con


@functools.lru_cache(64)
def gradient(*a):
    return cs.Gradient(cube(*a)[0])


def ll_overlap(lon, lat, boxes, order2):
    """dict (cell, box) -> (area, clon, clat) of polygon cells with the boxes lons x lats (radians)"""
    lons, lats = boxes
    out = {}
    for k in np.ndindex(lon.shape[:-1]):
        p = cs.llpoly(lon[k], lat[k])
        ca = p[:, 0].mean()
        for s in range(-3, 4):
            q = p + [2 * np.pi * s, 0]
            i0, i1 = np.searchsorted(lons, q[:, 0].min(), "right") - 1, np.searchsorted(lons, q[:, 0].max(), "left")
            j0, j1 = np.searchsorted(lats, q[:, 1].min(), "right") - 1, np.searchsorted(lats, q[:, 1].max(), "left")
            for j in range(max(j0, 0), min(j1, len(lats) - 1)):
                for i in range(max(i0, 0), min(i1, len(lons) - 1)):
                    r = cs.clip_box(q, lons[i], lons[i + 1], lats[j], lats[j + 1])
                    m = cs.moments(r, ca + 2 * np.pi * s)
                    if m[0] > 0:
                        o = out.get((k, (j, i)), (0, 0, 0))
                        out[k, (j, i)] = (o[0] + m[0], o[1] + m[1], o[2] + m[2])
    return out


def gc_overlap(cub, ll):
    """the same with great circle sides; cub (6, n+1, n+1, 3) corners, ll (ny+1, nx+1, 3)"""
    q = lambda v: np.stack([v[..., :-1, :-1, :], v[..., :-1, 1:, :], v[..., 1:, 1:, :], v[..., 1:, :-1, :]], -2)
    A, B = q(cub), q(ll)
    out = {}
    ca, cb = A.mean(-2), B.mean(-2)
    ra = np.linalg.norm(A - ca[..., None, :], axis=-1).max(-1)
    rb = np.linalg.norm(B - cb[..., None, :], axis=-1).max(-1)

    def uniq(p):
        r = [v for i, v in enumerate(p) if np.linalg.norm(v - p[i - 1]) > 1e-12]
        return np.array(r)
    for k in np.ndindex(A.shape[:3]):
        d = np.linalg.norm(cb - ca[k], axis=-1)
        for j, i in np.argwhere(d <= ra[k] + rb + 1e-9):
            a = cs.gc_poly_area(cs.gc_clip(uniq(A[k]), uniq(B[j, i])))
            if a > 1e-14:
                out[k, (int(j), int(i))] = (a, 0, 0)
    return out


def smooth(v, seed):
    r = np.random.default_rng(seed)
    a = r.normal(size=(3, 3)); b = r.normal(size=3)
    return 100 * (np.einsum("...i,ij,...j->...", v, a, v) + v @ b) + r.uniform(-50, 50)


def run(c, ctx):
    c = copy.deepcopy(c)
    fs = c["fields"]
    n = c["n"]
    kind = c["kind"]
    tiles, con = cube(n, c["tr"], c["shift"], c["stretch"], c["lon"], c["lat"])
    ll = c["ll"]
    lons, lats = np.array(ll["lons"]), np.array(ll["lats"])
    mono = c["how"] == "conserve_order2_monotonic"
    for f in fs:
        if kind != "cs2ll" or mono:
            f["im"] = None
        if c["target"]:
            f["miss"] = None
        if c["weight"] and f["method"]:
            f["method"] = None
    if c["target"]:
        c["weight"] = False
    for f in fs:
        if c["weight"]:
            f["meas"] = False               # cell measures take the place of weights
    if len(fs) == 2 and c["swap"]:
        fs.reverse()

    def order(f):
        return {"conserve_order1": 1, "conserve_order2": 2, "conserve_order2_monotonic": 3, None: 1}[f["im"] or c["how"]]
    # grids
    ga = {"great_circle_algorithm": "TRUE"} if kind == "gc" else None
    csm = cs.write(ctx.path("cs"), "cs_mosaic", tiles, con, ga)
    lt = freg.cut(lons, lats, ll["cut"])
    llm = None
    if not (ll["size"] and kind == "cs2ll"):
        llm = freg.write_mosaic(ctx.path("ll"), "ll_mosaic", list(lons), list(lats), lt, ga)
    else:
        lt = [(0, len(lats) - 1, 0, len(lons) - 1)]
    # overlaps: W[k] over (cube cell, ll cell)
    corner = [(x[::2, ::2], y[::2, ::2]) for x, y in tiles]
    if kind == "gc":
        X, Y = np.meshgrid(lons, lats)
        LV, CV = sph.xyz(X, Y), np.stack([sph.xyz(x, y) for x, y in corner])
        ov = gc_overlap(CV, LV)
        acs = sph.quad(CV[:, :-1, :-1], CV[:, :-1, 1:], CV[:, 1:, 1:], CV[:, 1:, :-1])
        all_ = sph.quad(LV[:-1, :-1], LV[:-1, 1:], LV[1:, 1:], LV[1:, :-1])
    else:
        lo, la = zip(*[cs.cells(x, y) for x, y in corner])
        ov = ll_overlap(np.stack(lo), np.stack(la), (lons * D, lats * D), True)
        acs = np.zeros((6, n, n))
        for k in np.ndindex(acs.shape):
            acs[k] = cs.moments(cs.llpoly(lo[k[0]][k[1:]], la[k[0]][k[1:]]), 0)[0]
        all_ = freg.cell_area(lons, lats)
    sliver = False
    T = []
    nl = len(lons) - 1
    for (k, b), m in ov.items():
        r = m[0] / min(acs[k], all_[b])
        if r < 1.001e-6:
            sliver |= r > 1e-9
            continue
        sliver |= r < 2e-6
        T.append((k[0] * n * n + k[1] * n + k[2], b[0] * nl + b[1]) + m)
    if not T:
        ctx.nontrivial(False)
        return
    ic, il = np.array([t[0] for t in T]), np.array([t[1] for t in T])
    ar, mx, my = (np.array([t[i] for t in T]) for i in (2, 3, 4))
    # data
    rng = np.random.default_rng(fs[0]["seed"] + 5)
    src_cs = kind != "ll2cs" and not (kind == "gc" and c["swap"])
    shp = (6, n, n) if src_cs else all_.shape
    asrc, adst = (acs, all_) if src_cs else (all_, acs)
    isrc, idst = (ic, il) if src_cs else (il, ic)
    cen = np.stack([sph.xyz(x[1::2, 1::2], y[1::2, 1::2]) for x, y in tiles]) if src_cs else sph.xyz(*np.meshgrid(0.5 * (lons[1:] + lons[:-1]), 0.5 * (lats[1:] + lats[:-1])))
    ax = {"t": ("time", c["nt"]), "z": ("level", c["nz"])}
    data = {}
    for f in fs:
        s = tuple(ax[d][1] for d in f["dims"]) + shp
        r = np.random.default_rng(f["seed"])
        if f["shape"] == "smooth":
            v = np.zeros(s)
            for k in np.ndindex(s[:len(f["dims"])]):
                v[k] = smooth(cen, f["seed"] + sum(k))
        elif f["shape"] == "const":
            v = np.full(s, r.uniform(-300, 300))
        elif f["shape"] == "point":
            v = np.full(s, 20.0)
            v.reshape(-1)[r.integers(v.size)] = 120.0
        else:
            v = r.uniform(-100, 400, s)
        v = v.astype(NP[f["dtype"]])
        m = np.zeros(s, bool)
        if f["miss"]:
            m = r.random(s) < r.choice([0.05, 0.3, 0.7])
            v[m] = MISS[f["dtype"]]
        data[f["name"]] = (v, m)
    wt = rng.uniform(0.2, 1, shp)
    meas = rng.uniform(0.2, 1, shp)
    st_ = [(slice(k, k + 1), slice(None), slice(None)) for k in range(6)] if src_cs else [(slice(None),) * 2 if len(lt) == 1 else (slice(j0, j1), slice(i0, i1)) for j0, j1, i0, i1 in lt]
    for k, sl in enumerate(st_):
        ds = ncio.DS()
        for a in "tz":
            if any(a in f["dims"] for f in fs):
                freg.axis(ds, a, dict(c, tbnd=False, zedge=False))
        loc = lambda v: v[(Ellipsis,) + sl][..., 0, :, :] if src_cs else v[(Ellipsis,) + sl]
        ny, nx = loc(wt).shape
        for nm, cart, q in (("grid_xt", "X", nx), ("grid_yt", "Y", ny)):
            ds.add_dim(nm, q)
            ds.add(nm, "double", (nm,), np.arange(q) + 1.0, cartesian_axis=cart)
        for f in fs:
            at = dict(long_name=f["name"], units="K")
            if f["miss"]:
                at["missing_value"] = np.array([MISS[f["dtype"]]], NP[f["dtype"]])
            if f["method"]:
                at["cell_methods"] = f["method"]
            if f["im"]:
                at["interp_method"] = f["im"]
            if f["meas"]:
                at["cell_measures"] = "area: area_t"
            ds.add(f["name"], f["dtype"], tuple(ax[d][0] for d in f["dims"]) + ("grid_yt", "grid_xt"), loc(data[f["name"]][0]), **at)
        ds.add("frac", "double", ("grid_yt", "grid_xt"), loc(wt))
        if any(f["meas"] for f in fs):
            ds.add("area_t", "double", ("grid_yt", "grid_xt"), loc(meas * asrc * freg.R2), long_name="area", units="m2")
        ds.write(ctx.path("in.nc" if len(st_) == 1 else "in.tile%d.nc" % (k + 1)))
    args = ["--input_mosaic", csm if src_cs else llm, "--input_file", "in", "--output_file", "out", "--scalar_field", ",".join(f["name"] for f in fs)]
    if src_cs:
        if llm:
            args += ["--output_mosaic", llm]
        else:
            k, m, a, b, e, g = ll["size"]
            args += ["--nlon", k, "--nlat", m, "--lonBegin", repr(a), "--lonEnd", repr(b), "--latBegin", repr(e), "--latEnd", repr(g)]
    else:
        args += ["--output_mosaic", csm]
    if c["how"]:
        args += ["--interp_method", c["how"]]
    if c["weight"]:
        args += ["--weight_field", "frac"]
    if c["target"]:
        args += ["--target_grid"]
    ctx.label(kind, "order%s" % max(order(f) for f in fs), "miss" if any(f["miss"] for f in fs) else "full", "sliver" if sliver else "clean")
    mixed = np.bincount(idst).max() > 1
    ctx.nontrivial(bool(mixed and any(f["shape"] != "const" for f in fs)))
    if c.get("conserve"):
        args += ["--check_conserve"]
    r = ctx.ok("fregrid", *[str(a) for a in args])
    outs = []
    nd = len(lt) if src_cs else 6
    for k in range(nd):
        p = ctx.path("out.nc" if nd == 1 else "out.tile%d.nc" % (k + 1))
        if not os.path.exists(p):
            raise Violation("no output file %s" % os.path.basename(p))
        outs.append(ncio.read(p).vars)
    cell = np.bincount(isrc, ar, asrc.size)
    full = np.abs(cell / asrc.reshape(-1) - 1) < 1e-3
    for f in fs:
        got = []
        for k in range(nd):
            if f["name"] not in outs[k]:
                raise Violation("no %s in the output" % f["name"])
            if outs[k][f["name"]].attrs.get("interp_method") != {1: "conserve_order1", 2: "conserve_order2", 3: "conserve_order2"}[order(f)]:
                raise Violation("%s: interp_method %r" % (f["name"], outs[k][f["name"]].attrs.get("interp_method")))
            got.append(outs[k][f["name"]].data)
        v, m = data[f["name"]]
        g = np.zeros(v.shape[:len(f["dims"])] + adst.shape)
        for k in range(nd):
            if src_cs:
                j0, j1, i0, i1 = lt[k]
                want = g[..., j0:j1, i0:i1].shape
            else:
                want = g[..., k, :, :].shape
            if got[k].shape != want:
                raise Violation("%s has shape %s, should be %s" % (f["name"], got[k].shape, want))
            if src_cs:
                g[..., j0:j1, i0:i1] = got[k]
            else:
                g[..., k, :, :] = got[k]
        lines = re.findall(r"sum of %s: input = (\S+), output = (\S+), diff = (\S+)\. " % f["name"], r.out)
        idx = list(np.ndindex(v.shape[:len(f["dims"])]))
        if len(lines) != (len(idx) if c.get("conserve") else 0):
            raise Violation("%d lines about the sums of %s, which has %d levels and records" % (len(lines), f["name"], len(idx)))
        for q, k in enumerate(idx):
            tot = check(c, f, order(f), v[k].astype(float), m[k], g[k], (isrc, idst, ar, mx, my), asrc, adst, meas if f["meas"] else wt, cell, full, sliver,
                  gradient(n, c["tr"], c["shift"], c["stretch"], c["lon"], c["lat"]) if order(f) > 1 else None, lt)
            if c.get("conserve"):
                for w, x, t in zip(("input", "output"), tot, lines[q]):
                    if not abs(float(t) - x[0]) <= 1e-5 * abs(x[0]) + (1e-3 if sliver else 1e-6) * x[1]:
                        raise Violation("%s%s: the %s sum is said to be %s, is %r" % (f["name"], list(k), w, t, x[0]))


def check(c, f, order, v, m, g, T, asrc, adst, wt, cell, full, sliver, grad, lt):
    isrc, idst, ar, mx, my = T
    a = ar.copy()
    if f["method"]:
        a = a / asrc.reshape(-1)[isrc]
    elif c["weight"] or f["meas"]:
        a = a * wt.reshape(-1)[isrc]
    x = v.reshape(-1)[isrc]
    ok = ~m.reshape(-1)[isrc]
    lo = hi = None
    if order > 1:
        miss = m.reshape(-1)
        gx, gy = grad(v)
        zero = np.nan_to_num(grad.near(miss.astype(float)), nan=0.0)
        zero = np.delete(zero, 4, -1).max(-1) > 0
        gx, gy = np.where(zero, 0, gx).reshape(-1), np.where(zero, 0, gy).reshape(-1)
        # centroid of every source cell: of the parts when they cover it, else of the cell
        cx, cy = np.bincount(isrc, mx, cell.size), np.bincount(isrc, my, cell.size)
        own = grad.centroid
        with np.errstate(all="ignore"):
            cx, cy = np.where(full, cx / cell, own[0]), np.where(full, cy / cell, own[1])
        dev = np.where(ok, gx[isrc] * (mx / ar - cx[isrc]) + gy[isrc] * (my / ar - cy[isrc]), 0)
        if order == 3:
            nb = grad.near(np.where(m, np.nan, v))
            with np.errstate(all="ignore"):
                lo, hi = np.nanmin(nb, -1).reshape(-1), np.nanmax(nb, -1).reshape(-1)
            b = v.reshape(-1)
            up, dn = np.zeros(cell.size), np.zeros(cell.size)
            np.maximum.at(up, isrc[ok], dev[ok])
            np.minimum.at(dn, isrc[ok], dev[ok])
            with np.errstate(all="ignore"):
                s = np.minimum(np.where(up > hi - b, (hi - b) / up, 1), np.where(dn < lo - b, (lo - b) / dn, 1))
            dev = np.where(ok, dev * s[isrc], 0)
        x = x + dev
    x = np.where(ok, x, 0)
    N = adst.size
    num, den = np.bincount(idst, a * x, N), np.bincount(idst, a * ok, N)
    cov = np.bincount(idst, ok, N) > 0
    e = num if f["method"] else num / np.where(den > 0, den, 1)
    if c["target"] and not f["method"]:
        e = e * np.bincount(idst, a if f["meas"] else ar, N) / adst.reshape(-1)
    scale = max(1.0, np.abs(np.where(m, 0, v)).max())
    if f["method"]:
        scale *= max(1.0, np.bincount(idst, a, N).max())
    tol = scale * (1e-4 if sliver else (3e-8 if order > 1 or c["kind"] == "gc" else 1e-9)) + (3e-7 * scale if f["dtype"] == "float" else 0)
    g = g.reshape(-1)
    shape = adst.shape
    at = lambda i: tuple(int(q) for q in np.unravel_index(i, shape))
    frac = np.bincount(idst, ar * ok, N) / adst.reshape(-1)
    soft = frac < 1e-5                      # touched by a sliver only
    if f["miss"]:
        gm = g == float(np.array(MISS[f["dtype"]], NP[f["dtype"]]))
    else:
        gm = np.abs(g) > 1e19
    bad = (gm == cov) & ~soft
    if bad.any():
        i = int(np.argwhere(bad)[0][0])
        raise Violation("%s%s is %r but %s by valid source cells" % (f["name"], at(i), float(g[i]), "covered" if cov[i] else "not covered"))
    bad = ~(np.abs(g - e) <= tol) & cov & ~soft
    if bad.any():
        i = int(np.argwhere(bad)[0][0])
        raise Violation("%s%s = %r, should be %r (order %d, %d differ)" % (f["name"], at(i), float(g[i]), float(e[i]), order, bad.sum()))
    # independent of the model: totals, bounds
    if not f["miss"] and not c["weight"] and not f["meas"] and not c["target"] and not sliver and full.all() and c["kind"] != "gc":
        want = (v.reshape(-1) * (1 if f["method"] else asrc.reshape(-1))).sum()
        w = 1 if f["method"] else np.bincount(idst, ar, N)
        tot = np.where(cov, g * w, 0).sum()
        if not abs(tot - want) <= 1e-7 * scale * (asrc.size if f["method"] else 4 * np.pi) + (f["dtype"] == "float") * 1e-6 * scale * N:
            raise Violation("%s: total %r, source %r (order %d)" % (f["name"], tot, want, order))
    if order != 2 and not f["method"] and not c["target"]:
        L = v.reshape(-1) if order == 1 else lo
        H = v.reshape(-1) if order == 1 else hi
        mn, mxx = np.full(N, np.inf), np.full(N, -np.inf)
        np.minimum.at(mn, idst[ok], L[isrc[ok]])
        np.maximum.at(mxx, idst[ok], H[isrc[ok]])
        bad = ((g < mn - tol) | (g > mxx + tol)) & cov & ~soft
        if bad.any():
            i = int(np.argwhere(bad)[0][0])
            raise Violation("%s%s = %r outside the range %r..%r of the source around (order %d)" % (f["name"], at(i), float(g[i]), float(mn[i]), float(mxx[i]), order))
    u = (1 if f["method"] else asrc.reshape(-1) * freg.R2) * (wt.reshape(-1) if f["meas"] and not f["method"] else 1) * np.where(m.reshape(-1), 0, v.reshape(-1))
    o = num * (1 if f["method"] else freg.R2)
    return (u.sum(), np.abs(u).sum()), (o.sum(), np.abs(u).sum())
