"""fregrid --interp_method bilinear: scalars and vectors from cubed spheres to longitude-latitude points."""
import copy
import functools
import os
import numpy as np
from hypothesis import strategies as st
from vlib.engine import Violation
from vlib import ncio, freg, cs, sph
from vlib.freg import MISS, NP
from checks import C17

ID = "C19"
QUICK, THOROUGH = 500, 12000
SHRINK_S = 40
RULE = ("Generated cubed spheres (shifted, stretched, rotated) and target sizes and regions with scalar and wind fields (missing values, levels, records), --center_y, --finer_step, --fill_missing and remap file reuse; "
        "without finer steps every value is compared with the distance-weighted mean of the source centres around the point, with finer steps with the documented averaging of the finer values; "
        "non-trivial = field not constant and at least one point strictly inside a quadrangle of source centres.")
ASSUMPTIONS = ["a point on a side shared by two quadrangles may take either one's weights", "vectors without missing values", "values to 1e-6 of the range: distances come from arc cosines"]


@st.composite
def cases(draw):
    c = {"n": draw(st.sampled_from([2, 3, 4, 5, 6, 7, 9, 12])), "tr": None, "shift": draw(st.sampled_from([None, None, 0.0, 12.0, 36.0])), "stretch": 1.0, "lon": 0.0, "lat": -90.0}
    c["tr"] = draw(st.sampled_from([None, None, "do_schmidt", "do_cube_transform"]))
    if c["tr"]:
        c["stretch"] = draw(st.sampled_from([1.0, 1.25, 1.5, 2.5]))
        c["lon"] = draw(st.one_of(st.sampled_from([0.0, 17.5, 262.4, 180.0]), st.integers(0, 359).map(float)))
        c["lat"] = draw(st.one_of(st.sampled_from([35.5, -12.25, 60.0, 0.0]), st.integers(-80, 80).map(lambda v: v + 0.25)))
    c["size"] = [draw(st.sampled_from(list(range(2, 15)) + [25, 40])), draw(st.sampled_from(list(range(2, 12)) + [22, 30]))]
    c["box"] = [draw(st.sampled_from([0.0, 0.0, -180.0, 20.0, 33.75])), draw(st.sampled_from([360.0, 360.0, 90.0, 200.5])),
                draw(st.sampled_from([-90.0, -90.0, -60.0, 10.0])), draw(st.sampled_from([90.0, 90.0, 75.5]))]
    c["fields"] = []
    for k in range(draw(st.integers(1, 2))):
        c["fields"].append({"name": ["t_surf", "q"][k], "dtype": draw(st.sampled_from(["double", "double", "float"])), "dims": draw(st.sampled_from(["", "t", "tz", "z"])),
                            "miss": draw(st.sampled_from([None, None, "missing_value", "_FillValue"])), "shape": draw(st.sampled_from(["const", "smooth", "rand", "rand"])),
                            "seed": draw(st.integers(0, 10 ** 6))})
    c["vec"] = draw(st.sampled_from([None, None, "", "t", "tz", "z"]))
    c["only"] = draw(st.booleans())
    c["vseed"] = draw(st.integers(0, 10 ** 6))
    c["nt"], c["nz"] = draw(st.sampled_from([1, 1, 2, 3, 5])), draw(st.sampled_from([1, 2, 3, 4]))
    c["cy"] = draw(st.booleans())
    c["finer"] = draw(st.sampled_from([None, None, 0, 1, 2]))
    c["fill"] = draw(st.sampled_from([False, False, True]))
    c["remap"] = draw(st.sampled_from([False, False, True]))
    return c


def strategy(tier):
    return cases()


@functools.lru_cache(64)
def mesh(*a):
    """cell centres and the quadrangles/triangles between them: arrays of cell numbers in order ll, ul, ur, lr"""
    tiles, con = C17.cube(*a)
    cen = np.stack([sph.xyz(x[1::2, 1::2], y[1::2, 1::2]) for x, y in tiles]).reshape(-1, 3)
    h = cs.halo_index(tiles)
    n = a[0]
    quads = []
    for t in range(6):
        for j in range(n + 1):
            for i in range(n + 1):
                q = [h[t, j, i], h[t, j + 1, i], h[t, j + 1, i + 1], h[t, j, i + 1]]
                quads.append([int(v) for v in q])
    return cen, quads


def side(a, b, p):
    """distance of the points p to the great circle through a and b"""
    n = np.cross(a, b)
    return np.arcsin(np.clip(np.abs(p @ n) / np.linalg.norm(n), 0, 1))


def weights(P, cen, quads, eps=1e-7):
    """for every point all (cells, weights, inside) of quadrangles with it inside or on a side"""
    ny, nx, _ = P.shape
    p = P.reshape(-1, 3)
    out = [[] for _ in range(len(p))]
    for q in quads:
        k = [v for v in q if v >= 0]
        v = cen[k]
        c = v.mean(0)
        nrm = np.cross(np.roll(v, 1, 0), v)
        nrm /= np.linalg.norm(nrm, axis=1)[:, None]
        nrm *= np.sign(nrm @ c)[:, None]
        s = p @ nrm.T
        for a in np.flatnonzero((s >= -eps).all(1) & (p @ c > 0)):
            x = p[a]
            if len(k) == 3:
                w = np.array([side(v[(b + 1) % 3], v[(b + 2) % 3], x) for b in range(3)])
            else:
                d1, d2, d3, d4 = side(v[0], v[1], x), side(v[1], v[2], x), side(v[2], v[3], x), side(v[3], v[0], x)
                w = np.array([d2 * d3, d3 * d4, d4 * d1, d1 * d2])
            out[a].append((k, w / w.sum(), bool((s[a] > 1e-6).all())))
    return [out[j * nx:(j + 1) * nx] for j in range(ny)]


def redu(v, lat, m):
    """halve the resolution: longitude 1-2-1, latitude 1-2-1 weighted with cosine, end rows taken over"""
    ny, nx = v.shape
    cp = np.cos(lat)
    cp[0] = cp[-1] = 0
    x, mx = 0.25 * (np.roll(v, 1, 1) + 2 * v + np.roll(v, -1, 1))[:, ::2], (m | np.roll(m, 1, 1) | np.roll(m, -1, 1))[:, ::2]
    o, mo = v[::2, ::2].copy(), m[::2, ::2].copy()
    for j in range(2, ny - 2, 2):
        o[j // 2] = (x[j] * cp[j] + 0.5 * (x[j - 1] * cp[j - 1] + x[j + 1] * cp[j + 1])) / (cp[j] + 0.5 * (cp[j - 1] + cp[j + 1]))
        mo[j // 2] = mx[j - 1] | mx[j] | mx[j + 1]
    return o, mo


def run(c, ctx):
    c = copy.deepcopy(c)
    n, fs = c["n"], c["fields"]
    if c["only"] and c["vec"] is not None:
        fs = []
    if c["finer"] and c["finer"] > 1:
        c["box"][2:] = [-90.0, 90.0]        # later steps suppose the globe
        c["cy"] = False
    key = (n, c["tr"], c["shift"] if not c["tr"] else None, c["stretch"], c["lon"], c["lat"])
    tiles, con = C17.cube(*key)
    cen, quads = mesh(*key)
    mos = cs.write(ctx.path("cs"), "cs_mosaic", tiles, con, angle=True)
    nlon, nlat = c["size"]
    lo, span, la, lb = c["box"]
    fin = c["finer"] or 0
    nx, ny = nlon * 2 ** fin, 2 ** fin * (nlat - 1) + 1

    def pts(nx, ny):
        x = lo + (np.arange(nx) + 0.5) * span / nx
        y = la + (np.arange(ny) + 0.5) * (lb - la) / ny if c["cy"] else la + np.arange(ny) * (lb - la) / (ny - 1)
        return x, y
    X, Y = pts(nx, ny)
    P = sph.xyz(*np.meshgrid(X, Y))
    W = weights(P, cen, quads)
    if any(not w for r in W for w in r):
        raise AssertionError("model: point in no quadrangle")
    # data
    ax = {"t": ("time", c["nt"]), "z": ("level", c["nz"])}
    data = {}
    for f in fs:
        s = tuple(ax[d][1] for d in f["dims"]) + (6 * n * n,)
        r = np.random.default_rng(f["seed"])
        if f["shape"] == "smooth":
            v = np.zeros(s)
            for k in np.ndindex(s[:-1]):
                v[k] = C17.smooth(cen, f["seed"] + sum(k))
        elif f["shape"] == "const":
            v = np.full(s, r.uniform(-300, 300))
        else:
            v = r.uniform(-100, 400, s)
        v = v.astype(NP[f["dtype"]])
        m = np.zeros(s, bool)
        if f["miss"]:
            m = r.random(s) < r.choice([0.02, 0.1, 0.4])
            v[m] = MISS[f["dtype"]]
        data[f["name"]] = (v, m)
    uv = None
    lat = np.arcsin(np.clip(cen[:, 2], -1, 1))
    lon = np.arctan2(cen[:, 1], cen[:, 0])

    def basis(lon, lat):
        return (np.stack([-np.sin(lon), np.cos(lon), 0 * lon], -1),
                np.stack([-np.sin(lat) * np.cos(lon), -np.sin(lat) * np.sin(lon), np.cos(lat)], -1))
    if c["vec"] is not None:
        s = tuple(ax[d][1] for d in c["vec"]) + (6 * n * n,)
        r = np.random.default_rng(c["vseed"])
        uv = [r.uniform(-40, 40, s), r.uniform(-40, 40, s)]
    for t in range(6):
        ds = ncio.DS()
        for a in "tz":
            if any(a in f["dims"] for f in fs) or a in (c["vec"] or ""):
                freg.axis(ds, a, dict(c, tbnd=False, zedge=False))
        for nm, cart in (("grid_xt", "X"), ("grid_yt", "Y")):
            ds.add_dim(nm, n)
            ds.add(nm, "double", (nm,), np.arange(n) + 1.0, cartesian_axis=cart)
        cut = lambda v: v[..., t * n * n:(t + 1) * n * n].reshape(v.shape[:-1] + (n, n))
        for f in fs:
            at = dict(long_name=f["name"], units="K")
            if f["miss"]:
                at[f["miss"]] = np.array([MISS[f["dtype"]]], NP[f["dtype"]])
            ds.add(f["name"], f["dtype"], tuple(ax[d][0] for d in f["dims"]) + ("grid_yt", "grid_xt"), cut(data[f["name"]][0]), **at)
        if uv:
            for nm, v in zip(("ua", "va"), uv):
                ds.add(nm, "double", tuple(ax[d][0] for d in c["vec"]) + ("grid_yt", "grid_xt"), cut(v), long_name=nm, units="m/s")
        ds.write(ctx.path("in.tile%d.nc" % (t + 1)))
    args = ["--input_mosaic", mos, "--input_file", "in", "--output_file", "out", "--interp_method", "bilinear", "--nlon", nlon, "--nlat", nlat]
    if fs:
        args += ["--scalar_field", ",".join(f["name"] for f in fs)]
    if uv:
        args += ["--u_field", "ua", "--v_field", "va"]
    for o, v, dflt in (("lonBegin", lo, 0.0), ("lonEnd", lo + span, 360.0), ("latBegin", la, -90.0), ("latEnd", lb, 90.0)):
        if v != dflt:
            args += ["--" + o, repr(v)]
    if c["cy"]:
        args += ["--center_y"]
    if c["finer"] is not None:
        args += ["--finer_step", c["finer"]]
    if c["fill"]:
        args += ["--fill_missing"]
    if c["remap"]:
        args += ["--remap_file", ctx.path("map")]
    ctx.label("fine%d" % fin, "vec" if uv else "scalar", "miss" if any(f["miss"] for f in fs) else "full", "cy" if c["cy"] else "edge", "tr:%s" % c["tr"], "fill" if c["fill"] else "nofill")
    ctx.nontrivial((bool(uv) or any(f["shape"] != "const" for f in fs)) and any(w[0][2] for r in W for w in r))
    for again in range(2 if c["remap"] else 1):
        if again:
            os.unlink(ctx.path("out.nc"))
        ctx.ok("fregrid", *[str(a) for a in args])
        o = ncio.read(ctx.path("out.nc"))
        x, y = pts(nlon, nlat)
        for nm, v in (("grid_xt", x), ("grid_yt", y)):
            nm = nm if nm in o.vars else {"grid_xt": "lon", "grid_yt": "lat"}[nm]
            if nm not in o.vars or o.vars[nm].data.shape != v.shape or not np.allclose(o.vars[nm].data, v, atol=1e-9):
                raise Violation("axis %s is %s, should be %s" % (nm, o.vars[nm].data if nm in o.vars else None, v))
        for f in fs:
            v, m = data[f["name"]]
            if f["name"] not in o.vars:
                raise Violation("no %s in the output" % f["name"])
            g = o.vars[f["name"]]
            if g.dtype != f["dtype"] or g.data.shape != v.shape[:-1] + (nlat, nlon):
                raise Violation("%s is %s %s" % (f["name"], g.dtype, g.data.shape))
            for k in np.ndindex(v.shape[:-1]):
                scalar(c, f, v[k].astype(float), m[k], g.data[k], W, Y, fin)
        if uv:
            E, N = basis(lon, lat)
            XX, YY = np.meshgrid(np.radians(X), np.radians(Y))
            EO, NO = basis(XX, YY)
            got = []
            for nm in ("ua", "va"):
                if nm not in o.vars or o.vars[nm].data.shape != uv[0].shape[:-1] + (nlat, nlon):
                    raise Violation("%s in the output: %s" % (nm, o.vars[nm].data.shape if nm in o.vars else None))
                got.append(o.vars[nm].data)
            for k in np.ndindex(uv[0].shape[:-1]):
                V = uv[0][k][:, None] * E + uv[1][k][:, None] * N
                for a, B in ((0, EO), (1, NO)):
                    opts = [[[w @ V[q] @ B[j, i] for q, w, _ in W[j][i]] for i in range(nx)] for j in range(ny)]
                    match(opts, got[a][k].astype(float), None, Y, fin, "va"[a - 1:] and ("ua", "va")[a], 1e-6 * 60, None)


def match(opts, g, bad, Y, fin, name, tol, missing):
    """opts[j][i]: values allowed at the (fine) point; bad[j][i]: whether missing, or None"""
    ny, nx = len(opts), len(opts[0])
    lo = np.array([[min(o) for o in r] for r in opts])
    hi = np.array([[max(o) for o in r] for r in opts])
    m = np.zeros((ny, nx), bool) if bad is None else bad
    lat = np.radians(np.array(Y))
    for s in range(fin):
        lo, m2 = redu(lo, lat, m)
        hi, _ = redu(hi, lat, m)
        m = m2
        lat = lat[::2]
    if missing is not None:
        gm = g == missing
        if not np.array_equal(gm, m):
            k = tuple(np.argwhere(gm != m)[0])
            raise Violation("%s%s is %r but a source point around is %smissing" % (name, list(map(int, k)), g[k], "" if m[k] else "not "))
    ok = (g >= lo - tol) & (g <= hi + tol) | m
    if fin == 0 and ok.all():
        for j in range(ny):
            for i in range(nx):
                if not m[j, i] and min(abs(v - g[j, i]) for v in opts[j][i]) > tol:
                    ok[j, i] = False
    if not ok.all():
        k = tuple(np.argwhere(~ok)[0])
        raise Violation("%s%s = %r, should be %r%s" % (name, list(map(int, k)), float(g[k]), float(lo[k]), "" if lo[k] == hi[k] else " to %r" % float(hi[k])))


def scalar(c, f, v, m, g, W, Y, fin):
    ny, nx = len(W), len(W[0])
    miss = float(np.array(MISS[f["dtype"]], NP[f["dtype"]])) if f["miss"] else None
    bad = np.zeros((ny, nx), bool)
    amb = np.zeros((ny, nx), bool)
    opts = []
    for j in range(ny):
        row = []
        for i in range(nx):
            vals, ms = [], []
            for q, w, _ in W[j][i]:
                if m[q].any():
                    if c["fill"]:
                        top = [a for a in range(len(q)) if w[a] > w.max() - 1e-6]
                        vals += [v[q[a]] for a in top if not m[q[a]]]
                        ms += [bool(m[q[a]]) for a in top]
                    else:
                        ms.append(True)
                else:
                    vals.append(w @ v[q])
                    ms.append(False)
            bad[j, i] = all(ms)
            amb[j, i] = any(ms) and not all(ms)
            row.append(vals or [0.0])
        opts.append(row)
    if amb.any():
        if fin:
            return
        g = g.copy().astype(float)
        miss_ = miss
        for j, i in np.argwhere(amb):           # either is right
            if g[j, i] == miss_:
                bad[j, i] = True
    tol = 1e-6 * max(1.0, np.abs(np.where(m, 0, v)).max())
    if f["dtype"] == "float":
        tol += 3e-7 * max(1.0, np.abs(np.where(m, 0, v)).max())
    match(opts, np.asarray(g, float), bad, Y, fin, f["name"], tol, miss)
