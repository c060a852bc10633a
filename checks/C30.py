"""fregrid --extrapolate and --dst_vgrid: masked points are filled with the solution of Laplace's equation, levels by linear interpolation."""
import os
import numpy as np
from hypothesis import strategies as st
from vlib.engine import Violation
from vlib import ncio, freg, grid
from vlib.freg import MISS, NP, D
from checks import C16

ID = "C30"
QUICK, THOROUGH = 700, 20000
RULE = ("Generated longitude-latitude sources (regular or irregular, global and cyclic, global without contact, or regional) with 1-2 fields (four types, packed, with or without "
        "missing values, level and time axes), random or blockwise masks that differ by level and record, targets by size or mosaic (one or two tiles, also beyond the source), "
        "one to four processes, with or without a target vertical grid (inside, above, below or across the source levels, or equal to them) and a level range; "
        "every value is compared with: the direct solution of the discrete Laplace equation on the masked points (no flux through closed edges, valid points untouched), remapped by exact "
        "overlaps, linearly interpolated to the target levels and constant beyond the source levels; "
        "non-trivial = at least one masked point was filled or one target level lies between source levels.")
ASSUMPTIONS = ["the accuracy of the fill is the one that --stop_crit and the limit of 4000 sweeps guarantee for the damped Jacobi iteration (a bound from the hitting time of the random walk)",
               "every level of every record has at least one valid point; the first field has the level axis when a target vertical grid is given"]


@st.composite
def cases(draw):
    c = {"src": draw(C16.llgrid()), "dst": draw(st.one_of(C16.llgrid(), C16.llgrid(True)))}
    while len(c["src"]["lats"]) < 3:
        c["src"]["lats"] = [float(v) for v in np.linspace(c["src"]["lats"][0], c["src"]["lats"][-1], draw(st.integers(3, 9)))]
    c["src"]["cut"] = None
    c["cyclic"] = draw(st.sampled_from([True, True, True, False]))
    if draw(st.sampled_from([False, False, False, True])):
        c["dst"] = {"lons": c["src"]["lons"], "lats": c["src"]["lats"], "cut": None, "size": None}
    fs = []
    for k in range(draw(st.integers(1, 2))):
        t = draw(st.sampled_from(["double", "double", "float", "int", "short", "short"]))
        f = {"name": ["temp", "salt"][k], "dtype": t, "dims": draw(st.sampled_from(["", "t", "tz", "z", "tz"])),
             "miss": draw(st.sampled_from([None, "missing_value", "_FillValue", "both", "both"])), "method": None, "meas": False,
             "shape": draw(st.sampled_from(["const", "level", "zeros", "rand", "rand", "warm", "warm"])), "seed": draw(st.integers(0, 10 ** 6)), "pack": None,
             "hole": draw(st.sampled_from(["rand", "block", "rows", "most", "one"]))}
        if t == "short":
            f["pack"] = draw(st.sampled_from([None, [0.1, 273.15], [0.5, 0], [0.01, -7.0]]))
        fs.append(f)
    c["fields"] = fs
    c["nt"], c["nz"] = draw(st.integers(1, 3)), draw(st.integers(1, 5))
    c["tbnd"], c["zedge"] = draw(st.booleans()), draw(st.booleans())
    c["z"] = [float(v) for v in np.cumsum([draw(st.sampled_from([0.0, 5.0, 20.0]))] + [draw(st.sampled_from([1.0, 7.5, 10.0, 100.0])) for _ in range(c["nz"] - 1)])]
    c["vgrid"] = None
    if draw(st.booleans()):
        how = draw(st.sampled_from(["any", "any", "any", "same", "above", "below"]))
        n = draw(st.integers(1, 6))
        if how == "same":
            zt = c["z"]
        elif how == "above":
            zt = [c["z"][0] - 30 + 2 * k for k in range(n)]
        elif how == "below":
            zt = [c["z"][-1] + 3 + 2.5 * k for k in range(n)]
        else:
            zt = sorted({draw(st.one_of(st.sampled_from(c["z"]), st.integers(-20, 4 * int(c["z"][-1] + 20)).map(lambda v: v / 4.0))) for _ in range(n)})
        zb = [zt[0] - 1.0] + [0.5 * (a + b) for a, b in zip(zt, zt[1:])] + [zt[-1] + 2.0]
        c["vgrid"] = {"z": [float(v) for v in zt], "zb": [float(v) for v in zb]}
        fs[0]["dims"] = draw(st.sampled_from(["z", "tz"]))
    c["k"] = None
    if draw(st.sampled_from([False, False, True])):
        a = draw(st.integers(1, c["nz"]))
        c["k"] = [a, draw(st.integers(a, c["nz"]))]
    c["flag"] = draw(st.booleans()) or not c["vgrid"]
    c["stop"] = draw(st.sampled_from([None, 1e-3, 1e-6, 1e-9, 1e-9]))
    c["bad"] = draw(st.sampled_from([None] * 12 + ["skew", "tiles"]))
    c["np"] = draw(st.sampled_from([0, 0, 0, 2, 3, 4]))
    c["std"] = draw(st.booleans())
    c["weight"], c["target"], c["l"], c["area_t"] = None, False, None, False
    return c


def strategy(tier):
    return cases()


def raw(f, shape):
    rng = np.random.default_rng(f["seed"])
    t = f["dtype"]
    if f["shape"] == "const":
        v = np.full(shape, float(rng.integers(-40, 40)))
    elif f["shape"] == "level":
        v = np.zeros(shape) + rng.integers(-500, 500, shape[:-2] + (1, 1))
    elif f["shape"] == "zeros":
        v = np.where(rng.random(shape) < 0.4, 0, rng.integers(50, 90, shape)).astype(float)
    elif f["shape"] == "warm":
        v = rng.uniform(270, 300, shape)
    else:
        v = rng.uniform(-1000, 1000, shape)
    if t in ("int", "short"):
        v = np.rint(v)
    m = np.zeros(shape, bool)
    ny, nx = shape[-2:]
    if f["miss"]:
        for ix in np.ndindex(shape[:-2]):
            h = f["hole"]
            if h == "rand":
                q = rng.random((ny, nx)) < 0.3
            elif h == "most":
                q = rng.random((ny, nx)) < 0.8
            elif h == "one":
                q = np.zeros((ny, nx), bool)
                q[rng.integers(ny), rng.integers(nx)] = True
            elif h == "rows":
                q = np.zeros((ny, nx), bool)
                k = rng.integers(1, ny)
                q[(slice(0, k) if rng.random() < 0.5 else slice(k, None))] = True
            else:
                q = np.zeros((ny, nx), bool)
                j, i = rng.integers(ny), rng.integers(nx)
                q[j:j + rng.integers(1, ny + 1), i:i + rng.integers(1, nx + 1)] = True
            q[rng.integers(ny), rng.integers(nx)] = False
            m[ix] = q
    v = v.astype(NP[t])
    v[m] = MISS[t]
    return v, m


def laplace(lons, lats, cyclic):
    """rows of weights of the four neighbours of every point"""
    x = 0.5 * (np.array(lons)[1:] + np.array(lons)[:-1]) * D
    y = 0.5 * (np.array(lats)[1:] + np.array(lats)[:-1]) * D
    nx, ny = len(x), len(y)
    dx, dy = np.diff(x), np.diff(y)
    dxe, dye = np.append(dx, dx[-1]), np.append(dy, dy[-1])     # spacing to the next point, the last repeated
    dxw, dys = np.insert(dx, 0, dx[0]), np.insert(dy, 0, dy[0])
    dxt, dyt = 0.5 * (dxe + dxw), 0.5 * (dye + dys)
    dxt[0], dyt[0] = dxt[1], dyt[1]
    yn, ys = np.append(0.5 * (y[1:] + y[:-1]), y[-1] + 0.5 * dy[-1]), np.insert(0.5 * (y[1:] + y[:-1]), 0, y[0] - 0.5 * dy[0])
    cs = 1 / np.cos(y)
    W = np.zeros((ny, nx, ny, nx))
    for j in range(ny):
        n, s = np.cos(yn[j]) * cs[j] / (dyt[j] * dye[j]), np.cos(ys[j]) * cs[j] / (dyt[j] * dys[j])
        for i in range(nx):
            e, w = cs[j] ** 2 / (dxe[i] * dxt[i]), cs[j] ** 2 / (dxw[i] * dxt[i])
            tot = n + s + e + w
            W[j, i, min(j + 1, ny - 1), i] += n / tot
            W[j, i, max(j - 1, 0), i] += s / tot
            W[j, i, j, (i + 1) % nx if cyclic else min(i + 1, nx - 1)] += e / tot
            W[j, i, j, (i - 1) % nx if cyclic else max(i - 1, 0)] += w / tot
    return W.reshape(ny * nx, ny * nx)


def fill(W, x, m, stop):
    """filled level and the accuracy to expect"""
    q = m.ravel()
    v = x.ravel().copy()
    if not q.any():
        return x, 0.0
    A = np.eye(q.sum()) - W[np.ix_(q, q)]
    v[q] = np.linalg.solve(A, W[np.ix_(q, ~q)] @ v[~q])
    h = max(1.0, np.linalg.solve(A, np.ones(q.sum())).max())
    big = np.abs(v).max()
    return v.reshape(x.shape), h * stop / 0.9 + big * h * (1 - 0.9 / h) ** 4000


def vinterp(z, zt, x):
    """x[..., level, y, x] at zt, constant beyond the ends"""
    z, zt = np.array(z), np.clip(zt, z[0], z[-1])
    if len(z) == 1:
        return np.repeat(x, len(zt), -3)
    k = np.clip(np.searchsorted(z, zt, "right") - 1, 0, len(z) - 2)
    w = ((zt - z[k]) / (z[k + 1] - z[k]))[:, None, None]
    return (1 - w) * x[..., k, :, :] + w * x[..., k + 1, :, :]


def zaxis(ds, c):
    ds.add_dim("level", c["nz"])
    at = dict(long_name="depth", units="m", cartesian_axis="Z", positive="down")
    if c["zedge"]:
        at["edges"] = "level_edges"
    ds.add("level", "double", ("level",), np.array(c["z"]), **at)
    if c["zedge"]:
        ds.add_dim("level_edges", c["nz"] + 1)
        z = np.array(c["z"])
        ds.add("level_edges", "double", ("level_edges",), np.concatenate([z - 0.25, [z[-1] + 3]]), long_name="edges", cartesian_axis="Z")


def source(c, path, data):
    s = c["src"]
    ds = ncio.DS()
    ds.attrs["title"] = "source"
    used = "".join(f["dims"] for f in c["fields"])
    if "t" in used:
        freg.axis(ds, "t", c)
    if "z" in used:
        zaxis(ds, c)
    for nm, cart, cor in (("lon", "X", s["lons"]), ("lat", "Y", s["lats"])):
        cor = np.array(cor)
        ds.add_dim(nm, len(cor) - 1)
        ds.add(nm, "double", (nm,), 0.5 * (cor[1:] + cor[:-1]), long_name="T-cell", units="degrees", cartesian_axis=cart)
    ax = {"t": "time", "z": "level"}
    for f in c["fields"]:
        at = dict(long_name=f["name"], units="K")
        dt = f["dtype"]
        if f["miss"] in ("missing_value", "both"):
            at["missing_value"] = np.array([MISS[dt]], NP[dt])
        if f["miss"] in ("_FillValue", "both"):
            at["_FillValue"] = np.array([MISS[dt]], NP[dt])
        if f["pack"]:
            at["scale_factor"] = f["pack"][0]
            if f["pack"][1]:
                at["add_offset"] = f["pack"][1]
        ds.add(f["name"], dt, tuple(ax[d] for d in f["dims"]) + ("lat", "lon"), data[f["name"]], **at)
    ds.write(path)


def run(c, ctx):
    s, d = c["src"], c["dst"]
    ny, nx = len(s["lats"]) - 1, len(s["lons"]) - 1
    glob = abs(s["lons"][-1] - s["lons"][0] - 360) < 1e-9
    cyc = c["cyclic"] and glob
    os.makedirs(ctx.path("in"))
    X, Y = np.meshgrid(freg.mid(s["lons"]), freg.mid(s["lats"]))
    if c["bad"] == "skew":
        X = X + 0.05 * Y
    grid.hgrid(ctx.path("in", "src_grid.nc"), X, Y, "tile1")
    src = ctx.path("in", "src_mosaic.nc")
    if c["bad"] == "tiles":
        cyc = False
    grid.mosaic(src, "src_mosaic", ["src_grid.nc"], ["tile1"], contacts=[(0, 0, "%d:%d,1:%d::1:1,1:%d" % (2 * nx, 2 * nx, 2 * ny, 2 * ny))] if cyc else ())
    if c["bad"] == "tiles":
        src = freg.write_mosaic(ctx.path("in"), "two_mosaic", s["lons"], s["lats"], freg.cut(s["lons"], s["lats"], ["x", 1]))
    used = "".join(f["dims"] for f in c["fields"])
    if "z" not in used:
        c["k"] = None
    n = {"t": c["nt"], "z": c["nz"]}
    data = {f["name"]: raw(f, tuple(n[a] for a in f["dims"]) + (ny, nx)) for f in c["fields"]}
    if c["bad"] == "tiles":
        h = 2                                                   # as cut() splits
        for k, sl in enumerate((slice(0, h), slice(h, None))):
            source(dict(c, src=dict(s, lons=s["lons"][:h + 1] if k == 0 else s["lons"][h:])), ctx.path("in", "src.tile%d.nc" % (k + 1)), {q: v[..., sl] for q, (v, m) in data.items()})
    else:
        source(c, ctx.path("in", "src.nc"), {k: v for k, (v, m) in data.items()})
    args = ["--input_mosaic", src, "--input_dir", ctx.path("in"), "--scalar_field", ",".join(f["name"] for f in c["fields"])]
    dt = freg.cut(d["lons"], d["lats"], d["cut"])
    if d["size"]:
        q, r, lo, hi, a, b = d["size"]
        args += ["--nlon", str(q), "--nlat", str(r), "--lonBegin", repr(lo), "--lonEnd", repr(hi), "--latBegin", repr(a), "--latEnd", repr(b)]
    else:
        args += ["--output_mosaic", freg.write_mosaic(ctx.path("dst"), "dst_mosaic", d["lons"], d["lats"], dt)]
    if c["k"]:
        args += ["--KlevelBegin", str(c["k"][0]), "--KlevelEnd", str(c["k"][1])]
    if c["std"]:
        args += ["--standard_dimension"]
    mine = []
    if c["flag"]:
        mine += ["--extrapolate"]
    if c["vgrid"]:
        zz = np.empty(2 * len(c["vgrid"]["z"]) + 1)
        zz[1::2], zz[::2] = c["vgrid"]["z"], c["vgrid"]["zb"]
        dv = ncio.DS()
        dv.add_dim("nzv", len(zz))
        dv.add("zeta", "double", ("nzv",), zz, units="meters")
        dv.write(ctx.path("in", "vgrid.nc"))
        mine += ["--dst_vgrid", ctx.path("in", "vgrid.nc")]
    stop = 0.005
    if c["stop"]:
        stop = c["stop"]
        mine += ["--stop_crit", repr(stop)]
    par = c["np"] if min((j1 - j0) * (i1 - i0) for j0, j1, i0, i1 in dt) and all(j1 - j0 >= c["np"] for j0, j1, _, _ in dt) else 0
    ctx.label("cyclic" if cyc else "global" if glob else "regional", "dst%d" % len(dt), "vgrid" if c["vgrid"] else "no vgrid", "np%d" % par)
    if c["bad"]:
        ctx.label("refused")
        r = ctx.run("fregrid_parallel" if par else "fregrid", *args, *mine, "--input_file", "src.nc", "--output_file", "out.nc", mpi=par)
        if r.rc == 0:
            raise Violation("a source that is not one longitude-latitude tile (%s) is extrapolated all the same" % c["bad"])
        ctx.nontrivial(True)
        return
    ctx.ok("fregrid_parallel" if par else "fregrid", *args, *mine, "--input_file", "src.nc", "--output_file", "out.nc", mpi=par)

    # ---- what it should be
    W = laplace(s["lons"], s["lats"], cyc)
    kk = slice(c["k"][0] - 1, c["k"][1]) if c["k"] else slice(None)
    ex, busy = {}, False
    for f in c["fields"]:
        v, m = data[f["name"]]
        x = v.astype(float)
        if f["pack"]:
            x = x * f["pack"][0] + f["pack"][1]
        x = np.where(m, 0.0, x)
        t = np.zeros(x.shape)
        for ix in np.ndindex(x.shape[:-2]):
            x[ix], t[ix] = fill(W, x[ix], m[ix], stop)
        busy |= bool(m.any())
        if "z" in f["dims"]:
            x, t = x[..., kk, :, :], t[..., kk, :, :]
        e, cov, tol, near0, _ = C16.expect(c, dict(f, pack=None), x, np.zeros(x.shape, bool), (np.ones((ny, nx)), None))
        ex[f["name"]] = [e, cov, tol + t.max(), near0]
    z = c["z"][kk]
    for f in c["fields"]:
        E = ex[f["name"]]
        if c["vgrid"] and "z" in f["dims"]:
            e, cov = np.where(E[1], E[0], 0.0), E[1]
            E[0] = vinterp(z, c["vgrid"]["z"], e)
            E[1] = np.broadcast_to(cov[..., :1, :, :], E[0].shape)
            E[3] = np.broadcast_to(E[3], cov.shape)[..., :1, :, :]
            busy |= bool(np.any((np.array(c["vgrid"]["z"]) > z[0]) & (np.array(c["vgrid"]["z"]) < z[-1])))
    for k, (j0, j1, i0, i1) in enumerate(dt):
        p = ctx.path("out.nc" if len(dt) == 1 else "out.tile%d.nc" % (k + 1))
        if not os.path.exists(p):
            raise Violation("no output file %s" % os.path.basename(p))
        o = ncio.read(p)
        if "z" in used:
            C16.check_axis(o.vars["level"], c["vgrid"]["z"] if c["vgrid"] else z, "level")
            if c["zedge"]:
                zi = np.array(c["z"])
                zi = np.concatenate([zi - 0.25, [zi[-1] + 3]])
                C16.check_axis(o.vars["level_edges"], c["vgrid"]["zb"] if c["vgrid"] else (zi[c["k"][0] - 1:c["k"][1] + 1] if c["k"] else zi), "level_edges")
        for f in c["fields"]:
            if f["name"] not in o.vars:
                raise Violation("no %s in the output" % f["name"])
            g = o.vars[f["name"]]
            if g.dtype != f["dtype"]:
                raise Violation("%s is %s, was %s" % (f["name"], g.dtype, f["dtype"]))
            e, cov, tol, near0 = ex[f["name"]]
            near0 = np.broadcast_to(near0, e.shape)
            e, cov, near0 = e[..., j0:j1, i0:i1], cov[..., j0:j1, i0:i1], near0[..., j0:j1, i0:i1]
            if g.data.shape != e.shape:
                raise Violation("%s has shape %s, should be %s" % (f["name"], g.data.shape, e.shape))
            C16.check_field(c, f, g.data, e, cov, tol, near0, f["name"])
    ctx.nontrivial(busy)
